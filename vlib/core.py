"""
Driver for the runtime monitors.

A property module (props/p01.py ...) defines

    PROP       the property id
    RULE       how cases are made and what makes one non-trivial
    WORKLOADS  list of Workload(name, func, quick=N, thorough=M)
    REQUIRED   names of monitors that have to have decided something
               (otherwise the run is inconclusive)

A workload function is called as func(mon, rng, idx); it drives the real code
and reports what it observes to the Monitor.  It has to be deterministic given
(VERIF_SEED, workload name, idx), so that a case can be replayed.

Verdicts: exit 0 held on everything observed, exit 1 with a VIOLATION line,
exit 2 inconclusive (a monitor observed nothing).
"""
import hashlib
import json
import mmap
import os
import select
import signal
import struct
import sys
import time
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NWORKERS = int(os.environ.get('VERIF_WORKERS', '8'))

# a case takes well below a second or a few seconds; this is processor time
# (not wall time) and so does not depend on the load of the machine
CPU_LIMIT = 150.0
MAX_VIOLATIONS = 40


class Violation(Exception):
    def __init__(self, name, msg, key=None):
        self.name = name
        self.msg = msg
        self.key = key
        super().__init__('%s: %s' % (name, msg))


class Skip(Exception):
    """The case is not one the property talks about."""


class Workload(object):
    def __init__(self, name, func, quick, thorough, warm=1):
        self.name = name
        self.func = func
        self.quick = quick
        self.thorough = thorough
        self.warm = warm


def _short(x, n=400):
    if isinstance(x, np.ndarray) and x.size > 20:
        s = 'array%s dtype %s first %s' % (x.shape, x.dtype, np.array2string(
            x.ravel()[:6], separator=','))
    else:
        s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, (np.integer, int)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return float('%.6g' % x) if np.isfinite(x) else repr(x)
    if isinstance(x, np.ndarray):
        if x.size > 12:
            return 'array%s' % (x.shape,)
        return jsonable(x.tolist())
    if x is None or isinstance(x, str):
        return x
    return _short(x, 120)


class Monitor(object):
    """Collects what was observed and raises Violation on the first bad thing in a case"""

    def __init__(self, known=()):
        self.counts = {}
        self.events = {}
        self.sigs = set()
        self.samples = []
        self.known = set(known)
        self.known_hits = {}
        self.nocase = 0
        self.desc = None
        self.nontrivial = True

    # -- case description
    def begin(self, wl, idx):
        self.wl = wl
        self.idx = idx
        self.desc = {}
        self.nontrivial = True

    def describe(self, **kw):
        self.desc.update(kw)

    def trivial(self):
        self.nontrivial = False

    def end(self):
        d = jsonable(self.desc)
        txt = self.wl + json.dumps(d, sort_keys=True)
        if self.nontrivial and self.desc:
            self.sigs.add(zlib.crc32(txt.encode()) | (zlib.adler32(txt.encode()) << 32))
        if len(self.samples) < 2 and self.desc and len(txt) < 3000:
            self.samples.append(dict(workload=self.wl, idx=self.idx, case=d))

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def _count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # -- oracles
    def fail(self, name, msg, key=None):
        raise Violation(name, msg, key)

    def true(self, name, cond, *detail):
        self._count(name)
        if not cond:
            self.fail(name, ' '.join(_short(d) if not isinstance(d, str) else d for d in detail))

    def finding(self, key, name, cond, *detail):
        """like true, but a failure listed in the known-findings file is only counted"""
        self._count(name)
        if not cond:
            msg = ' '.join(_short(d) if not isinstance(d, str) else d for d in detail)
            if key in self.known:
                self.known_hits[key] = self.known_hits.get(key, 0) + 1
                return False
            self.fail(name, msg, key)
        return True

    def close(self, name, a, b, rtol=1e-9, atol=0.0, detail='', scale=None):
        """elementwise |a-b| <= atol + rtol*max(|b|, scale); non-finite values must agree"""
        self._count(name)
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            self.fail(name, 'shape %s != %s %s' % (a.shape, b.shape, detail))
        if a.dtype.kind not in 'fciub' or b.dtype.kind not in 'fciub':
            self.fail(name, 'types %s %s %s' % (a.dtype, b.dtype, detail))
        if a.size == 0:
            return
        a = a.astype('c16' if a.dtype.kind == 'c' or b.dtype.kind == 'c' else 'f8')
        b = b.astype(a.dtype)
        fa = np.isfinite(a)
        fb = np.isfinite(b)
        with np.errstate(all='ignore'):
            mag = np.abs(b)
            if scale is not None:
                mag = np.maximum(mag, scale)
            tol = atol + rtol * mag
            ok = np.where(fa & fb, np.abs(np.where(fa & fb, a - b, 0)) <= np.where(fb, tol, 0),
                          (np.isnan(a) & np.isnan(b)) | (a == b))
        if not ok.all():
            bad = np.argwhere(~np.atleast_1d(ok))
            i = tuple(bad[0])
            aa = np.atleast_1d(a)[i]
            bb = np.atleast_1d(b)[i]
            self.fail(name, 'got %r expected %r (diff %.3g, tol %.3g) at %s, %d of %d differ %s' % (
                aa, bb, abs(aa - bb), float(np.atleast_1d(np.broadcast_to(tol, a.shape))[i]),
                i, len(bad), a.size, _short(detail) if not isinstance(detail, str) else detail))

    def same(self, name, a, b, detail=''):
        """bit for bit (NaN equal to NaN)"""
        self._count(name)
        from . import snap
        d = snap.diff(a, b)
        if d:
            self.fail(name, '%s %s' % (d, detail if isinstance(detail, str) else _short(detail)))

    def raises(self, name, exc, func, *args, **kw):
        self._count(name)
        try:
            r = func(*args, **kw)
        except exc as e:
            return e
        except Exception as e:
            self.fail(name, 'expected %s, got %s: %s' % (_exn(exc), type(e).__name__, e))
        self.fail(name, 'expected %s, returned %s (args %s)' % (_exn(exc), _short(r, 200), _short(args, 300)))

    def returns(self, name, func, *args, **kw):
        self._count(name)
        try:
            return func(*args, **kw)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.fail(name, 'unexpected %s: %s at %s:%d (args %s)' % (
                type(e).__name__, e, tb.filename, tb.lineno, _short(args, 300)))

    def summary(self):
        return dict(counts=self.counts, events=self.events, sigs=sorted(self.sigs),
                    samples=self.samples, known_hits=self.known_hits)


def _exn(exc):
    if isinstance(exc, tuple):
        return '/'.join(e.__name__ for e in exc)
    return exc.__name__


def case_rng(seed, prop, wl, idx):
    h = hashlib.sha256(('%d/%s/%s/%d' % (seed, prop, wl, idx)).encode()).digest()
    return np.random.RandomState(np.frombuffer(h, dtype='u4'))


# ----------------------------------------------------------------- known findings
def load_known(prop):
    """active known findings: lines 'KNOWN-FINDING: property=Pxx key=<key> <what fails>'"""
    out = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                rest = line.split(None, 2)[2]
                key, txt = rest.split(None, 1)
                out[key[len('key='):]] = txt
    return out


# ----------------------------------------------------------------- running cases
def run_case(mod, mon, wl, idx, seed):
    """returns None or a dict describing the violation"""
    rng = case_rng(seed, mod.PROP, wl.name, idx)
    mon.begin(wl.name, idx)
    try:
        with np.errstate(all='ignore'):
            wl.func(mon, rng, idx)
    except Skip:
        return 'skip'
    except Violation as e:
        return dict(workload=wl.name, idx=idx, monitor=e.name, msg=e.msg,
                    case=jsonable(mon.desc))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.format_exception(type(e), e, e.__traceback__)
        return dict(workload=wl.name, idx=idx, monitor='unexpected-exception',
                    msg='%s: %s' % (type(e).__name__, e), traceback=''.join(tb)[-3000:],
                    case=jsonable(mon.desc))
    mon.end()
    return None


def _cpu_of(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            parts = f.read().rsplit(')', 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf('SC_CLK_TCK')
    except OSError:
        return None


def _worker(mod, cases, shared, slot, counter_lock_fd, wfd, seed, deadline, known):
    """take cases from the shared counter until none are left"""
    import fcntl
    mon = Monitor(known)
    done = {}
    nviol = 0
    last_flush = time.time()

    def send(obj):
        data = json.dumps(obj).encode() + b'\n'
        while data:
            n = os.write(wfd, data)
            data = data[n:]

    skipped = 0
    while True:
        fcntl.lockf(counter_lock_fd, fcntl.LOCK_EX)
        i, = struct.unpack_from('q', shared, 0)
        struct.pack_into('q', shared, 0, i + 1)
        fcntl.lockf(counter_lock_fd, fcntl.LOCK_UN)
        if i >= len(cases) or time.time() > deadline or nviol >= 6:
            break
        cpu = time.process_time()
        struct.pack_into('qd', shared, 64 + 16 * slot, i, cpu)
        wl, idx = cases[i]
        r = run_case(mod, mon, wl, idx, seed)
        if r == 'skip':
            skipped += 1
        else:
            done[wl.name] = done.get(wl.name, 0) + 1
            if r is not None:
                nviol += 1
                send(dict(violation=r))
    struct.pack_into('qd', shared, 64 + 16 * slot, -1, 0.0)
    send(dict(done=done, skipped=skipped, **mon.summary()))


def _spawn(mod, cases, shared, slot, lockpath, seed, deadline, known):
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            lfd = os.open(lockpath, os.O_RDWR)
            _worker(mod, cases, shared, slot, lfd, wfd, seed, deadline, known)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            sys.stderr.flush()
            os._exit(code)
    os.close(wfd)
    return pid, rfd


def drive(mod, tier, seed, only=None, budget=None):
    """run all cases of the module; returns the aggregate"""
    import tempfile
    known = load_known(mod.PROP)
    wls = [w for w in mod.WORKLOADS if only is None or w.name in only]

    # compile the kernels in this process before forking
    t0 = time.time()
    wmon = Monitor(known)
    if hasattr(mod, 'warm'):
        try:
            mod.warm()
        except Exception:
            pass  # happens again in a worker, where it is reported
    for w in wls:
        for i in range(w.warm):
            run_case(mod, wmon, w, i, seed)
    twarm = time.time() - t0

    per = []
    for w in wls:
        n = getattr(w, tier)
        per.append([(w, i) for i in range(n)])
    # interleave the workloads in proportion, so a wall limit trims all alike
    order = []
    for lst in per:
        n = len(lst)
        order += [((k + 0.5) / n, c) for k, c in enumerate(lst)]
    order.sort(key=lambda t: t[0])
    cases = [c for _, c in order]

    if budget is None:
        budget = getattr(mod, 'BUDGET', {}).get(tier, 100.0 if tier == 'quick' else 600.0)
    budget = float(os.environ.get('VERIF_BUDGET', budget))
    deadline = time.time() + budget

    shared = mmap.mmap(-1, 4096)
    struct.pack_into('q', shared, 0, 0)
    tmp = tempfile.NamedTemporaryFile(prefix='vlock')
    nw = min(NWORKERS, max(1, len(cases)))
    procs = {}
    agg = dict(done={}, counts={}, events={}, sigs=set(), samples=[], known_hits={},
               violations=[], skipped=0, hung=[], dead=[])
    nextslot = 0
    for _ in range(nw):
        struct.pack_into('qd', shared, 64 + 16 * nextslot, -1, 0.0)
        pid, rfd = _spawn(mod, cases, shared, nextslot, tmp.name, seed, deadline, known)
        procs[rfd] = dict(pid=pid, slot=nextslot, buf=b'', killed=None)
        nextslot += 1

    def merge(obj):
        if 'violation' in obj:
            agg['violations'].append(obj['violation'])
            return
        for k in ('done', 'counts', 'events', 'known_hits'):
            for n, v in obj[k].items():
                agg[k][n] = agg[k].get(n, 0) + v
        agg['sigs'].update(obj['sigs'])
        agg['samples'] += obj['samples']
        agg['skipped'] += obj['skipped']

    while procs:
        r, _, _ = select.select(list(procs), [], [], 2.0)
        for fd in r:
            p = procs[fd]
            data = os.read(fd, 1 << 20)
            if data:
                p['buf'] += data
                while b'\n' in p['buf']:
                    line, p['buf'] = p['buf'].split(b'\n', 1)
                    merge(json.loads(line))
                continue
            os.close(fd)
            _, status = os.waitpid(p['pid'], 0)
            del procs[fd]
            i, cpu0 = struct.unpack_from('qd', shared, 64 + 16 * p['slot'])
            if status != 0:
                wl, idx = cases[i] if i >= 0 else (mod.WORKLOADS[0], 0)
                if p['killed']:
                    what = p['killed']
                    name = 'does-not-finish'
                else:
                    sig = status & 0x7f
                    what = ('the process died of signal %d' % sig) if sig else (
                        'the process exited with %d' % (status >> 8))
                    name = 'process-died'
                    if sig == signal.SIGKILL:
                        # not by us: the machine ran out of memory, no verdict on the code
                        agg['dead'].append((wl.name, idx))
                        continue
                agg['violations'].append(dict(workload=wl.name, idx=idx, monitor=name, msg=what,
                                              case={}))
                if len(agg['violations']) < MAX_VIOLATIONS and nextslot < 200:
                    struct.pack_into('qd', shared, 64 + 16 * nextslot, -1, 0.0)
                    pid, rfd = _spawn(mod, cases, shared, nextslot, tmp.name, seed, deadline, known)
                    procs[rfd] = dict(pid=pid, slot=nextslot, buf=b'', killed=None)
                    nextslot += 1
        for fd, p in procs.items():
            i, cpu0 = struct.unpack_from('qd', shared, 64 + 16 * p['slot'])
            if i >= 0 and not p['killed']:
                cpu = _cpu_of(p['pid'])
                if cpu is not None and cpu - cpu0 > CPU_LIMIT:
                    p['killed'] = 'one case used more than %d s of processor time' % CPU_LIMIT
                    os.kill(p['pid'], signal.SIGKILL)
    agg['twarm'] = twarm
    agg['planned'] = len(cases)
    return agg


# ----------------------------------------------------------------- main
def write_evidence(mod, tier, seed, agg, wall):
    evals = sum(agg['done'].values())
    cov = dict(
        evaluations=evals,
        distinct_nontrivial=len(agg['sigs']),
        rule=' '.join(mod.RULE.split()),
        samples=agg['samples'][:8],
        workload_cases=agg['done'],
        monitor_decisions=agg['counts'],
        observed_events=agg['events'],
        cases_planned=agg['planned'],
        cases_outside_property=agg['skipped'],
        known_finding_hits=agg['known_hits'],
        seconds_compiling=round(agg['twarm'], 1),
    )
    cov.update(agg.get('extra', {}))
    ev = dict(property=mod.PROP, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  'numpy, scipy, numba and galsim compute what they document',
                  'held on the executions observed, not beyond them'],
              wall_s=round(wall, 2), violations=len(agg['violations']))
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, mod.PROP + '.json')
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, path)


def report(mod, tier, seed, agg, wall):
    d = os.path.join(VERIF, 'replays', mod.PROP)
    known = load_known(mod.PROP)
    for key, txt in known.items():
        print('KNOWN-FINDING: property=%s %s (%d times in this run)' % (
            mod.PROP, txt, agg['known_hits'].get(key, 0)))
    seen = {}
    for v in agg['violations']:
        k = (v['workload'], v['monitor'])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > 3:
            continue
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d-s%d.json' % (v['workload'], v['monitor'].replace('/', '_').replace(' ', '_')[:40],
                                                  v['idx'], seed))
        rec = dict(property=mod.PROP, tier=tier, seed=seed, **v)
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1, default=repr)
        print('%s workload=%s idx=%d monitor=%s: %s' % (
            mod.PROP, v['workload'], v['idx'], v['monitor'], v['msg'][:600]))
        if v.get('traceback'):
            print('   ' + v['traceback'][-700:].replace('\n', '\n   '))
        print('VIOLATION property=%s replay=%s' % (mod.PROP, path))
    evals = sum(agg['done'].values())
    print('%s %s seed=%d: %d cases (%d planned), %d distinct, %d monitor decisions, %d violations, %.1f s' % (
        mod.PROP, tier, seed, evals, agg['planned'], len(agg['sigs']), sum(agg['counts'].values()),
        len(agg['violations']), wall))
    if agg['violations']:
        return 1
    missing = [r for r in getattr(mod, 'REQUIRED', []) if not (agg['counts'].get(r) or agg['events'].get(r))]
    nowork = [w.name for w in mod.WORKLOADS if not agg['done'].get(w.name) and not agg.get('only')]
    if missing or nowork or agg['dead']:
        print('INCONCLUSIVE property=%s monitors never reached: %s, workloads not run: %s, lost: %s' % (
            mod.PROP, missing, nowork, agg['dead']))
        return 2
    return 0


def load(prop):
    import importlib
    return importlib.import_module('props.' + prop.lower())


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--only', default=None, help='comma separated workloads')
    ap.add_argument('--replay', default=None)
    args = ap.parse_args(argv)
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'

    if args.replay:
        rec = json.load(open(args.replay))
        mod = load(args.prop)
        wl = [w for w in mod.WORKLOADS if w.name == rec['workload']][0]
        mon = Monitor(load_known(mod.PROP))
        if hasattr(mod, 'warm'):
            mod.warm()
        r = run_case(mod, mon, wl, rec['idx'], rec['seed'])
        print(json.dumps(r, indent=1, default=repr) if r else 'held')
        if r and r != 'skip':
            print('VIOLATION property=%s replay=%s' % (mod.PROP, args.replay))
            return 1
        return 0

    # everything happens in a child, so that a crash of the code under test
    # in the parent of the workers is seen too
    t0 = time.time()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            mod = load(args.prop)
            if hasattr(mod, 'main'):
                code = mod.main(args, t0)
            else:
                only = args.only.split(',') if args.only else None
                agg = drive(mod, args.tier, args.seed, only)
                agg['only'] = only
                wall = time.time() - t0
                write_evidence(mod, args.tier, args.seed, agg, wall)
                code = report(mod, args.tier, args.seed, agg, wall)
        except BaseException:
            traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
    _, status = os.waitpid(pid, 0)
    sig = status & 0x7f
    if sig and sig != signal.SIGKILL:
        d = os.path.join(VERIF, 'replays', args.prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, 'crash-s%d.json' % args.seed)
        with open(path, 'w') as f:
            json.dump(dict(property=args.prop, tier=args.tier, seed=args.seed, signal=sig,
                           msg='the process died of signal %d while compiling and trying the kernels' % sig), f)
        print('%s the process died of signal %d' % (args.prop, sig))
        print('VIOLATION property=%s replay=%s' % (args.prop, path))
        return 1
    if sig:
        return 2
    return status >> 8
