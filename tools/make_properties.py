#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [],
            hook_needed=None,
        )))


prop('P01', 'Compiled kernels never touch memory outside the arrays they are given',
     """No public operation reads or writes outside the arrays it works on or reads an
     element nothing has written, whatever the image shape, the jacobian, the size of the
     mixture and the weights (negative, zero, NaN and infinite weights included). Input the
     code cannot handle is refused with an exception. A compiled kernel and the same code run
     under the interpreter give the same answer.""",
     ['inputs', 'histories'],
     """Every image shape from 1x1 up, every weight pattern, every mixture size and model, every
     jacobian, moments with and without higher orders, every call sequence on the same objects.""",
     """numba kernels are compiled without bounds checks, so an overrun silently corrupts the heap
     or reads garbage: a test that samples a few finite images passes. No test runs with the
     bounds sanitizer or hostile weights.""",
     ['ngmix/pixels/pixels_nb.py', 'ngmix/pixels/pixels.py', 'ngmix/gmix/gmix_nb.py',
      'ngmix/gmix/render_nb.py', 'ngmix/em/em_nb.py', 'ngmix/admom/admom_nb.py',
      'ngmix/fastexp_nb.py', 'ngmix/gmix_ndim/gmix_ndim_nb.py', 'ngmix/jacobian/jacobian_nb.py',
      'ngmix/prepsfmom.py', 'ngmix/metacal/convenience.py'],
     [('pixel count made to agree with what the kernel fills', 'ngmix/pixels/pixels.py make_pixels'),
      ('range test before the exponential lookup', 'ngmix/gmix/gmix_nb.py gauss2d_eval_pixel_fast')])

prop('P02', 'An observation stays consistent with its own arrays after any updates',
     """After any sequence of operations on an observation (replacing image, weight, jacobian,
     masks, noise, psf or mixture, changing the pixel-storage options, writing in a write
     context), the stored pixel list holds exactly one entry per used pixel, in row-major
     order, with the sky position, pixel area, value and inverse error given by the current
     image, weight map and jacobian. The arrays handed out cannot be written outside a write
     context, and what is read back is what was set. An argument that is refused (wrong type or shape) leaves
     image, weight, jacobian and pixels as they were.""",
     ['histories', 'inputs', 'fault_sequences'],
     """All sequences of setter calls, property assignments, option changes and write contexts,
     with valid and invalid arguments, for all image shapes, weights and jacobians; also when an
     exception leaves a write context.""",
     """Tests set one attribute at a time on one shape and look at that attribute; the derived
     pixel list depends on three attributes, two options and the order of updates.""",
     ['ngmix/observation.py', 'ngmix/pixels/pixels.py', 'ngmix/pixels/pixels_nb.py'],
     [('pixels are rebuilt by every setter', 'ngmix/observation.py Observation.update_pixels'),
      ('read-only views and the write context', 'ngmix/observation.py Observation._get_view, __enter__, __exit__')])

prop('P03', 'Copies are equal and independent, and equality sees every difference',
     """A copy of an observation, observation list, multi-band list, mixture, jacobian or shape
     equals its original in everything observable, whatever was done to the original before, and
     later changes to the arrays, psf, mixture or jacobian of either one never show in the other. Comparing two
     observations (or lists, mixtures, jacobians) that hold numbers (no NaN) and plain metadata for equality is symmetric,
     never fails, says equal for a copy, and says different as soon as one array, psf, mixture, jacobian or metadata value of an observation differs or exists
     on one side only.""",
     ['histories', 'inputs'],
     """All objects reachable by any sequence of updates, all single differences between two
     objects, both orders of comparison, copy methods and copy.copy/copy.deepcopy.""",
     """Tests copy freshly constructed objects and compare objects that have the same parts; state
     set after construction and parts missing on one side are not sampled.""",
     ['ngmix/observation.py', 'ngmix/gmix/gmix.py', 'ngmix/jacobian/jacobian.py', 'ngmix/shape.py'],
     [('copy methods', 'ngmix/observation.py copy, ngmix/gmix/gmix.py copy, ngmix/jacobian/jacobian.py copy'),
      ('equality', '__eq__ in observation.py, gmix.py, jacobian.py')])

prop('P04', 'Pixel and sky coordinates convert exactly, however the jacobian is made',
     """The conversions between pixel row/column and sky v/u of a jacobian are the affine map given by
     its centre and derivatives, and each is the inverse of the other, for scalars and arrays.
     Every way to make the same jacobian (row/col, x/y, diagonal or unit form, or a galsim WCS) gives
     the same map, area, scale and WCS, and moving the centre changes only the origin. An incompletely specified jacobian is refused, and a singular one never yields a pixel position.""",
     ['inputs', 'histories'],
     """All finite non-singular derivative matrices (rotations, flips, shears, any scale), all
     centres, all constructors, sequences of centre changes, scalar and array coordinates.""",
     """Tests use a handful of fixed, nearly diagonal jacobians, for which a swapped derivative, a
     transposed inverse or a lost sign of the determinant can cancel.""",
     ['ngmix/jacobian/jacobian.py', 'ngmix/jacobian/jacobian_nb.py'],
     [('forward and inverse maps', 'ngmix/jacobian/jacobian_nb.py'),
      ('constructors', 'ngmix/jacobian/jacobian.py Jacobian._init_rowcol, _init_xy, _extract_wcs')])

prop('P05', 'Shape and moment algebra is consistent with matrix shear algebra',
     """Conversions between reduced shear, ellipticity and conformal shear invert each other and
     agree with the moment matrix they describe; shearing a shape or a set of moments equals
     multiplying the moment matrix by the shear matrix on both sides, so shears compose, have
     inverses and commute with rotation; conversions between size, width and half-light measures
     invert each other. A finite value that is not a shape inside the unit disk, on input or as a
     result, is refused instead of returned.""",
     ['inputs'],
     """All pairs of shapes with modulus below one (up to 1 - 1e-6, zero included), all sizes over
     many decades, all rotation angles, scalars and arrays, and values at or outside the unit
     circle.""",
     """Tests sample a few small shapes, where first-order errors, a wrong sign of the second
     component or a missing normalisation are hidden within tolerance.""",
     ['ngmix/shape.py', 'ngmix/moments.py'],
     [('shear addition', 'ngmix/shape.py shear_reduced'),
      ('moment conversions', 'ngmix/moments.py get_sheared_moments, g2mom, mom2g')])

prop('P06', 'A model mixture has the flux, centre, shape, size and profile asked for',
     """A mixture built from model parameters reports back the flux, centre, ellipticity and size it
     was made from, for every model and every parameterisation (bulge+disk forms included), all its
     gaussians share the centre and shape where the model says so, and its radial profile follows
     the model's profile. Setting the flux, centre or the parameters of an existing mixture gives the
     same mixture as building it anew, whatever was done to it before. Shapes at or outside the unit circle are refused, leaving the mixture as it was.""",
     ['inputs', 'histories'],
     """All models, all shapes inside the unit disk, all centres, positive sizes, fluxes of both
     signs, bulge fractions, size ratios, numbers of co-elliptical gaussians, and sequences of
     re-fills and flux/centre changes.""",
     """Tests build each model for one or two parameter sets and compare the total; a wrong term for
     one component, a mixed-up parameter slot or state kept from an earlier fill needs other
     parameters or a history.""",
     ['ngmix/gmix/gmix.py', 'ngmix/gmix/gmix_nb.py'],
     [('fill functions per model', 'ngmix/gmix/gmix_nb.py gmix_fill_*'),
      ('setters', 'ngmix/gmix/gmix.py set_flux, set_cen, fill')])

prop('P07', 'Mixture transformations follow second-moment algebra and leave inputs alone',
     """Convolving, shearing, rounding, concatenating and exporting a mixture give the mixture the
     algebra of second moments prescribes: convolution adds covariances for every pair and multiplies
     fluxes by the unit-normalised kernel, shear acts as a matrix on both sides of every covariance,
     rounding keeps flux and centres and makes every gaussian round, concatenation keeps every gaussian. The
     inputs keep their values, and what was computed about them earlier does not alter the outcome.""",
     ['inputs', 'histories'],
     """All mixtures (random full mixtures with offset centres as well as models), all kernels, shears
     up to 0.9 in modulus, chains of transformations, before or after rendering or likelihood
     evaluation.""",
     """Tests transform round, centred, single-use mixtures; off-centre kernels, unequal
     normalisation and lazily cached normalisations from earlier calls are not sampled.""",
     ['ngmix/gmix/gmix.py', 'ngmix/gmix/gmix_nb.py', 'ngmix/moments.py'],
     [('convolution', 'ngmix/gmix/gmix_nb.py gmix_convolve_fill'),
      ('shear and rounding', 'ngmix/gmix/gmix.py get_sheared, make_round'),
      ('concatenation and galsim export', 'ngmix/gmix/gmix.py gmix_concat, make_galsim_object')])

prop('P08', 'Rendering and likelihoods agree with the exact sum of gaussians',
     """Rendering a mixture gives at every pixel the sum of its bivariate normal densities times pixel
     area (to the stated accuracy of the fast exponential where that is asked for), for any
     jacobian and shape. The log-likelihood, residuals, signal-to-noise sums and model signal-to-noise
     of a mixture against an observation equal those computed from that rendered image and the weight map.
     All of this is independent of what was evaluated before, and a mixture with a non-positive
     covariance is refused on every evaluation.""",
     ['inputs', 'histories'],
     """All mixtures, image shapes, jacobians, weight maps with masked pixels, start offsets of the residual
     array, exact and fast exponential, and any order of evaluations, flux changes and failures.""",
     """Tests compare images for a few configurations; agreement between the four separate evaluation
     loops, the lazily set norms and the cut of the exponential at large distance are not settled by
     samples on one grid.""",
     ['ngmix/gmix/gmix.py', 'ngmix/gmix/gmix_nb.py', 'ngmix/gmix/render_nb.py', 'ngmix/fastexp_nb.py',
      'ngmix/pixels/pixels_nb.py'],
     [('pixel evaluation', 'ngmix/gmix/gmix_nb.py gmix_eval_pixel, gmix_eval_pixel_fast'),
      ('likelihood loops', 'ngmix/gmix/gmix_nb.py get_loglike, fill_fdiff, get_model_s2n_sum'),
      ('lazy norms', 'ngmix/gmix/gmix.py set_norms_if_needed')])

prop('P09', 'Weighted moments are the weighted sums over the used pixels',
     """Weighted gaussian moments and their covariances, higher orders included, are exactly the sums
     over the used pixels (by default those with positive weight) within the radius asked for, so they are linear in the
     image, unaffected by masked pixels, additive over images, and follow a rotation, flip or rescaling of the
     coordinates. Fluxes and flux sums in the gaussian-moment result are in image units: the
     pixel scale drops out, whether or not the result is flagged.""",
     ['inputs', 'configurations'],
     """All images (noise, negative, off-centre), weight maps, jacobians, weight sizes, maximum radii,
     with and without higher-order moments, flagged and unflagged results.""",
     """Tests check a few well-behaved objects against truth within percent tolerances: an error in one of
     17x17 covariance entries, in a masked pixel or in a flagged result's units goes unseen.""",
     ['ngmix/gaussmom.py', 'ngmix/gmix/gmix.py', 'ngmix/gmix/gmix_nb.py', 'ngmix/moments.py'],
     [('sum kernels', 'ngmix/gmix/gmix_nb.py get_weighted_sums, get_higher_order_weighted_sums'),
      ('area scaling', 'ngmix/gaussmom.py GaussMom')])

prop('P10', 'Moment results: values and flags always tell the same story',
     """For any finite moment sums, a moments result carries no flag only if flux, size, shape and all errors are finite, positive
     where they must be, and equal the ratios of the moment sums with first-order error
     propagation; each failure condition (non-positive variance, flux or size, bad shape
     variance) sets its own flag in the flux, size and overall flags, and the values it spoils are not
     numbers. The flag text names exactly the bits that are set. Regularising shapes changes only the shape,
     and only by enlarging the size in its denominator; flux and size entries stay as they were.""",
     ['inputs'],
     """All moment vectors and covariance matrices (positive definite or not, zero and negative fluxes and
     sizes), 6 and 17 moments, all combinations of flag bits, all regularisation sizes.""",
     """Tests enumerate a few hand-made moment vectors; the property is about every combination of signs
     and the exact correspondence between flags and values.""",
     ['ngmix/moments.py', 'ngmix/flags.py', 'ngmix/util.py'],
     [('result maker', 'ngmix/moments.py make_mom_result, regularize_mom_shapes'),
      ('error propagation', 'ngmix/util.py get_ratio_var, get_ratio_error'), ('flag names', 'ngmix/flags.py')])

prop('P11', 'A converged adaptive-moments fit is a fixed point and says so honestly',
     """When adaptive moments report success the weight gaussian matches the deweighted moments of the image
     measured with it, to the convergence tolerance, the moment sums, flux, signal-to-noise and errors are
     those of that weight over the used pixels, and all are finite with a valid shape; the centre did not move
     more than the allowed shift and the iterations not more than the allowed number. Otherwise a flag is set that names the
     reason. The guess and the observation are left unchanged.""",
     ['inputs', 'configurations', 'histories'],
     """All images (galaxies, noise, blank, negative, truncated, masked), guesses, tolerances, shift limits,
     iteration limits, jacobians, seeds.""",
     """Tests fit a few clean galaxies and compare with truth; failing fits and the agreement
     of the reported numbers with the final weight are not examined for other inputs.""",
     ['ngmix/admom/admom.py', 'ngmix/admom/admom_nb.py'],
     [('iteration', 'ngmix/admom/admom_nb.py admom'), ('result', 'ngmix/admom/admom.py get_result')])

prop('P12', 'EM conserves flux, keeps fixed quantities fixed and reports convergence',
     """An EM fit that ends without flags ran between the minimum and maximum number of iterations, converged
     to its tolerance, and returns a valid mixture whose flux plus the sky accounts for all the image's flux and which is a
     fixed point of the EM update (seen through the psf where there is one); a fit that does not converge or meets an invalid gaussian says so.
     The variants that hold the centres, the covariances, or both fixed return exactly the guess's
     values for them. The guess and observation are left unchanged and repeating the fit gives
     the same result.""",
     ['inputs', 'configurations'],
     """All images that are mixtures plus noise, psf mixtures, guesses of one to several gaussians, sky values,
     tolerances, iteration limits, all four variants.""",
     """Tests recover truth within tolerance for a few mixtures; they cannot settle the conservation and
     fixed-quantity laws for every image, nor honest flags for non-converging input.""",
     ['ngmix/em/em.py', 'ngmix/em/em_nb.py'],
     [('E and M steps', 'ngmix/em/em_nb.py em_run, em_run_fixcen, em_run_fixcov, em_run_fluxonly'),
      ('image preparation', 'ngmix/em/em.py prep_image')])

prop('P13', 'A maximum-likelihood fit result is self-consistent with data and model',
     """A model fit that reports success has finite parameters, a positive-definite parameter covariance
     whose diagonal gives the errors, and shape, size, flux and their errors equal to the matching parameters and
     covariance blocks in every band; its chi-squared, degrees of freedom, log-probability and
     signal-to-noise equal those recomputed independently from the data, the psf-convolved model and the prior;
     and the parameters are a local minimum of that chi-squared. A fit that fails sets a flag, raises nothing unexpected and always
     carries the same basic entries.""",
     ['inputs', 'configurations'],
     """All models (single, bulge+disk, co-elliptical), one or more bands and epochs, with and without psf,
     priors and bounds, masked pixels, any guess, good and hopeless data.""",
     """Tests compare recovered parameters to truth for a few simulations; bookkeeping across bands, epochs,
     priors and masks and the failure paths are combinatorial.""",
     ['ngmix/fitting/results.py', 'ngmix/fitting/fitters.py', 'ngmix/fitting/leastsqbound.py'],
     [('fit model', 'ngmix/fitting/results.py FitModel, CoellipFitModel'),
      ('band parameter mapping', 'ngmix/fitting/results.py get_band_pars')])

prop('P14', 'Bounded least squares respects bounds and agrees with the unbounded optimum',
     """Bounded least-squares never evaluates the function or returns parameters outside the bounds (any mix of lower, upper, both or
     none), finds the unbounded solution when that lies inside the bounds, and
     returns its covariance in the external parameters; with no bounds it is the plain
     least-squares solution. The wrapper reports a flag whenever the solution or its covariance is not
     usable (non-finite function, singular or negative covariance, no degrees of freedom, too
     many evaluations) and never reports success with non-finite parameters or errors.""",
     ['inputs', 'fault_sequences'],
     """All linear and mildly non-linear problems, all bound patterns, start points inside the bounds, and
     functions that return non-finite values, raise a zero division or ignore a parameter.""",
     """Tests sample a few problems with one kind of bound; the internal/external transforms have four branches per
     parameter and the failure branches are rarely reached.""",
     ['ngmix/fitting/leastsqbound.py'],
     [('transforms', 'ngmix/fitting/leastsqbound.py leastsqbound'), ('flags', 'ngmix/fitting/leastsqbound.py run_leastsq')])

prop('P15', 'Template fluxes are the exact weighted least-squares solution',
     """The flux from fitting a fixed template or the psf to any set of observations is the weighted linear
     least-squares amplitude over all of them, its error is the matching chi-squared-scaled error, and the
     reported chi-squared per degree of freedom and degrees of freedom are those of that model over the pixels with positive weight; scaling the data scales flux and error, and
     adding a multiple of the template adds that flux. The normalisation of the supplied psf matters only if
     the caller asks for it. Data with no usable weight give a flag instead of a number.""",
     ['inputs', 'configurations'],
     """All observation lists, weight maps, psf forms (mixture, template image, interpolated psf), offsets,
     normalised or not, with or without psf, with an extended galaxy template.""",
     """Tests average fluxes over noise realisations within a few percent; bookkeeping over several
     epochs with unequal weights and norms is not settled by that.""",
     ['ngmix/fitting/results.py', 'ngmix/fitting/galsim_results.py', 'ngmix/fitting/fitters.py',
      'ngmix/fitting/galsim_fitters.py'],
     [('zero-lag cross-correlation', 'ngmix/fitting/results.py PSFFluxFitModel.go'),
      ('galsim templates', 'ngmix/fitting/galsim_results.py GalsimPSFFitModel')])

prop('P16', 'K-space observations and galsim-model fits agree with their real-space data',
     """A k-space observation made from an observation is the Fourier transform of that observation's image
     about its centre, with a weight and psf consistent with the same grid for every epoch and band, and making it
     leaves the input untouched. A successful galsim-model fit has finite parameters, errors that match its covariance, a
     signal-to-noise consistent with the k-space residuals it minimised, and
     per-band fluxes equal to the band's parameter; data of one epoch never stand in for another.""",
     ['inputs', 'configurations'],
     """All models (exponential, de Vaucouleurs, gaussian, Spergel, Moffat), epochs and bands of different shape and seeing,
     jacobians with shear, rotation and offset centres, priors, shared or separate metadata.""",
     """Tests fit single simulated galaxies; cross-talk between epochs, the k-space grid bookkeeping and
     the residual layout with priors need several configurations at once.""",
     ['ngmix/observation.py', 'ngmix/fitting/galsim_results.py', 'ngmix/fitting/galsim_fitters.py'],
     [('k observations', 'ngmix/observation.py make_kobs, make_iilist, KObservation'),
      ('fit models', 'ngmix/fitting/galsim_results.py GalsimFitModel')])

prop('P17', 'Pre-psf moments depend only on the pre-seeing light, not on frame or caching',
     """Pre-psf moments are linear in the image, do not change with the psf used (for an object seen through it), the
     psf normalisation, the position of the object in the stamp, the jacobian's rotation or the padding (a psf normalisation other than one divides the flux and all sums, never size or shape),
     and their reported covariance matches the scatter that noise of the stated variance produces; without a psf only the pixel is deconvolved. Where a psf
     all but removes a mode the deconvolution is limited (a thousandth of a percent of the psf's total), and apodisation tapers exactly the
     stated edge. Turning caching on or
     off, or repeating or reordering calls, never changes a result. Psfs that do not match, or
     kernels that do not fit, are refused.""",
     ['inputs', 'histories', 'configurations'],
     """All kernels and kernel sizes, smoothing values, psf sizes, jacobians, stamp sizes (odd, even, unequal), centre
     offsets, padding factors, apodisation, caching settings and call orders.""",
     """Tests check a grid of fixed configurations against truth within tolerances; caches keyed on a subset of the
     inputs and phase shifts for off-centre objects need histories and combinations.""",
     ['ngmix/prepsfmom.py', 'ngmix/ksigmamom.py', 'ngmix/moments.py'],
     [('moment sums in Fourier space', 'ngmix/prepsfmom.py _measure_moments_fft'),
      ('phase shift, padding and caches', 'ngmix/prepsfmom.py')])

prop('P18', 'Metacal images are the deconvolved, sheared, reconvolved original',
     """Each metacal image is the original image deconvolved from its psf and pixel, sheared by exactly the step
     asked for, in the direction its name says, and reconvolved with the common target psf, the shear acting about the stamp's centre; psf-sheared images have only the target
     psf sheared; the psf image attached to each is the psf it was reconvolved with, drawn with its own
     coordinate system. All requested types are returned for every epoch and band, in order, with weight, masks, metadata
     and jacobian carried over, and each with image arrays of its own: writing in one changes no other, nor the input.""",
     ['inputs', 'configurations', 'histories'],
     """All galaxies, psfs, jacobians, centres and steps, all target-psf choices and type subsets, single observations,
     lists and multi-band lists, caching on or off, repeated calls.""",
     """Tests check that shears are recovered on average and compare a few images with stored behaviour; every combination of type,
     psf choice, jacobian and container is not sampled.""",
     ['ngmix/metacal/metacal.py', 'ngmix/metacal/convenience.py'],
     [('image manipulation', 'ngmix/metacal/metacal.py'), ('containers', 'ngmix/metacal/convenience.py')])

prop('P19', 'Metacal noise compensation adds exactly one rotated noise field',
     """With noise compensation each metacal image equals the uncompensated one plus the metacal image, at the opposite shear orientation, of a noise field
     that is the observation's own noise image when that was asked for and otherwise a fresh draw with the
     variance of the weight map, and every nonzero weight is halved, the weight of the sum. The same noise field
     serves all types of one observation, different observations get independent
     fields drawn only from the generator supplied, and the input observation is unchanged.""",
     ['inputs', 'configurations'],
     """All square observations with uniform or varying weights and masked pixels, with own or drawn noise images, all types and psf choices,
     containers of several epochs and bands.""",
     """Tests check mean properties on a few images; pixel-exact linear bookkeeping for every type and
     container is a relation between runs, not a sample.""",
     ['ngmix/metacal/convenience.py', 'ngmix/simobs.py'],
     [('fixnoise', 'ngmix/metacal/convenience.py get_all_metacal'),
      ('noise images', 'ngmix/simobs.py simulate_obs')])

prop('P20', 'Each prior describes one distribution in all its forms',
     """For every prior on one or two parameters the probability, log-probability and residual forms, scalar and array, describe the same function with
     its peak at log-probability zero; points outside the support are refused or given
     the lowest probability in every form; samples lie in the support, follow that density, come only from the generator supplied, and have the shape
     asked for. Changing the parameters of a prior changes samples and densities together.""",
     ['inputs', 'histories'],
     """All priors and parameter values, all points inside, on and outside the support, sample counts (none, one, many), and any order of
     sampling and parameter changes.""",
     """Tests evaluate fixed points and check sample means loosely; agreement between the
     scalar, array, log and residual code paths over all points is not sampled.""",
     ['ngmix/priors/priors.py', 'ngmix/priors/shape.py', 'ngmix/priors/multivariate.py', 'ngmix/priors/kde.py',
      'ngmix/priors/random.py'],
     [('densities and samplers', 'ngmix/priors/*.py')])

prop('P21', 'A joint prior is the sum of its parts with one slot per parameter',
     """The log-probability of a joint prior is the sum of the log-probabilities of its component priors,
     each applied to its own parameter and band, scalar and array forms alike; the residual form has a known number of slots
     whose squares add up to minus twice that log-probability; bounds have one
     entry per parameter, in order; samples draw every parameter from its own component.""",
     ['inputs', 'configurations'],
     """All joint priors (simple, galsim, bulge+disk forms, Spergel, co-elliptical), numbers of bands and
     gaussians, component priors with and without bounds, all parameter points.""",
     """Tests check shapes and one point per prior for a few bands; mixing up two parameters that share similar
     priors cannot be seen there.""",
     ['ngmix/joint_prior.py'],
     [('joint priors', 'ngmix/joint_prior.py')])

prop('P22', 'Guessers give valid, correctly ordered guesses centred on what they were given',
     """Every guesser returns guesses with the number of parameters its model and bands require, in the
     model's order, with sizes and fluxes scattered only within the stated fraction around the values given or
     measured from the very observation passed, shapes inside the unit disk, and, where a prior is given,
     inside its support. It uses only the random generator supplied, and earlier calls with other observations never
     influence a guess.""",
     ['inputs', 'histories'],
     """All guessers, sizes, fluxes, bands, priors, numbers of guesses, sequences of different observations passed
     to one guesser, psf images of any size and flux.""",
     """Tests call each guesser once or twice with one observation; values kept between calls and
     band order need histories and distinct bands.""",
     ['ngmix/guessers.py'],
     [('guessers', 'ngmix/guessers.py')])

prop('P23', 'Runners and bootstrappers retry, drop and order exactly as documented',
     """A runner tries up to the allowed number of times, stops at the first success, gives each try a fresh guess and returns the last
     result; a psf runner fits every psf of every epoch and band once, attaches its result to that
     psf, attaches a mixture to exactly the psfs whose fit succeeded and gave one, and leaves the mixture of the others as it was.
     A bootstrap that ignores failed psfs keeps the epochs with good psfs in order, drops exactly the others, refuses when nothing is
     left in some band, and hands the object fitter exactly those; otherwise it hands on the observations unchanged.""",
     ['histories', 'fault_sequences', 'configurations'],
     """All patterns of success and failure over tries, epochs and bands, all container kinds, with failures as flags or exceptions,
     and metacal bootstraps over all types.""",
     """Tests use a handful of failure patterns; which epochs survive and which result ends up on which psf depends on
     the whole pattern.""",
     ['ngmix/runners.py', 'ngmix/bootstrap.py', 'ngmix/metacal/bootstrap.py'],
     [('retries', 'ngmix/runners.py run_fitter, run_psf_fitter'),
      ('dropping failed psfs', 'ngmix/bootstrap.py remove_failed_psf_obs')])

prop('P24', 'Measuring changes neither the inputs nor anything outside its own generator',
     """No measurement, simulation or fit changes the observations, mixtures, guesses, priors, arrays or lists passed to it, except for the documented
     results a psf runner attaches. With the same inputs and generator seed every operation gives bit-for-bit the same answer however often, in
     whatever order or from however many threads it is run, and the global random state is neither
     used nor changed.""",
     ['histories', 'schedules', 'inputs'],
     """All measurement entry points in any order on shared inputs, repeated, interleaved and run from several
     threads, caching switched on or off.""",
     """Tests run each entry point on fresh inputs and do not compare inputs before and after; effects of history and
     interleaving do not show in a single call.""",
     ['ngmix/fitting/fitters.py', 'ngmix/admom/admom.py', 'ngmix/em/em.py', 'ngmix/gaussmom.py', 'ngmix/prepsfmom.py',
      'ngmix/metacal/convenience.py', 'ngmix/simobs.py', 'ngmix/runners.py', 'ngmix/observation.py'],
     [('copies made at entry points', 'ngmix/em/em.py, ngmix/admom/admom.py, ngmix/observation.py make_kobs')])

prop('P25', 'A simulated observation is the model image plus weight-map noise, no more',
     """A simulated observation without noise is exactly the mixture (convolved with the psf where asked for) drawn on the
     observation's grid; with noise each pixel with positive weight gets an independent gaussian draw
     with variance one over the weight and the rest get what the caller asked for; the added noise is what is recorded. Weight, jacobian,
     psf and list structure are carried over, and only the generator supplied is used. What is returned is new: writing in it changes neither the input nor
     another of the simulated observations.""",
     ['inputs', 'configurations'],
     """All mixtures or lists of mixtures per epoch and band, weights with zeros, jacobians, psf choices, noise options, containers.""",
     """Tests simulate a few observations and compare shapes and means; exactness per pixel over
     options and containers is not sampled.""",
     ['ngmix/simobs.py'],
     [('simulation', 'ngmix/simobs.py simulate_obs')])

prop('P26', 'N-dimensional mixtures evaluate and sample the distribution they were given',
     """The probability and log-probability of an n-dimensional gaussian mixture, total and per component, scalar and
     array, equal the normalised sum of multivariate normal densities, without overflow or underflow of the logarithm far from the means; samples follow the
     current mixture, also after it was replaced, refitted or loaded. Points of the wrong dimension are refused.""",
     ['inputs', 'histories'],
     """All dimensions and numbers of components, positive-definite covariances, points near and very far, sequences of set, fit and
     sample.""",
     """Tests evaluate a few points in one or two dimensions; stale state after replacement and far
     points are not sampled.""",
     ['ngmix/gmix_ndim/gmix_ndim.py', 'ngmix/gmix_ndim/gmix_ndim_nb.py'],
     [('log-sum-exp', 'ngmix/gmix_ndim/gmix_ndim_nb.py'), ('sampling', 'ngmix/gmix_ndim/gmix_ndim.py')])

prop('P27', 'Gaussian aperture fluxes are the analytic weighted integral of the model',
     """The gaussian aperture flux of a mixture equals, gaussian by gaussian, the integral of its profile times a unit-height round
     gaussian aperture about that gaussian's centre, whatever way the aperture size is
     stated; for arrays of parameters each object and band gets the value of its own mixture, whatever the
     model; objects whose parameters are invalid are flagged and do not disturb the others.""",
     ['inputs', 'configurations'],
     """All models and parameterisations, aperture sizes stated by width, sigma or size, one or many objects and
     bands, valid and invalid parameters mixed.""",
     """Tests compare a few objects with stored tolerances; band mapping and isolation of failing rows
     need many-object inputs.""",
     ['ngmix/gaussap.py', 'ngmix/gmix/gmix.py'],
     [('aperture flux', 'ngmix/gmix/gmix.py get_gaussap_flux'), ('array driver', 'ngmix/gaussap.py get_gaussap_flux')])

prop('P28', 'MEDS readers deliver every usable cutout with its own data',
     """Reading an object from multi-epoch files gives one observation per cutout with usable weight, in cutout order and
     band order, each with the image, weight of the kind asked for, masks, noise, jacobian, psf and metadata of
     exactly that object and cutout; cutouts with no usable weight are skipped and nothing else is; optional
     planes that are absent are simply absent. The psf has the cutout's coordinate system with the psf's own centre.""",
     ['inputs', 'configurations'],
     """All catalogues of objects with different numbers of cutouts, shapes, jacobians, missing planes, all weight kinds,
     any number of bands, any order of access.""",
     """The reader tests need the meds package and are not run here; they also read one small fake file.""",
     ['ngmix/medsreaders.py'],
     [('readers', 'ngmix/medsreaders.py')])

prop('P29', 'Lists aggregate their members exactly and admit only proper members',
     """The signal-to-noise and its sums for an observation, list or multi-band list follow from the
     images and positive weights of all members, and equal those of any regrouping of the same observations. Lists accept only members of their own
     kind, by append or assignment, keep order, and any accepted input is wrapped into the multi-band form without
     copying or reordering; metadata set, updated or replaced reads back as such.""",
     ['histories', 'inputs'],
     """All groupings of observations into lists and bands, empty lists, masked observations, valid and
     invalid members, sequences of appends and assignments.""",
     """Tests build one list of each kind; regrouping laws, empty members and rejected members in the middle of a history are not sampled.""",
     ['ngmix/observation.py', 'ngmix/gmix/gmix_lists.py'],
     [('aggregation', 'ngmix/observation.py get_s2n_sums'), ('type checks', 'ngmix/observation.py append, __setitem__')])

prop('P30', 'What is sent to another process arrives as it was sent and works there as here',
     """Observations, lists, mixtures, jacobians, shapes, priors, guessers, fitters, runners, results and errors survive pickling to a process
     that holds nothing of the sender's: they arrive with the same contents, flags, metadata, random state and links between parts, remain protected
     (read-only outside a write context) and writeable inside one as before, and every use there gives what the same use gives here.
     Sending changes nothing at the sender, and a result or error sent back is the one that was made.""",
     ['inputs', 'histories', 'configurations'],
     """All objects of the interface, after any history of updates and uses, all pickle protocols from 2 on, one or many transfers,
     any operation done at the receiver.""",
     """No test sends anything but a jacobian to another process; users run every catalogue through pools of processes, and what fails there depends on
     the history of the object and the protocol.""",
     ['ngmix/observation.py', 'ngmix/gmix/gmix.py', 'ngmix/joint_prior.py', 'ngmix/fitting/results.py', 'ngmix/em/em.py'],
     [('protected arrays', 'ngmix/observation.py'), ('results', 'ngmix/fitting/results.py'), ('priors', 'ngmix/priors/priors.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
