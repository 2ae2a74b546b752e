PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, quant, why, files, mech, tech, over=None, **kw):
    d = dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, tech=tech, **kw)
    d['over'] = over or ['inputs']
    PROPS.append(d)


P('C01', 'Level crossings are found exactly once and located where they occur',
  'For every sampled signal and level, findcross returns in increasing order exactly the indices where the signal '
  'passes the level in the requested direction (all, down, up, or cut to start and end with a down- or up-crossing for '
  'the wave definitions), with samples equal to the level never producing or hiding a crossing, and unknown definitions '
  'are rejected. Negating signal and level keeps the indices and swaps up and down. '
  'ecross returns, for those indices, the abscissa inside the sample interval where the linear interpolant equals the '
  'level.',
  'all finite real signals (ties with the level, plateaus, any length >= 2), all levels, all crossing kinds',
  'The tests use a couple of smooth sine waves; ties, plateaus and short signals are unbounded in number.',
  ['src/wafo/misc.py', 'src/wafo/_misc_numba.py', 'source/c_library/c_functions.c'],
  [('findcross', 'src/wafo/misc.py findcross'), ('compiled crossing search', '_misc_numba.py findcross, c_functions.c'),
   ('ecross', 'src/wafo/misc.py ecross')],
  'reference model by definition, negation/prefix metamorphic relations, interpolation invariant')

P('C02', 'Turning points, extrema, troughs/crests and peaks match their definition',
  'For every signal, findextrema and findtp return exactly the local extremes (alternating, signal monotone in '
  'between, optionally only those surviving the rainflow filter with threshold h and cut to whole waves), findtc '
  'returns the lowest/highest sample between consecutive level crossings, and findpeaks the n highest maxima, highest '
  'first, above the requested fraction of the largest. The time series views turning_points and trough_crest carry the '
  'value and the time of exactly those samples and never modify the data.',
  'all finite signals incl. plateaus, ties, monotone and very short ones; all thresholds, levels and wave definitions',
  'Tests check one simulated record; the off-by-one and tie cases are in other inputs.',
  ['src/wafo/misc.py', 'src/wafo/objects.py'],
  [('findextrema/findtp/findtc/findpeaks', 'src/wafo/misc.py'), ('views', 'objects.py TimeSeries.turning_points, '
                                                                'trough_crest')],
  'reference model by definition over tie-rich signals')

P('C03', 'Rainflow cycle counting keeps exactly the rainflow cycles',
  'For every sequence of turning points and threshold h, findrfc and the rainflow filtered views keep exactly the '
  'extremes of the rainflow cycles (Rychlik definition) with range at least h, identically for every implementation; '
  'rfcfilter is the corresponding hysteresis filter and findrfc_astm performs ASTM E1049 counting (ranges, means, full '
  'and half cycles). Shifting, scaling or linearly refining a signal does not change its rainflow cycles.',
  'all alternating turning point sequences and signals, all thresholds, all methods (clib/numba/python, 0/1/2)',
  'Rainflow counting depends on the global order of extremes; tests cover one or two short fixed sequences.',
  ['src/wafo/misc.py', 'src/wafo/_misc_numba.py', 'source/c_library/c_functions.c', 'src/wafo/objects.py'],
  [('findrfc, rfcfilter, findrfc_astm', 'misc.py and _misc_numba.py, c_functions.c'),
   ('TurningPoints.rainflow_filter', 'objects.py')],
  'differential against two independent definitions (Rychlik, hysteresis zig-zag, ASTM stack), metamorphic relations')

P('C04', 'Cycle pairs, damage, crossing spectra and cycle matrices count each cycle once',
  'Cycle pairs extracted from turning points are all consecutive min-max (or max-min) pairs in order; Palmgren-Miner '
  'damage equals K times the sum of amplitude**beta over them; the level crossing spectrum counts, for every level, '
  'exactly the pairs that span it (with the stated end point convention). The cycle matrix holds every cycle once in '
  'the class given by the chosen discretisation.',
  'all sequences of turning points / cycle pairs (ties, single pair, all-negative values), all beta, K, kinds, levels',
  'Tests look at one data file; convention mistakes show only for levels on ties or sign patterns not in it.',
  ['src/wafo/objects.py', 'src/wafo/misc.py', 'src/wafo/markov.py'],
  [('CyclePairs.damage/level_crossings/cycle_matrix', 'objects.py')],
  'direct counting reference, additivity and permutation relations, agreement with crossings of the signal')

P('C05', 'Wave heights, periods and steepnesses of individual waves match their definition',
  'For every record, wave_parameters returns for each zero-downcrossing wave of the (optionally oversampled) record the '
  'crest and trough amplitudes, heights, periods and front/back crest half-periods of exactly that wave, and '
  'wave_height_steepness evaluates the documented formula for every kind, by number or by name. wave_periods returns, '
  'for the crossing to crossing definitions (d2d, u2u, d2u, u2d) and every level, the time from each crossing of the '
  'first type to the next of the second type. Data and times are never modified, and the sampling period is the mean '
  'time step.',
  'all records (ties with the level, plateaus, uneven times, row or column data), rates, levels, kinds',
  'The tests use one data file; which crossing opens a wave depends on sign patterns not in it.',
  ['src/wafo/objects.py', 'src/wafo/misc.py'],
  [('wave_parameters, wave_height_steepness, wave_periods, sampling_period', 'src/wafo/objects.py TimeSeries')],
  'definition of each wave evaluated from raw crossings, compared wave by wave')

P('C06', 'Cycle matrices, counting distributions and Markov rainflow matrices agree',
  'cmat2nt and fr2nt turn a cycle (frequency) matrix into its counting distribution, the number of cycles with minimum '
  'below and maximum above each pair of levels, and nt2cmat and nt2fr invert it. mctp2rfc turns the frequency matrix of '
  'a Markov chain of turning points into the expected rainflow matrix: non-negative, with the marginal distributions of '
  'maxima and minima kept and with interval-upcrossing counting distribution. iter_ finds the chain with a given '
  'rainflow matrix and mktestmat evaluates its documented formula.',
  'all matrices in triangular min/max form, reversible and general chains of 4-9 levels, any scale',
  'Tests compare one 3x3 or 5x5 example; index errors in cumulative sums are symmetric in those.',
  ['src/wafo/markov.py'], [('cmat2nt, nt2cmat, fr2nt, nt2fr, mctp2rfc, iter_, mktestmat', 'src/wafo/markov.py')],
  'counting by definition, round trips, first-passage probability model of the chain')

P('C07', 'Parametric wave spectra have the documented density, energy and peak',
  'For every sea state, each spectrum model (Bretschneider, Jonswap, Tmaspec, Torsethaugen, OchiHubble, McCormick, '
  'Wallop) evaluates its published density at every frequency, zero for w <= 0, with total energy Hm0**2/16 and peak '
  'at 2*pi/Tp where the model is so normalised; peakedness, seastate-from-wind and depth functions follow the cited '
  'formulas. tospecdata samples exactly that density and invalid sea states or family members are rejected.',
  'all Hm0, Tp, gamma, N, M, sigma, depth, gravity in engineering ranges and all frequencies incl. 0 and negative ones',
  'Tests sample five frequencies for one sea state per model.',
  ['src/wafo/spectrum/models.py'], [('model classes, jonswap_peakfact, jonswap_seastate, phi1',
                                     'src/wafo/spectrum/models.py')],
  'independent implementation of each published formula with Gauss-Legendre normalisation')

P('C08', 'Directional spreading is a normalised density and directional spectra combine it',
  'For every spreading type, frequency dependence (mitsuyasu, donelan, banner or none) and mean direction (scalar, per '
  'frequency, function), Spreading returns at each direction and frequency the documented density, non-negative, '
  'normalised over the circle and 2*pi-periodic about the mean direction. tospecdata2d is the product of the frequency '
  'spectrum and that density with all attributes kept, and rejects grids that do not cover the circle. '
  'SpecData2D.moment returns exactly the requested moments by the integral definition (also for phi and g set).',
  'all types, methods, parameters, mean directions, frequency and direction grids',
  'The tests check one parameter set per type at a few directions.',
  ['src/wafo/spectrum/models.py', 'src/wafo/spectrum/core.py'],
  [('Spreading', 'src/wafo/spectrum/models.py'), ('SpecData2D.moment', 'src/wafo/spectrum/core.py')],
  'independent densities (root finding for the Fourier coefficient), circle integral invariant, double integral reference')

P('C09', 'Spectral moments, characteristics and resampling follow the integral definitions',
  'For every 1D spectrum, in angular or natural frequency or wave number, moment, bandwidth and characteristic return '
  'the documented functionals of the density (Simpson rule) and their variances, independent of the frequency unit; '
  'normalize gives m0 = m2 = 1. resample/interp give an equidistant 2**k+1 grid from zero to the requested Nyquist '
  'frequency holding the interpolated density, zero outside the original range. Computing functionals never changes '
  'the spectrum.',
  'all non-negative densities on even or uneven grids, both frequency types, all orders and factor lists',
  'Tests compute one Jonswap spectrum in angular frequency.',
  ['src/wafo/spectrum/core.py'], [('SpecData1D.moment, bandwidth, characteristic, normalize, resample, interp',
                                   'src/wafo/spectrum/core.py')],
  'independent integrals and complex-step error propagation; unit-change metamorphic relation')

P('C10', 'Spectrum and covariance are Fourier transforms of each other, estimates too',
  'For every spectrum, tocovdata and tocov_matrix return the covariance function and its derivatives at every lag as '
  'the cosine integral of the spectrum, and CovData1D.tospecdata returns the non-negative cosine transform back, '
  'inverting it exactly where the grids match. TimeSeries.tocovdata returns the (biased or unbiased, windowed) sample '
  'covariance of the record without its missing values, and tospecdata the corresponding smoothed or Welch spectrum '
  'with its bandwidth and confidence factors; none of them modifies its input.',
  'all spectra, covariance functions and records (missing values, trends, any lag), all options',
  'Tests pin a few numbers for one spectrum; errors of one lag or factor two at the ends are invisible there.',
  ['src/wafo/spectrum/core.py', 'src/wafo/covariance/core.py', 'src/wafo/covariance/estimation.py',
   'src/wafo/objects.py'],
  [('SpecData1D.tocovdata/tocov_matrix', 'spectrum/core.py'), ('CovData1D.tospecdata', 'covariance/core.py'),
   ('CovarianceEstimator', 'covariance/estimation.py'), ('TimeSeries.tospecdata', 'objects.py')],
  'direct cosine sums, direct lagged products, direct DFT of segments; round trips')

P('C11', 'Simulated waves have the spectrum they are simulated from, also conditionally',
  'For every spectrum, SpecData1D.sim returns the requested number of equidistant, seed-reproducible realisations whose '
  'harmonics have the energy of the spectrum (derivative and transformation consistent), CovData1D.sim realisations '
  'with exactly the embedded covariance, and simcond records equal to the given values, with the conditional Gaussian '
  'mean and covariance elsewhere. sim_nl adds the second order sum and difference interactions of exactly those '
  'harmonics (the same from every implementation of disufq), and stats_nl their mean, deviation, skewness and kurtosis.',
  'all spectra, covariances, lengths, time steps, numbers of realisations, seeds, depths, conditioning sets',
  'Tests compare a few random numbers or check loose ensemble averages.',
  ['src/wafo/spectrum/core.py', 'src/wafo/covariance/core.py', 'src/wafo/_misc_numba.py',
   'source/c_library/c_functions.c'],
  [('SpecData1D.sim, sim_nl, stats_nl, qtf', 'spectrum/core.py'), ('CovData1D.sim, simcond', 'covariance/core.py'),
   ('disufq', '_misc_numba.py, c_functions.c')],
  'exact linear-algebra oracle with captured random numbers, Sharma-Dean second order model, differential between '
  'implementations', over=['inputs', 'histories'])

P('C12', 'Frequency and wave number satisfy the dispersion relation both ways',
  'For every frequency (also negative and zero), direction, depth (finite, infinite or mixed) and gravity, w2k returns '
  'the wave number components of the root of w**2 = g*k*tanh(k*h) with the sign of w and the broadcast shape, without '
  'warnings, and rejects two gravity constants in finite depth. k2w returns the frequency, including the Doppler shift '
  'by a current (negative ones set to zero with a warning), and the direction, and inverts w2k.',
  'all frequencies, wave numbers, directions, depths, gravity constants and currents; scalars and arrays',
  'Tests use four frequencies at two depths; shallow water, negative and mixed inputs take other paths.',
  ['src/wafo/wave_theory/dispersion_relation.py'], [('w2k, k2w', 'src/wafo/wave_theory/dispersion_relation.py')],
  'bracketing root finder as reference, round trip, odd symmetry, Froude scaling, monotonicity')

P('C13', 'Linear wave theory transfer functions match the sensor they describe',
  'For each of the 18 sensors (by name or number), position, depth (also infinite), z-convention, wave direction '
  'convention, gravity and density, TransferFunction.tran returns Hw >= 0 and Gwt with Hw*Gwt equal to the linear wave '
  'theory response to a unit wave exp(i*(kx*x+ky*y-w*t)), and leaves its arguments unchanged; rotating both axes equals '
  'rotating the waves. wave_pressure is the corresponding pressure amplitude, hyperbolic_ratio the quotient of '
  'hyperbolic functions without overflow, and sensor names and numbers map one to one.',
  'all sensors, positions from bottom to surface, frequencies incl. negative and zero, directions, depths, conventions',
  'Only surface elevation, slopes and one depth occur in the tests.',
  ['src/wafo/wave_theory/core.py'], [('TransferFunction, hyperbolic_ratio, wave_pressure, sensor_type, sensor_typeid',
                                      'src/wafo/wave_theory/core.py')],
  'responses derived from the velocity potential in extended precision, rotation metamorphic relation')

P('C14', 'Gaussian transformations follow their model, invert and carry derivatives',
  'For every mean, deviation, skewness, kurtosis and Gaussian-world scale, TrHermite (both parametrisations), TrOchi and '
  'TrLinear evaluate their documented model, dat2gauss and gauss2dat invert each other on the increasing part, and '
  'non-monotone or undefined cases warn or raise ValueError; trdata and dist2gauss discretise and measure exactly that '
  'function. tranproc and TrData interpolate any table linearly inside its range and transform up to four derivatives '
  'by the chain rule, trangood resamples it evenly and extends it linearly to the right; transforms estimated from series or level crossings have the sample moments '
  'and the empirical definition.',
  'all model parameters, scalar/vector/matrix data, even, uneven and unsorted tables',
  'Tests check two default parameter sets at a few points.',
  ['src/wafo/transform/models.py', 'src/wafo/transform/core.py', 'src/wafo/transform/estimation.py', 'src/wafo/misc.py'],
  [('TrHermite, TrOchi, TrLinear', 'transform/models.py'), ('TrData', 'transform/core.py'),
   ('TransformEstimator', 'transform/estimation.py'), ('tranproc, trangood', 'misc.py')],
  'reference polynomials and equations, round trips, difference-table chain rule')

P('C15', 'truncrayleigh, pbinom and the republished scipy families are the stated laws',
  'truncrayleigh (all c >= 0, loc, scale) has pdf, cdf, sf, ppf, isf, moments and entropy of the Rayleigh law truncated '
  'at c, and pbinom (any probabilities, others rejected) those of a sum of independent Bernoulli variables, with rvs '
  'following the law. The distributions republished from scipy keep their functions, are separate objects, and those '
  'with start values of their own (betaprime, bradford, chi, f, weibull_min, genpareto, genextreme, lognorm, ncx2, nct, '
  'reciprocal) can be fitted to any sample of theirs without changing the data.',
  'all parameters, points inside and outside the support, samples of 30-120 values for the fits',
  'Tests fit one sample per distribution and evaluate a few points.',
  ['src/wafo/stats/distributions.py'],
  [('truncrayleigh_gen', 'stats/distributions.py'), ('pbinom', 'stats/distributions.py'),
   ('start values', 'stats/distributions.py _patch_fit_start_dict')],
  'closed-form and convolution references, quadrature for moments, Kolmogorov distance of samples')

P('C16', 'Fitted parameters are the ML or MPS optimum and carry correct uncertainty',
  'For every sample of a supported law, fit2 (FitDistribution) with method ml or mps returns parameters at the maximum of '
  'the log-likelihood or log product spacing (ties taking the density), keeps fixed parameters exactly (given by '
  'position, name or loc/scale), does not modify or depend on the order of the data, and reports LLmax, LPSmax, '
  'covariance (inverse Hessian, zero for fixed ones), normal confidence bounds and Moran p-value of that estimate. fit1 '
  'returns the same parameters as a tuple, search=False the start values, and all parameters fixed, unknown keywords or '
  'a shape fixed twice are rejected; shifting and scaling the data shifts and scales the fit.',
  '11 laws, sample sizes 20-90, rounded data with ties, all patterns of fixed parameters, both methods',
  'Tests fit a handful of random samples with a fixed seed and compare printed numbers.',
  ['src/wafo/stats/estimation.py', 'src/wafo/stats/_distn_infrastructure.py'],
  [('FitDistribution', 'stats/estimation.py'), ('fit1, fit2, nlogps', 'stats/_distn_infrastructure.py')],
  'objectives written from the definition on top of scipy laws, independent optimiser, numerical Hessian, '
  'equivariance relation')

P('C17', 'Profile functions, their confidence intervals and links are those of the fit',
  'Each link returns the value of the requested parameter for which sf(x) equals exp(logsf), whatever value that '
  'parameter had, and rejects indices that do not exist. For every regular fit, Profile, ProfileQuantile and '
  'ProfileProbability return, on increasing arguments around the estimate, the maximum of the objective over the other '
  'free parameters given the parameter, quantile or probability, and get_bounds (ci_sf, ci_quantile) the nested '
  'intervals where it lies at most half a chi-square quantile below its maximum; a fixed parameter cannot be profiled.',
  '10 laws and all parameters for links; expon, rayleigh, weibull_min, gumbel_r samples of 30-80 values for profiles',
  'Tests profile one Weibull sample; wrong branches of links give plausible numbers.',
  ['src/wafo/stats/estimation.py'],
  [('LINKS', 'stats/estimation.py _*_link'), ('Profile, ProfileQuantile, ProfileProbability', 'stats/estimation.py'),
   ('ci_sf, ci_quantile', 'stats/estimation.py')],
  'inversion of the survival function, independent constrained maximisation')

P('C18', 'Threshold diagnostics, declustering and return periods follow their definitions',
  'For all data, edf and edfcnd return the sorted (conditioned on x >= c) values with the plotting positions of the chosen '
  'method, reslife the mean excess with Student-t limits and the number of exceedances for each threshold, and '
  'dispersion_idx variance over mean of the block counts with chi-square limits and the accepted thresholds; none '
  'modifies the data. findpot and decluster keep, in order of time, exceedances more than tmin apart such that every '
  'dropped one has a kept one at least as high within tmin; interexceedance_times, extremal_idx and declustering_time '
  'are the Ferro-Segers estimates, and returnperiod2sf and sf2returnperiod invert each other with nan for impossible '
  'input.',
  'all data (ties, lists and arrays, unsorted times), thresholds, block lengths, tmin, rates; scalars and arrays',
  'Tests and examples look at one wave record and a threshold of their own.',
  ['src/wafo/stats/core.py'],
  [('edf, edfcnd, reslife, dispersion_idx', 'stats/core.py'), ('findpot, decluster', 'stats/core.py'),
   ('extremal_idx, declustering_time, returnperiod2sf', 'stats/core.py')],
  'direct definitions, maximality/separation invariants of the kept peaks, round trip')

P('C19', 'RegLogit returns the maximum likelihood ordinal logistic regression',
  'For every set of ordered categories (any integer labels, vector or column) and covariates that are not separated, '
  'RegLogit.fit returns the theta and beta maximising the likelihood of logit P(Y <= i) = theta_i + x*beta, with '
  'deviance, null deviance, covariance, confidence interval (lower, upper), p-values, fitted probabilities and residuals '
  'of that estimate; colinear covariates are dropped with a warning. predict returns the category probabilities and '
  'their limits for new covariates, and anode and compare the chi-square p-values of the deviance differences.',
  '2-5 categories, 0-3 covariates of different scale, 15-70 observations, start values, label conventions',
  'There is one example without a checked result.',
  ['src/wafo/stats/core.py'], [('RegLogit', 'stats/core.py')],
  'independent optimisation of the likelihood, numerical Hessian, invariance under relabelling, scaling, reordering')

P('C20', 'Quadrature rules and integrators return the integral they are documented to',
  'For every n and all alpha, beta > -1, p_roots, h_roots, la_roots, j_roots and qrule (all methods, wfun 1-9) return n '
  'nodes and weights of the Gauss rule for their weight function ((1-x)^alpha (1+x)^beta for Jacobi), also mapped to '
  '[a, b]. gaussq (all weights, array limits and parameters, independent of earlier calls), quadgr (finite, infinite, '
  'reversed and complex limits, end point singularities), romberg, clencurt (exact to degree 2n) and boole (degree 5) '
  'return the integral to the requested accuracy with a non-negative error estimate, in the common shape of the limits, '
  'also for integer valued integrands.',
  'n up to 60, alpha and beta up to 12, polynomials and smooth functions, tolerances 1e-3 to 1e-10',
  'Tests evaluate a few rules and one integrand.',
  ['src/wafo/integrate.py'],
  [('p_roots, h_roots, la_roots, j_roots, qrule', 'integrate.py'), ('gaussq, quadgr', 'integrate.py _Gaussq, _Quadgr'),
   ('clencurt, romberg, boole, richardson', 'integrate.py')],
  'scipy eigenvalue rules, exact antiderivatives, sequences of calls with nearly equal parameters')

P('C21', 'Oscillatory quadrature returns the integral of f*exp(i*omega*g)',
  'For smooth f and g (with or without stationary points) and every omega and finite limits in either order, QuadOsc, '
  'EvansWebster and AdaptiveLevin return the integral of f(x)*exp(1j*omega*g(x)) from a to b within the requested '
  'precision (QuadOsc) or the reported error estimate (all), with the derivative of g given or not, extra arguments by '
  'position or keyword, either basis and end point choice. QuadOsc does the same over half-infinite and infinite '
  'intervals; the bases, their derivatives and the Chebyshev nodes follow their definitions.',
  'five amplitudes, five phases, |omega| up to 300, intervals up to length 3 or infinite',
  'Tests integrate a few published examples.',
  ['src/wafo/integrate_oscillating.py'],
  [('QuadOsc', 'integrate_oscillating.py'), ('AdaptiveLevin, EvansWebster', 'integrate_oscillating.py'),
   ('poly_basis, chebyshev_basis', 'integrate_oscillating.py')],
  'composite 200-point Gauss-Legendre reference, closed forms for infinite intervals')

P('C22', 'Padua interpolation and cubature are exact for polynomials and interpolate',
  'For every degree n and rectangle, padua_points returns the (n+1)(n+2)/2 Padua points of the rectangle, padua_fit the '
  'coefficients of the polynomial of total degree n that takes the given values there (extra arguments passed on), with an '
  'error estimate between the sums over its highest and its three highest degrees. padua_val evaluates it at scattered '
  'points in their shape or on a mesh, and padua_cubature integrates it over the rectangle, so polynomials up to degree '
  'n, including n = 0, are reproduced and integrated exactly.',
  'degrees 0-30, rectangles of any position and size, arbitrary values at the points',
  'Tests use two degrees on the standard square.',
  ['src/wafo/padua.py'],
  [('padua_points', 'padua.py'), ('padua_fit, error_estimate', 'padua.py'), ('padua_val, padua_cubature', 'padua.py')],
  'exact polynomials in the Chebyshev basis, point-set definition, interpolation conditions')

P('C23', 'Cosine and sine transforms follow their definitions on any axes and shapes',
  'For real input of any shape and kind (integers, logical, lists), dct, idct, dst, idst of types 1-3 apply the '
  'documented matrix along the given axis with zero padding or truncation to n, and dctn, idctn, dstn, idstn apply it along '
  'each of the axes (any order, negative ones too), with shape as lengths and a length mismatch rejected. With '
  "norm='ortho' idctn inverts dctn (and idstn dstn) and dctn preserves the sum of squares; shiftdim shifts, removes or adds "
  'dimensions as documented, and no input is modified.',
  'up to four dimensions, all types, norms, axes orders and target shapes',
  'Tests transform one 3-d and one 1-d array.',
  ['src/wafo/dctpack.py'],
  [('dct, idct, dst, idst', 'dctpack.py'), ('dctn, idctn, dstn, idstn', 'dctpack.py'), ('shiftdim', 'dctpack.py')],
  'explicit transform matrices from the documented sums, round trip, energy')

P('C24', 'Polynomial tools keep the polynomial in every representation',
  'polyint, polyder, polyreloc, polyrescl, polyshift, polyishift, poly2cheb, cheb2poly, chebder, chebint (zero at a), '
  'Cheb1d arithmetic and the string forms return, for every list, array, column matrix or poly1d and every interval, the '
  'polynomial their definition asks for; chebval (both kinds, fill), chebpoly, chebroot, chebextr, chebfit, chebfit_dct, '
  'chebinterpolate, chebvalnd, chebgridnd and chebvandernd follow the Chebyshev definitions. chebfitnd (weighted), '
  'orthofit/orthoval/ortho2poly are the least squares fits and polydeg the degree of smallest Akaike criterion. padefit '
  'matches the power series, padefitlsq recovers rational functions, and idct inverts dct.',
  'degrees up to 30, intervals of any position, one to three variables, integer and float coefficients',
  'Doctests evaluate one example of some of the functions.',
  ['src/wafo/polynomial.py'],
  [('power form', 'polynomial.py polyint..polyishift'), ('Chebyshev form', 'polynomial.py poly2cheb..Cheb1d, cheb*nd'),
   ('fits', 'polynomial.py orthofit, polydeg, padefit, padefitlsq, chebfitnd')],
  'exact rational arithmetic, recurrences in extended precision, normal equations, series matching')

P('C25', 'Interpolants and splines take the data, the slopes and the smoothness asked for',
  'slopes returns for every strictly increasing x and every method the slopes of its published formula, ends and two point '
  'data included, and with monotone=True the Hermite interpolant is monotone between any two data points; Stineman, '
  'CubicHermiteSpline and Pchip interpolants pass through the data with those or the given slopes. SmoothSpline minimises '
  "p*sum((y-f)^2/var) + (1-p)*int f''^2 for data in any order and extrapolates linearly or is zero outside. PPform values "
  '(right continuous at breaks, fill outside), derivative, integral and linear extrapolation are those of the pieces, and '
  'savitzky_golay, its piecewise and 2-d forms are derivatives of the local least squares polynomial.',
  '2-9 points with steps, plateaus and monotone runs, all nine methods, p in [0, 1], polynomials to degree 5',
  'Doctests interpolate one smooth data set.',
  ['src/wafo/interpolate.py'],
  [('slopes, stineman_interp, Pchip', 'interpolate.py'), ('PPform, SmoothSpline', 'interpolate.py'),
   ('savitzky_golay, sgolay2d', 'interpolate.py')],
  'formulas by point, scipy Hermite splines, penalised least squares in the natural spline basis, local fits')

P('C26', 'Smoothing filters solve the estimation problem they name for any data',
  'SavitzkyGolay returns at every sample the derivative of the local least squares polynomial (interp, mirror, constant, '
  'nearest, wrap ends; any axis) and smooth_last that value k samples before the last with reflected ends. smoothn/SmoothNd '
  'minimise sum w(y-z)^2 + s*|second difference of z|^2 in one or more dimensions, non-finite or zero-weight data missing, '
  'with robust reweighting and the cross-validated s when asked; HodrickPrescott (4 or more values) does so with plain second '
  'differences. Kalman follows the textbook recursion with defaults and automatic start, HampelFilter replaces exactly the '
  'values outside median +- t*1.4826*MAD of the window by the median; no caller data is modified.',
  'windows to 13, one to four dimensions, up to 60% missing data, states of size 1-4, uneven x, integer data',
  'Doctests filter one smooth noisy signal each.',
  ['src/wafo/sg_filter/_core.py'],
  [('SavitzkyGolay', 'sg_filter/_core.py'), ('SmoothNd, smoothn', 'sg_filter/_core.py'),
   ('HodrickPrescott, Kalman, HampelFilter', 'sg_filter/_core.py')],
  'local least squares fits, dense penalised least squares solutions, Joseph form recursion, window medians')

P('C27', 'Kernel densities, bandwidths and kernel regressions follow their formulas',
  'For every kernel, dimension, data set and smoothing (scalar, vector, matrix, default for non-positive), KDE and TKDE (with '
  'power or log transformation L2, integer data too) return the kernel sums at points and grids, adaptive weights included, and '
  'eval_grid_fast those of the linearly binned data; KRegression is the local constant or linear fit for any response and '
  'BKRegression gives binned and smoothed proportions with Wilson or beta intervals. Kernels integrate to norm_factor and have '
  'the stated moments; gridcount, accum, qlevels, iqrange and sphere_volume follow their definitions; hns, hos, hmns, hldpi, '
  'hste and hisj solve their equations, and every bandwidth scales with the data. No caller array is modified.',
  'eleven kernels, one to four dimensions, 4-40 data with ties, data at the ends of the grid',
  'Tests evaluate a few fixed samples with the Gaussian kernel.',
  ['src/wafo/kdetools/kdetools.py', 'src/wafo/kdetools/kernels.py', 'src/wafo/kdetools/gridding.py'],
  [('KDE, TKDE, KRegression, BKRegression', 'kdetools.py'), ('Kernel, qlevels', 'kernels.py'), ('gridcount, accum', 'gridding.py')],
  'direct sums over data and grid points, quadrature of the kernels, exact (unbinned) plug-in estimates, scale equivariance')

P('C28', 'Normal and Student probabilities and Rind expectations have the right values',
  'cdfnorm2d and prbnorm2d give the bivariate normal probability of any quadrant or rectangle (infinite limits, |r| up to 1, '
  'broadcast arrays); prbnormndpc, prbnormtndpc and prbnormnd give that of any box for product-correlated normal or Student '
  'variables and for general covariances, within the requested tolerance, unbounded variables included; cdflomax is the cdf of '
  'local maxima. Rind gives E[prod|Xd| 1{B_lo<Xt,Xd<B_up} | Xc=xc] f(xc) for every barrier definition (Blo, Bup, indI, values '
  'depending on xc), several conditioning columns, methods 1-7 and scalings of the variables.',
  'up to 7 variables (Rind: up to 3 integrated and 2 conditioning), correlations -0.99..0.99 and degenerate, limits in [-8, 8] and infinite',
  'Tests evaluate fixed covariances and limits.',
  ['src/wafo/gaussian.py', 'src/wafo/source/mvn', 'src/wafo/source/rind2007'],
  [('Rind', 'gaussian.py'), ('prbnormndpc, prbnormtndpc, prbnormnd', 'gaussian.py'), ('cdfnorm2d, prbnorm2d, cdflomax', 'gaussian.py')],
  "Owen's T, one dimensional mixture integrals, conditioning and Gauss-Legendre quadrature")

P('C29', 'Number, array and bit utilities follow their definitions for any arguments',
  'For lists, integers and arrays of any shape moving_average/detrendma (means, not their known recursion), findoutliers '
  '(non-finite, repeated and jumping values), lazywhere/lazyselect/argsreduce/piecewise (as numpy.where and select), '
  'stirlerr, betaloge, binomln, polar and rotation functions, index2sub/sub2index, good_bins/plot_histgrm (area 1 or counts), '
  'fourier (coefficients for any period), gravity, getshipchar (round trips), num2pistr, getbit(s)/setbit(s) and keyword '
  'helpers return what their definitions say and modify no argument. discretize follows a smooth function within its tolerance.',
  'up to 60 values with ties and missing values, arguments to 1e6, integers below 2**40, any axis',
  'Doctests evaluate one example each.',
  ['src/wafo/misc.py', 'src/wafo/bitwise.py'],
  [('findoutliers, moving_average, lazyselect, fourier, num2pistr, ...', 'misc.py'), ('getbit .. setbits', 'bitwise.py')],
  'definitions evaluated point by point, exact integers, mpmath, numpy.select')

P('C30', 'PlotData and LevelCrossings evaluate, extrapolate and simulate what they hold',
  'PlotData integrates its piecewise linear data over any interval (vector data and children too), evaluates points in one or '
  'two dimensions by linear or nearest interpolation with a fill value outside, keeps copies apart, and plots exactly the '
  'values, transformation and scale that plotflag names. LevelCrossings estimates mean and sigma of Gaussian crossings '
  '(uncrossed or few levels too), extrapolate keeps the levels between the thresholds and continues both tails with the '
  'fitted exponential, Pareto or truncated Rayleigh tail, and sim gives a stationary series with the irregularity factor and '
  'the relative crossing spectrum asked for.',
  '2-80 arguments, uneven grids, plotflags of all nine transformations, irregularity 0.3-0.95, moderate skewness',
  'Tests use one simulated sea.',
  ['src/wafo/containers.py', 'src/wafo/objects.py'],
  [('PlotData, plotflag functions', 'containers.py'), ('LevelCrossings.estimate_mean_and_stdev, extrapolate, sim', 'objects.py')],
  'exact piecewise linear sums, plotted line data read back, tail formulas, statistics of simulated series')

P('C31', 'Densities of wave periods, maxima and minima follow from the spectrum',
  'For one dimensional spectra in time or space, Gaussian or with an increasing transformation, to_t_pdf gives at every grid '
  'time from the first on the density of crest (Tc, Lc) or trough (Tt, Lt) periods of the given level: the conditional '
  'expectation on that grid, non-negative, integrating to one with the mean of Rice. to_mm_pdf gives for levels of any range '
  'the probabilities of (maximum, following minimum) cells: rows minima, columns maxima, sum one, marginals those of Rice in '
  'the scale of the process. to_specnorm has unit zeroth and second moments and the same shape; the spectrum is unchanged.',
  'smooth spectra with one or two peaks, levels -0.8..1.6 sigma, any scale of time and height, to_mm_pdf nit 1-3',
  'Tests evaluate one Jonswap period density.',
  ['src/wafo/spectrum/core.py', 'source/mreg/mregmodule.f', 'src/wafo/gaussian.py'],
  [('to_t_pdf, to_mm_pdf, to_specnorm, normalize', 'spectrum/core.py'), ('RIND, MREG', 'source/mreg')],
  'quasi Monte Carlo of the conditional expectation, the formulas of Rice for means and marginals')
