"""Property table: source of properties.jsonl and MANIFEST.json"""
TECH = ('contract-based deductive verification of the running code: executable pre/postconditions on the real functions, '
        'obligations over all inputs discharged by ring normal forms, sign rules, z3 and cvc5')
NOTE = ('every obligation generated from the current source must be discharged for all inputs; reals instead of floats; '
        'trusted: library models in /verif/vf/models.py, callee contracts listed in the evidence file. ')


def P(id, title, statement, over, text, why, files, mech, note='', level='proof', state=(), observe=()):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': a, 'note': NOTE + note, 'level': level}


ph = 'flavio/physics/'
st = 'flavio/statistics/'
pb = st+'probability.py'
PROPS = [
    P('C01', 'Combining multiplies densities; convolving adds variances',
      'Combining normal (also multivariate) distributions multiplies their densities: precisions and precision-weighted centres add, '
      'independent of order and grouping, and an exactly known value always wins while contradictory ones are rejected. '
      'Convolving adds variances or covariances and keeps the common centre or adds the centres, and refuses distributions with different centres or dimensions when a common centre is required.',
      ['inputs', 'configurations'], 'all centres, widths and positive definite covariances; up to 4 univariate or 3 multivariate (2-3 dimensional) distributions',
      'tests combine two or three hand-picked distributions and compare a few numbers', [pb],
      [('combination', pb+':combine_distributions, _combine_gaussians, weighted_average'), ('convolution', pb+':convolve_distributions, _convolve_gaussians')],
      'bounded in the number of distributions and dimensions; numerical (grid) combination and convolution are out of scope.', level='other'),
    P('C02', 'Univariate distributions: density, quantiles, errors, support agree',
      'For each analytic univariate distribution, the density is the derivative of the distribution function, quantiles invert it, the density vanishes outside '
      'the declared domain, the support contains the centre, invalid arguments are rejected and the argument dictionary rebuilds it. The quoted n-sigma errors '
      'are non-negative and enclose the stated confidence level, upper-limit distributions put exactly the confidence level below the limit, and samples stay in the domain. Tabulated distributions are normalised and obey the same quantile and error laws.',
      ['inputs'], 'all parameter values (any sign and magnitude), arguments, probabilities and numbers of sigmas; tabulated distributions on 3-point grids',
      'tests evaluate a few parameter sets, mostly positive central values and one sigma', [pb],
      [('distributions', pb+':UniformDistribution ... NumericalDistribution'), ('counting experiments', pb+':GammaCountingProcess, GammaUpperLimit'),
       ('dictionary round trip', pb+':ProbabilityDistribution.get_dict, dict2dist')],
      'scipy.stats densities and quantiles by their defining equations; brentq by its contract (a root in the bracket); mode <= median of a gamma distribution is assumed as a theorem; '
      'the convolved gamma distributions are only evaluated at run time for three parameter sets.'),
    P('C03', 'Multivariate distributions: equivalent inputs, exclusion, density',
      'A multivariate normal is the same distribution whether given by its covariance or by standard deviations and correlations, in full or by the upper triangle, '
      'whatever the magnitude of its entries; its density is the Gaussian density, its errors are the square roots of the variances, and excluding dimensions drops them from mean and covariance. '
      'A gridded multivariate distribution is normalised, proportional to the given values, impossible outside the grid, and excluding dimensions profiles over them.',
      ['inputs', 'configurations'], 'all centres and positive definite covariances in 2 and 3 dimensions; all positive values on 3x2 grids',
      'tests use unit-scale two-dimensional examples', [pb],
      [('normal', pb+':MultivariateNormalDistribution'), ('gridded', pb+':MultivariateNumericalDistribution')],
      'bounded in the dimension and grid size; positive definite covariances are parametrised by their Cholesky factor.', level='other'),
    P('C04', 'Constraint collections: newest constraint wins, copies are independent',
      'After any history of adding, overwriting, correlating and removing constraints, every parameter or observable is governed by exactly the constraint added last for it: central values, errors, draws and '
      'probability densities come from the right component of that distribution and superseded components never contribute. '
      'Copies are independent of the original, and writing a collection or a measurement to YAML and reading it back yields the same constraints.',
      ['histories', 'inputs'], 'all histories of up to three additions or removals of one- and two-dimensional constraints over three parameters; all values and distributions',
      'tests build one or two fixed collections and never overwrite a member of a correlated group', ['flavio/classes.py'],
      [('bookkeeping', 'flavio/classes.py:Constraints.add_constraint, set_constraint, remove_constraint, copy'),
       ('evaluation', 'flavio/classes.py:Constraints.get_central_all, get_random_all, get_logprobability_all'),
       ('input and output', 'flavio/classes.py:Constraints.get_yaml_dict, from_yaml_dict')],
      'probability distributions are contracts (arbitrary functions of their arguments, proved in C02, C03); bounded in the number of steps.', level='other'),
    P('C05', 'Likelihoods add exactly the selected measurements and parameter priors',
      'The log-likelihood is the sum, over exactly the selected measurements and observables, of the log density of each measurement at the predictions for the given parameters and Wilson coefficients, '
      'plus the densities of exactly the nuisance parameters at their values; contradictory or unknown selections are rejected. '
      'Fixed and default parameters are used where no value is given, and a likelihood written to YAML and read back is the same function.',
      ['inputs', 'configurations'], 'all predictions, parameter values, Wilson coefficients and densities; all selections from three measurements and three observables',
      'tests use one or two configurations with a single selection option', [st+'likelihood.py'],
      [('measurements', st+'likelihood.py:MeasurementLikelihood'), ('parameters', st+'likelihood.py:ParameterLikelihood'), ('sum', st+'likelihood.py:Likelihood.log_likelihood')],
      'predictions and distributions are contracts (arbitrary functions); bounded in the number of measurements and observables.', level='other'),
    P('C06', 'Results depend on the current inputs only, never on earlier evaluations',
      'Predictions, likelihoods and running Wilson coefficients are functions of the parameters and Wilson coefficients passed in that call: no earlier evaluation, in-place change of an input, '
      'returned object modified by the caller, or object shared between calls changes a later result.',
      ['histories', 'inputs'], 'all sequences of two or three evaluations with arbitrary points, including points equal under hashing and objects modified in place',
      'tests evaluate each function once per object, so stale caches are invisible to them', [st+'likelihood.py', ph+'eft.py'],
      [('prediction cache', st+'likelihood.py:MeasurementLikelihood.get_predictions_par'), ('coefficient cache', ph+'eft.py:WilsonCoefficients.get_wc, from_wilson'), ('instances', 'flavio/classes.py:NamedInstanceMetaclass')],
      'the running itself (package wilson) is a contract; bounded in the length of the history.', level='other'),
    P('C07', 'Uncertainties and covariances belong to the right observables and inputs',
      'Theory uncertainties and covariances are the sample statistics of predictions at joint draws of all parameters, error budgets vary exactly one parameter, or one group of correlated parameters, at a time, '
      'and every entry of a covariance or pseudo-measurement belongs to the observables it is labelled with, in whatever order they are given. '
      'Fast likelihoods combine experimental and theory covariance of the same observables, and combined measurements are the product of the densities of exactly the measurements of that observable.',
      ['inputs', 'configurations'], 'all predictions, draws, densities and orders of observables; up to three observables and three draws',
      'tests compare random estimates with percent tolerances for one ordering', [st+'likelihood.py', 'flavio/functions.py'],
      [('covariances', st+'likelihood.py:SMCovariance, MeasurementCovariance'), ('fast likelihood', st+'likelihood.py:FastLikelihood'),
       ('uncertainties', 'flavio/functions.py:np_uncertainty, sm_uncertainty, sm_covariance, get_dependent_parameters_sm, sm_error_budget'), ('combination', 'flavio/functions.py:combine_measurements')],
      'random draws and predictions are arbitrary functions; parallel maps apply the function to every element in order (contract of multiprocessing.Pool).', level='other'),
    P('C08', 'Significance conversions are exact mutual inverses',
      'Confidence level, Delta chi2, pull and p-value are consistent views of the same probability: the confidence level of n sigma is the '
      'probability of a standard normal inside n sigma; Delta chi2 and pull are inverse to each other for every number of degrees of freedom; '
      'and the p-value of the Delta chi2 of n sigma is one minus that confidence level. All of them are monotonic and stay in their ranges.',
      ['inputs'], 'all non-negative significances and chi2 values, all positive (also non-integer) numbers of degrees of freedom',
      'tests check a few numbers for one and two degrees of freedom', ['flavio/statistics/functions.py'],
      [('conversions', 'flavio/statistics/functions.py:confidence_level, delta_chi2, pull, pvalue')],
      'scipy.stats norm and chi2 are modelled by their defining properties (monotonic, mutually inverse cdf/ppf, closed forms for 1 and 2 dof).'),
    P('C09', 'Observables, implementations and measurements are addressed correctly',
      'An observable and its arguments can be given by string, tuple, list or dictionary with the same meaning, wrong or missing arguments are rejected, and inputs are not modified. '
      'Observables defined from others are the function of their predictions at the same point and arguments; auxiliary quantities use the implementation configured at the time of the call; '
      'the measurements of an observable are exactly those constraining it, and names refer to the newest instance of their own class until deleted.',
      ['histories', 'configurations', 'inputs'], 'all argument values and functions; all formats, all sequences of up to three registry operations and two configuration changes',
      'tests call each helper once with one format', ['flavio/classes.py', 'flavio/data/config.yml'],
      [('formats', 'flavio/classes.py:Observable.argument_format'), ('derived observables', 'flavio/classes.py:Observable.from_function, Prediction'),
       ('auxiliary quantities', 'flavio/classes.py:AuxiliaryQuantity, Implementation'), ('registry', 'flavio/classes.py:NamedInstanceClass')],
      'bounded in the number of operations, observables and arguments; the shipped data are checked at run time.', level='other'),
    P('C10', 'Citations are exactly the papers used, independent of earlier evaluations',
      'A citation scope starts empty, collects exactly the papers registered inside it, and leaves the enclosing collection unchanged, also after errors; clearing and resetting restore none or the default papers and unknown papers are rejected. '
      'The theory citations of an observable are the papers its prediction uses for the given arguments, the same however often and in whatever order it was evaluated before, also through cached functions and parallel evaluation.',
      ['histories'], 'all histories of four operations on nested scopes with three papers; all observables without or with one argument evaluated twice',
      'tests evaluate each prediction once in a fresh state, so citations lost by caching are invisible', ['flavio/citations.py', 'flavio/classes.py', ph+'bdecays/matrixelements.py', ph+'running/running.py'],
      [('collections and scopes', 'flavio/citations.py:Citations, CitationScope'), ('observables', 'flavio/classes.py:Observable.theory_citations'), ('cached functions', ph+'bdecays/matrixelements.py:F_17, SeidelA')],
      'bounded in the length of the history; cached functions, parallel evaluation and the sweep over observables are evaluated at run time.', level='other'),
    P('C11', 'Wilson coefficients, couplings and masses at any scale are consistent',
      'At every scale, a request for a sector by its current or legacy name returns every coefficient with these flavours in the requested effective theory, its running value if new physics is present and zero otherwise; invalid requests are rejected. '
      'The fine structure constant runs with the charges of the active fermions, continuously at the thresholds; running masses and couplings, including the kinetic scheme, are those of their own input and number of flavours; and evolution between any two scales is the composition of the flows between thresholds.',
      ['inputs', 'configurations'], 'all scales, coefficient values and input parameters; every sector of every low-energy effective theory; every legacy name',
      'tests compare a few couplings and coefficients at one or two scales', [ph+'eft.py', ph+'running/running.py', 'flavio/functions.py'],
      [('coefficients', ph+'eft.py:WilsonCoefficients.get_wc, get_wcxf, sectors_flavio2wcxf'), ('couplings', ph+'running/running.py:get_alpha_e, run_alpha_e, get_alpha_s'),
       ('masses', ph+'running/running.py:get_mq, get_mb_pole'), ('evolution', ph+'running/running.py:rg_evolve_sm, get_f_perp')],
      'the packages wilson and rundec and the ODE solver are contracts (arbitrary functions of their arguments).'),
    P('C12', 'CKM matrix is unitary, reproduces its inputs, and conjugates under CP',
      'For every parametrization, the quark-mixing matrix is unitary for all allowed input values, is in the standard phase convention, '
      'and reproduces the input moduli and the unitarity-triangle angle in every quadrant. The angles derived from it are the arguments of '
      'the defining ratios and sum to pi, and flipping the sign of all CP-odd parameters exactly complex-conjugates the matrix.',
      ['inputs', 'configurations'], 'all real values of the mixing parameters for which the matrix exists; all four parametrizations',
      'tests evaluate one or two points near the measured values, all in the first quadrant, to a few digits',
      [ph+'ckm.py', ph+'common.py'],
      [('parametrizations', ph+'ckm.py:ckm_tree, ckm_standard, ckm_wolfenstein, ckm_beta_gamma'), ('dispatch on configuration', ph+'ckm.py:get_ckm'),
       ('CP conjugation of the parameter set', ph+'common.py:conjugate_par'), ('derived angles', ph+'ckm.py:get_ckmangle_*, xi')],
      'ckmutil (dependency): its parametrization of the angles is covered only by an odd/even contract where the real code calls it.'),
    P('C13', 'Semileptonic B decay distributions are squared helicity amplitudes',
      'For every B to pseudoscalar or vector meson decay into two leptons of arbitrary masses, the angular distribution built from the angular coefficients '
      'is the sum over lepton helicities of squared helicity amplitudes, hence never negative, and the rates, polarisation fractions and asymmetries derived from it respect the resulting bounds. '
      'The helicity amplitudes are linear in the Wilson coefficients, agree with the literature and respect parity, current conservation and the lepton chirality structure; '
      'the coefficients of mixing-induced CP violation are the interference terms of the same squared amplitudes.',
      ['inputs'], 'all complex helicity amplitudes, Wilson coefficients, masses, momentum transfers and angles',
      'tests compare central values of a few angular observables in the SM', [ph+'bdecays/angular.py'],
      [('helicity amplitudes', ph+'bdecays/angular.py:helicity_amps_v, helicity_amps_p'), ('angular coefficients', ph+'bdecays/angular.py:angularcoeffs_general_*, angularcoeffs_h_v'),
       ('rates', ph+'bdecays/bvlnu.py, bplnu.py, bpll.py, bvll/observables.py')],
      'all kinematics are parametrised by lepton energies and momenta in the dilepton rest frame.'),
    P('C14', 'Charged-lepton flavour violating rates follow from explicit amplitudes',
      'Every lepton flavour violating rate (radiative and three-lepton decays of taus and muons, tau decays to mesons, muon conversion in nuclei, and leptonic and semileptonic '
      'B, kaon and quarkonium decays) equals phase space times the spin-summed square of the amplitude of the documented operators, for all complex coefficients and masses. '
      'Rates summed over charges are the sum of both charge assignments, and every such observable vanishes identically without new physics.',
      ['inputs'], 'all complex Wilson coefficients, masses, decay constants, form factors and momentum transfers',
      'tests evaluate one real coefficient at a time, so wrong interference terms, lepton orderings and conjugations are invisible to them',
      [ph+'taudecays', ph+'mudecays', ph+'bdecays/bll.py', ph+'bdecays/bpll_lfv.py', ph+'bdecays/bvll/lfv.py', ph+'kdecays/kll.py', ph+'quarkonium'],
      [('generic fermion decays', ph+'taudecays/common.py:GammaFvf, GammaFsf'), ('lepton decays', ph+'taudecays/taulgamma.py, tauvl.py, taupl.py, tau3l.py; mudecays'),
       ('meson decays', ph+'bdecays/bll.py, bpll_lfv.py, bvll/lfv.py; kdecays/kll.py'), ('quarkonium', ph+'quarkonium/Vll.py, Pll.py, Sll.py, Vllgamma.py')],
      'spin sums are computed from explicit spinors; operator definitions are those of the flavio WCxf basis.'),
    P('C15', 'Meson mixing splittings and CP asymmetries obey the eigenvalue laws',
      'For any dispersive and absorptive mixing amplitudes, the mass and width differences solve the characteristic equation of the '
      'effective Hamiltonian, the mixing ratio q/p squared equals the ratio of its off-diagonal elements, and the flavour-specific '
      'asymmetry and D-mixing parameters follow from them. Mass differences positive by convention are never negative, mixing-induced '
      'asymmetries never leave [-1,1], and exchanging meson and antimeson (conjugating amplitudes, CKM and Wilson coefficients) flips exactly the CP-odd observables. '
      'The SM amplitudes are the box loop integrals with the mass and CKM factors of each internal quark, times bag parameters and vacuum-insertion matrix elements.',
      ['inputs'], 'all complex M12 and Gamma12, all parameter values, all values of the Delta F=2 Wilson coefficients',
      'tests evaluate a handful of SM or single-coefficient points with loose tolerances',
      [ph+'mesonmixing/common.py', ph+'mesonmixing/observables.py', ph+'mesonmixing/amplitude.py', ph+'mesonmixing/wilsoncoefficient.py'],
      [('splittings and q/p', ph+'mesonmixing/common.py:DeltaM, DeltaGamma, q_over_p, a_fs'),
       ('observables', ph+'mesonmixing/observables.py'), ('SM and NP amplitude', ph+'mesonmixing/amplitude.py:M12_d, M12_u, G12_d')],
      'QCD running and alpha_s enter through positive uninterpreted functions.'),
    P('C16', 'Electroweak precision observables: sum rules, gauge relations, bounds',
      'Every Z and W width, branching ratio, ratio and pole cross section is the stated combination of partial widths summed over the right '
      'decay channels, and each partial width differs from its SM value by exactly the interference and square of the coupling shifts. '
      'Coupling shifts respect gauge invariance (left/right-handed operators, W versus Z), flavour conservation and the input scheme (alpha, GF and mZ held fixed, which also fixes the W mass shift), asymmetries are bounded, and '
      'Higgs signal strengths are production times decay over total width; all reduce to the SM values at zero Wilson coefficients.',
      ['inputs'], 'all parameter values with a real weak mixing angle and all complex dimension-six Wilson coefficients',
      'tests compare central SM numbers and a few single-operator points; they cannot see a wrong channel, conjugation or sign at other points',
      [ph+'zdecays/gammaz.py', ph+'zdecays/smeftew.py', ph+'zdecays/afbz.py', ph+'zdecays/gammazsm.py', ph+'wdecays/gammaw.py', ph+'wdecays/mw.py',
       ph+'higgs/signalstrength.py', ph+'higgs/width.py', ph+'higgs/production.py', ph+'higgs/decay.py'],
      [('Z widths', ph+'zdecays/gammaz.py'), ('effective couplings', ph+'zdecays/smeftew.py'), ('asymmetries', ph+'zdecays/afbz.py'),
       ('W widths', ph+'wdecays/gammaw.py'), ('signal strengths', ph+'higgs/signalstrength.py')]),
    P('C17', 'Form factors obey the kinematic relations of their matrix elements',
      'Every parametrization of meson and baryon transition form factors satisfies the exact relations between form factors at zero momentum transfer and at zero recoil, '
      'whatever its coefficients and masses: f+(0)=f0(0), T1(0)=T2(0), the relation of A0(0) and A12(0), the zero-recoil relations of Lambda_b form factors, and heavy quark symmetry with its first corrections, whose matching coefficients obey the Ward identities. '
      'Conversions between bases preserve the matrix elements, the series variable maps the physical region below threshold into the unit interval, poles sit at the resonance masses, and a named N-parameter expansion uses N coefficients of every form factor.',
      ['inputs', 'configurations'], 'all masses, coefficients and momentum transfers, every registered parametrization',
      'tests compare a few central values with the literature at a tolerance of several percent, which hides a wrong sign, mass or missing coefficient',
      [ph+'bdecays/formfactors/common.py', ph+'bdecays/formfactors/hqet.py', ph+'bdecays/formfactors/b_p/bcl.py', ph+'bdecays/formfactors/b_p/bsz.py', ph+'bdecays/formfactors/b_p/cln.py',
       ph+'bdecays/formfactors/b_v/bsz.py', ph+'bdecays/formfactors/b_v/cln.py', ph+'bdecays/formfactors/b_v/clnexp.py', ph+'bdecays/formfactors/b_v/isgurwise.py',
       ph+'bdecays/formfactors/lambdab_12/sse.py', ph+'bdecays/formfactors/lambdab_32/QuarkModel_MCN.py', ph+'bdecays/formfactors/lambdab_32/LatticeQCD.py',
       ph+'ddecays/formfactors/bcl.py', ph+'ddecays/formfactors/bsz.py', ph+'kdecays/formfactors.py'],
      [('series expansions', ph+'bdecays/formfactors/b_p/bcl.py, bsz.py; b_v/bsz.py, sse.py; lambdab_12/sse.py'), ('heavy quark expansion', ph+'bdecays/formfactors/hqet.py; b_p/cln.py; b_v/cln.py, clnexp.py'),
       ('registration', ph+'bdecays/formfactors/b_p/btop.py, b_v/btov.py, lambdab_12/lambdab.py')],
      'perturbative matching functions of the heavy quark expansion are arbitrary numbers; their continuity and symmetry is checked natively (bounded).'),
    P('C18', 'Charged-current decay rates equal the general effective-theory formulae',
      'Leptonic and semileptonic charged-current decay rates of B, D, K, pi and tau, with any vector, scalar and tensor new-physics coefficients and any neutrino flavour, '
      'equal the formulae of the low-energy effective theory for the right CKM element, masses, isospin and correction factors, and vanish outside the physical range. '
      'One-dimensional and binned distributions are exact marginals of the full angular distribution and integrate to the rate, and averages over electrons and muons, '
      'lepton-flavour ratios, polarisation fractions and asymmetries are the stated ratios and means.',
      ['inputs', 'configurations'], 'all parameter values, complex Wilson coefficients, form factor values, momentum transfers, angles and bins; every mode and lepton',
      'tests check central SM values and a few points with one coefficient; interference terms, rarely used modes and averages are not exercised',
      [ph+'bdecays/bplnu.py', ph+'bdecays/bvlnu.py', ph+'bdecays/blnu.py', ph+'ddecays/dplnu.py', ph+'ddecays/dlnu.py', ph+'kdecays/kpilnu.py', ph+'kdecays/klnu.py',
       ph+'kdecays/lambdaplnu.py', ph+'taudecays/taupnu.py', ph+'taudecays/taulnunu.py', ph+'bdecays/bxlnu.py', ph+'bdecays/bc_lifetime.py', ph+'bdecays/wilsoncoefficients.py', ph+'bdecays/angular.py'],
      [('semileptonic', ph+'bdecays/bplnu.py, bvlnu.py; ddecays/dplnu.py; kdecays/kpilnu.py'), ('leptonic', ph+'bdecays/blnu.py; ddecays/dlnu.py; kdecays/klnu.py; taudecays/taupnu.py'),
       ('effective coefficients', ph+'bdecays/wilsoncoefficients.py:get_wceff_fccc, get_CVLSM'), ('effective Fermi constant', ph+'taudecays/taulnunu.py:GFeff'),
       ('inclusive', ph+'bdecays/bxlnu.py:BR_BXclnu; bc_lifetime.py:lifetime_Bc_SM, lifetime_Bc_NP')],
      'form factors, running masses and couplings are uninterpreted functions; numerical integration is an arbitrary positive quadrature rule.'),
    P('C19', 'Rare b to s and b to d lepton pair observables follow from the amplitudes',
      'Rates, CP asymmetries, angular coefficients, optimised observables, lepton-flavour ratios and differences of exclusive and inclusive B and Bs decays to two leptons, and time-integrated rates, lifetimes and mixing-induced terms of Bs, '
      'are the stated combinations of decay and CP-conjugate amplitudes, in which exactly the weak phases are reversed. '
      'The amplitudes contain Standard Model plus new physics coefficients of each operator, quark loops with their charge, colour and CKM factors, and the non-factorisable contributions of the region of momentum transfer. '
      'Binned observables are ratios of integrals over the bin, unaffected by splitting at the photon pole, and vanish outside the physical range.',
      ['inputs', 'configurations'], 'all parameter values, complex Wilson coefficients, form factors, hadronic contributions, momentum transfers and bins; every mode and lepton flavour',
      'tests check central SM values and a few numbers from the literature; CP-violating new physics, flavour ratios in other bins, and rarely used modes are not exercised',
      [ph+'bdecays/bvll/observables.py', ph+'bdecays/bvll/observables_bs.py', ph+'bdecays/bvll/amplitudes.py', ph+'bdecays/bvll/subleading.py', ph+'bdecays/bpll.py', ph+'bdecays/bpll_subleading.py',
       ph+'bdecays/bll.py', ph+'bdecays/lambdablambdall_subleading.py', ph+'bdecays/wilsoncoefficients.py', ph+'bdecays/matrixelements.py', ph+'bdecays/bxll.py', ph+'bdecays/bvll/qcdf.py'],
      [('B->V ll', ph+'bdecays/bvll/observables.py, amplitudes.py'), ('time-dependent Bs', ph+'bdecays/bvll/observables_bs.py; bll.py'), ('B->P ll', ph+'bdecays/bpll.py'),
       ('B->X ll', ph+'bdecays/bxll.py'), ('total and effective coefficients', ph+'bdecays/wilsoncoefficients.py:wctot_dict, get_wceff'), ('quark loops', ph+'bdecays/matrixelements.py')],
      'form factors, the interpolated two-loop functions and the SM coefficient table are uninterpreted or data; numerical integration is an arbitrary positive quadrature rule.'),
    P('C20', 'Dipole moments, tridents and beta decays follow from the documented operators',
      'Electric dipole moments and P,T-odd atomic frequencies depend on the imaginary part of the dipole coefficient of the very fermion (with its own mass), on the chromo-dipoles, the Weinberg operator '
      'and scalar couplings, and vanish without CP violation; magnetic moments are the SM value plus the real part of the dipole. '
      'The neutrino trident ratio sums all final neutrino flavours and is one in the SM. '
      'Nuclear beta decay correlations, lifetimes and Ft values for any vector, axial, scalar and tensor couplings equal the squared matrix element of the general Lee-Yang Hamiltonian and the stated combinations of it.',
      ['inputs', 'configurations'], 'all parameter values, complex Wilson coefficients, energies, directions and polarisations; every nucleus, fermion and observable',
      'tests compare central SM values and one or two new physics points; imaginary parts, rarely used fermions and nuclei, and interference are not exercised',
      [ph+'edms/common.py', ph+'edms/neutronedm.py', ph+'edms/paraedm.py', ph+'edms/slcouplings.py', ph+'mdms/al.py', ph+'neutrinos/trident.py', ph+'betadecays/common.py', ph+'betadecays/ft.py'],
      [('electric dipole moments', ph+'edms/common.py:edm_f, proton_charges; neutronedm.py, paraedm.py'), ('magnetic moments', ph+'mdms/al.py'), ('tridents', ph+'neutrinos/trident.py:R_trident'),
       ('beta decays', ph+'betadecays/ft.py, common.py')],
      'running masses and couplings and the CKM matrix are contracts (uninterpreted functions, proved in C12 for the CKM matrix).'),
    P('C21', 'Neutrino, photon, baryon and kaon rare decays follow from the amplitudes',
      'Rates, CP asymmetries, angular and polarisation observables of B and K decays to neutrino pairs, of radiative B decays (with a vector meson, inclusive, or with an extra lepton pair), of Lambda_b decays to two leptons, '
      'of K to two leptons and of direct CP violation in K to two pions follow from the squared amplitudes for arbitrary complex Wilson coefficients. '
      'Every flavour, helicity and lepton combination is summed exactly once, the CP-conjugate amplitude has exactly its weak phases reversed, and without weak phases CP asymmetries vanish. '
      'Binned observables are averages or ratios of integrals over the bin.',
      ['inputs', 'configurations'], 'all parameter values, complex Wilson coefficients, form factors, hadronic contributions, momentum transfers and bins; every mode and lepton flavour',
      'tests compare SM central values and rarely one new physics point; imaginary, flavour-violating and right-handed coefficients and their interference are not exercised',
      [ph+'bdecays/bpnunu.py', ph+'bdecays/bvnunu.py', ph+'bdecays/bvgamma.py', ph+'bdecays/bxgamma.py', ph+'bdecays/bllgamma.py', ph+'bdecays/lambdablambdall.py', ph+'bdecays/lambdablambda1520ll.py',
       ph+'kdecays/kpinunu.py', ph+'kdecays/kll.py', ph+'kdecays/kpipi.py'],
      [('B -> K(*) nu nu', ph+'bdecays/bpnunu.py, bvnunu.py'), ('radiative', ph+'bdecays/bvgamma.py, bxgamma.py, bllgamma.py'), ('baryonic', ph+'bdecays/lambdablambdall.py, lambdablambda1520ll.py'),
       ('kaons', ph+'kdecays/kpinunu.py, kll.py, kpipi.py')],
      'form factors, hadronic matrix elements and SM tables are uninterpreted or data; numerical integration is an arbitrary positive quadrature rule.'),
    P('C22', 'High-energy Drell-Yan ratios follow from squared amplitudes and SMEFT matching',
      'The ratios R(pp->ll) and R(pp->l nu) are the hadronic cross section in the bin of invariant or transverse mass over its Standard Model value, and one without new physics. '
      'Partonic cross sections are the squares of coherent sums of photon, Z or W exchange and of dimension-six contact terms, for every chirality and for chirality-flipping operators with their Hermitian conjugates, integrated over the bin and summed over neutrinos. '
      'Contact terms are the SU(2) contractions of the Warsaw operators at the scale of the bin in the up-aligned basis, and all quark-antiquark pairs of the right charges, from either beam, contribute with the configured parton luminosity.',
      ['inputs', 'configurations'], 'all parameter values, complex Wilson coefficients of every flavour, bins and luminosities',
      'the tests need a PDF set from the network; they look at single coefficients one at a time',
      [ph+'dileptons/ppll.py', ph+'dileptons/pplnu.py'],
      [('neutral current', ph+'dileptons/ppll.py:sigma_qqll_partonic, F_qqll_SM, wceff_qqll_np, dsigma_dtau_qqll, sigma_qqll_int'),
       ('charged current', ph+'dileptons/pplnu.py:dsigma_dtau_qqlnu_partial, wceff_qqlnu_np, dsigma_dtau_qqlnu, sigma_qqlnu_int')],
      'parton luminosities are an uninterpreted positive function; numerical integration is an arbitrary positive quadrature rule; traces of squared amplitudes are evaluated numerically (bounded), everything else is proved.'),
]
NA = {}
