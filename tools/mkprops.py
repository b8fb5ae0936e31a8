#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/main/cxx/'
P = []


def p(id, title, statement, over, text, why, files, mech, note):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                   anchors=dict(files=[S + f for f in files.split()],
                                mechanism=[dict(name=a, where=S + b) for a, b in mech])), note))


p('C01', 'Random number generators reproduce their published sequences',
  'For every seed (or seed array) each random number generator emits exactly the sequence of the published algorithm it is named after: '
  'Mersenne Twister 11213A, 11213B, 19937 and 19937-64, MELG19937-64 and PCG-XSH-RR-32. Reseeding or copying a generator restarts or '
  'duplicates the sequence with no trace of earlier draws.',
  'inputs histories', 'all seeds, all seed arrays up to the listed lengths, all draw positions up to the listed number of draws (beyond one full state renewal)',
  'the tests compare a few outputs for one fixed seed each; a fault that shows for other seeds, other seed array lengths or after the state array wraps is not sampled',
  'core/random.h', [('Mersenne_Twister', 'core/random.h'), ('Melg', 'core/random.h'), ('Pcg', 'core/random.h')],
  'Bit-precise: every draw is proved equal, as a word expression in a symbolic seed, to a reference written from the papers; bounded by number of draws and seed array lengths.')
p('C02', 'Uniform deviates stay in the unit interval and scale linearly',
  'Every uniform deviate a generator produces lies in the closed unit interval, for every possible word the underlying generator can emit, floating-point rounding included. The deviate is that word (of a 64-bit generator its 53 leading binary digits) divided by the largest value it can take, so that both ends of the interval are attained.',
  'inputs', 'all generator words (floating-point arithmetic included)',
  'a sampled sequence never contains the extreme words, where rounding decides whether the unit interval is left',
  'core/random.h', [('operator() conversions', 'core/random.h')],
  'Floating-point theory for the range, real arithmetic for the scaling; covers all words.')
p('C03', 'Normal deviates follow the polar method in pairs',
  'Consecutive normal deviates are the two members of a polar (Marsaglia) pair made from the same accepted point: with the first point (a, b) of the square [-1, 1] x [-1, 1], drawn from two consecutive uniform deviates, whose squared radius r2 lies strictly between zero and one, the deviates are a and b times sqrt(-2 ln(r2)/r2), each returned exactly once. A copy of the generator holds the same pending second member and continues with the same sequence.',
  'inputs histories', 'all streams of uniform deviates, with up to the listed number of normal deviates and rejections',
  'the tests look at the mean and deviation of one long sample, where a reused, dropped or wrongly scaled member is invisible or within tolerance',
  'core/deviates.h', [('Normal_Deviate', 'core/deviates.h')],
  'Symbolic uniform stream; ln uninterpreted; bounded number of deviates and rejections.')
p('C04', 'Adaptive quadrature meets its accuracy contract on every integrand',
  'For finite limits the integrator starts from the whole interval and bisects the subinterval with the largest estimated error (the difference between its coarse and its fine formula) until the sum of the errors is below the accuracy goal or the iteration limit is reached, then returns the sum of the fine formula over all subintervals. Each of the four formulas is the published one (13, 19, 27 and 41 points), applied to the true function values of its subinterval even though values are shared between formulas and with parent intervals, and integrates polynomials up to its degree exactly.',
  'inputs', 'all integrands (an uninterpreted function), all limits and accuracy goals, up to the listed refinement depth',
  'the tests integrate a handful of smooth functions, which the first formula pair already resolves to tolerance',
  'core/integrator.h', [('Integrator::integrate', 'core/integrator.h')],
  'Integrand is an uninterpreted function; bounded refinement depth and number of pieces.')
p('C05', 'Infinite-range integrals are the transformed finite integrals',
  'The integral over the positive half line equals the finite integral over [0, 1] of the integrand substituted with x = -ln(u), divided by u and zero at u = 0, evaluated with the requested accuracy goal, iteration limit and formulas. The integral over the negative half line is that of the mirrored integrand, and the integral over the whole line is the sum of both.',
  'inputs', 'all integrands (an uninterpreted function) and all accuracy goals, up to the listed refinement depth',
  'tests use two or three Gaussians, whose symmetry hides a wrong sign or Jacobian',
  'core/integrator.h', [('integrate_positive_infinite and siblings', 'core/integrator.h')],
  'Integrand is an uninterpreted function; bounded refinement depth.')
p('C06', 'Air and vacuum wavelength conversion formulas and their inversion',
  'The Edlen (1953, 1966) and Birch and Downs (1994) conversions give for every wave number the published dispersion formula and the derivative returned with it is its true derivative; the conversion is strictly increasing in the optical range. The inverse conversion returns the first Newton iterate whose last step is smaller than the accuracy goal relative to it, or reports failure with an error when the iteration limit is reached.',
  'inputs', 'all wavelengths of the stated optical range, all accuracy goals and start values, bounded Newton iterations',
  'tests convert a few wavelengths to a few digits; wrong derivative terms only slow Newton down and the failure exit is never taken',
  'core/equations.h core/equations.cxx', [('Equations', 'core/equations.h')],
  'Exact rational arithmetic; Newton loop with an uninterpreted function; bounded iterations.')
p('C07', 'Doppler factor is relativistic and heliocentric correction applies it',
  'The photon redshift for a radial velocity v is sqrt((1 + v/c)/(1 - v/c)) - 1 with v in m/s and c the speed of light, zero at rest, and opposite velocities give inverse factors. The heliocentric velocity correction tool multiplies each wavelength by that Doppler factor for the velocity given in km/s and leaves flux and uncertainty unchanged.',
  'inputs', 'all velocities below the speed of light, all tables of bounded size',
  'tests use a few small velocities, for which the classical formula is within tolerance',
  'core/base.h util/helicorr.cxx', [('redshift', 'core/base.h'), ('main', 'util/helicorr.cxx')],
  'Exact for all velocities; table size bounded.')
p('C08', 'Line profiles have the physical width, centre and optical depth',
  'For all line parameters each absorption line profile (Doppler and Voigt kinds, single and many-multiplet) has its centre at rest wavelength x (1+z)(1+v/c), Doppler width b/c times the centre, damping width proportional to gamma, and an optical depth proportional to oscillator strength and column density 10^N with the standard constant; Doppler kinds are cut off at four Doppler widths from the centre. The many-multiplet kind shifts the rest wave number by the sensitivity q times alpha (alpha + 2), alpha the relative variation of the fine-structure constant (in millionths), and reduces to the plain kind when it vanishes.',
  'inputs', 'all real line parameters and wavelengths',
  'tests evaluate a few lines with typical parameters, where missing higher-order terms are below tolerance',
  'core/profiles.h core/profiles.cxx', [('Intergalactic_Doppler', 'core/profiles.cxx'), ('Intergalactic_Voigt', 'core/profiles.h'), ('Many_Multiplet', 'core/profiles.cxx')],
  'Exact algebra with exp/pow uninterpreted; unbounded in the parameters.')
p('C09', 'Voigt approximations satisfy their defining mixture formulas',
  'The pseudo-Voigt approximation is for all positive widths the mixture of a Gaussian and a Lorentzian of equal half width with the published width and mixing polynomials, and symmetric about its centre. The extended pseudo-Voigt approximation likewise is the mixture of Gaussian, Lorentzian, irrational and squared hyperbolic secant terms with their published width and mixing polynomials, and symmetric about its centre.',
  'inputs', 'all widths and positions',
  'tests sample a few widths with tolerances far above the size of most coefficients',
  'core/profiles.cxx core/profiles.h', [('Pseudo_Voigt', 'core/profiles.cxx'), ('Extended_Pseudo_Voigt', 'core/profiles.cxx')],
  'Exact algebra; exp, cosh uninterpreted with their laws; the accuracy of the approximation itself against the true Voigt function is outside the claim.')
p('C10', 'Superposed absorption is the sum of its lines in any order',
  'The optical depth of a superposition of absorption lines is the sum of the optical depths of its lines, each built from its own consecutive block of parameters. '
  'It does not depend on the order of the lines, adding a line adds exactly its own optical depth, and no lines absorb nothing.',
  'inputs', 'all parameter vectors with up to the listed number of lines, all wavelengths',
  'tests use one or two lines',
  'core/profiles.h', [('Superposition', 'core/profiles.h')],
  'All parameters symbolic; number of lines bounded.')
p('C11', 'The cost of a section is the weighted sum of squares of valid data',
  'The cost of a section is half the sum, over data that are not masked, of the squared difference between observed and modelled flux divided by its uncertainty; computing it for trial parameters leaves the section unchanged and gives the same value as applying those parameters and asking for the cost. '
  'Masking takes away exactly the data inside the closed masked interval, and masked data influence neither the cost nor the fit to other data.',
  'inputs histories', 'all flux, uncertainty and optical depth values and masks for sections of bounded size',
  'tests check a cost for one data set; masks, and their influence on other data, are hardly touched',
  'core/section.h core/section.cxx', [('Section::cost', 'core/section.h'), ('Section::mask', 'core/section.cxx')],
  'Optical depth is an uninterpreted function; section size bounded.')
p('C12', 'The background continuum is the best-fitting Legendre polynomial',
  'With m Legendre terms the background continuum of a section is the polynomial of degree below m which minimises the weighted squared residuals of all valid data given the convolved absorption; with no terms it is one everywhere. '
  'If the valid data do not determine it, an error is reported instead of a result.',
  'inputs', 'all flux, uncertainty and absorption values and masks, up to the listed number of terms and data',
  'tests fit one data set with one degree',
  'core/section.cxx', [('Section::continuum', 'core/section.cxx')],
  'Exact arithmetic; sqrt through its defining law; number of terms and data bounded.')
p('C13', 'Instrumental convolution is exact for piecewise linear absorption',
  'The absorption seen through the instrument is the exact convolution, of the absorption sampled on the data grid and interpolated linearly in between, with a Gaussian line spread function of half width at half maximum centre/(2000 R) (R the resolution in thousands), cut off at four half widths; when data are spaced wider than the half width, the grid is first refined evenly by the smallest sufficient integer factor. Convolution is linear in the absorption, leaves constant absorption constant but for the cut-off tails, and does not depend on the flux.',
  'inputs', 'all optical depth values (an uninterpreted function), for the listed grids and resolutions',
  'tests compare one spectrum against a stored result',
  'core/section.h core/section.cxx', [('Section::convolute', 'core/section.h'), ('Section::supersample', 'core/section.cxx')],
  'Optical depth uninterpreted; grid geometry concrete from a list.')
p('C14', 'Spectral data are read as their format says, or rejected',
  'Reading a section takes wavelength, flux, optional uncertainty (default 1) and optional validity flag (default valid) from each line up to a blank line or the end of input, ignores lines starting with #, % or !, and keeps exactly the data within the requested closed wavelength range in their order. '
  'A malformed line, or a section without any data, is reported as a failure of the stream and leaves previously read data in place.',
  'inputs', 'all texts of bounded length over the format alphabet, all numbers, all ranges',
  'tests read a few well-formed files',
  'core/section.cxx', [('Section::get', 'core/section.cxx')],
  'Numbers and ranges symbolic, line structure enumerated symbolically; number of lines bounded.')
p('C15', 'Spectral data are written in full and can be read back',
  'Writing a section produces for each datum within the requested closed range one line with the thirteen documented columns (wavelength, flux, uncertainty, mask flag, optical depth, absorption, convolved absorption, continuum, absorbed continuum, fit, residual, normalised flux, normalised uncertainty) in this order in scientific notation, and nothing for a failed stream. '
  'Sections written one after the other are separated by a blank line, and reading the text back restores number of sections, data, uncertainties and masks.',
  'inputs histories', 'all data values and masks, sections of bounded size, up to the listed number of sections',
  'tests do not check the written columns',
  'core/section.cxx', [('Section::put', 'core/section.cxx'), ('operator<<', 'core/section.cxx')],
  'Values symbolic; the number of sections and data bounded; decimal rounding of printed numbers outside the claim.')
p('C16', 'Model definitions are parsed completely or rejected with an error',
  'Parsing a model definition echoes the definition verbatim, assigns every parameter its value, bounds (in either order), fixed or free flag, and resolves a reference to the same parameter of the named section or line through any chain of references. '
  'Each section takes part with exactly those data of its file that lie within the stated closed wavelength range and in none of the stated excluded closed intervals, however many, and with the stated number of continuum terms. '
  'Duplicate section or line names, missing data files, unknown names, self references, reference cycles and syntax errors are all reported as an error, never ignored; parsing always terminates.',
  'inputs programs', 'all model definitions of bounded size over the grammar with symbolic numbers and names',
  'tests parse one valid example model',
  'core/model.h core/readline.h', [('Model::get', 'core/model.h')],
  'Symbolic numbers, flags and reference names; number of sections and lines bounded.')
p('C17', 'Every free parameter has one slot and references share it',
  'The optimisation vector has exactly one component for each free parameter that is not a reference, in order of appearance, starting at the middle of its bounds with half the bound width as step size, and constrained to its bounds. '
  'The cost of a vector is the sum of the costs of the sections, each evaluated with these components in place of free parameters (references share the component of their target) and with the stated values of fixed parameters; setting the result stores values and uncertainties likewise, with zero uncertainty for fixed parameters.',
  'inputs programs', 'all parameter vectors and bounds, all models of bounded size',
  'tests check the counts for one example model',
  'core/model.h', [('Model::cost', 'core/model.h'), ('Model::set', 'core/model.h'), ('get_constraint', 'core/model.h')],
  'Symbolic values; profile function and sections replaced by uninterpreted functions where needed; model size bounded.')
p('C18', 'The optimiser only evaluates and returns feasible points',
  'During a constrained optimisation every candidate evaluated in a generation satisfies the constraint, and candidates that violate it are resampled rather than evaluated or clipped. '
  'With a box constraint the returned parameter values lie within the bounds and the returned fitness is the value of the objective (plus constraint cost) at the returned parameter values.',
  'inputs histories', 'all objectives, random deviates, bounds and start points; bounded dimension, population and generations',
  'tests optimise a handful of benchmark functions without constraints',
  'core/optimize.h core/model.h', [('optimize', 'core/optimize.h'), ('Bounded_Constraint', 'core/model.h')],
  'Objective and deviates symbolic; bounded sizes, resampling attempts and generations.')
p('C19', 'Each generation performs the published evolution strategy update',
  'One generation of the optimiser maps its state (mean, step size, covariance, evolution paths) to exactly the state given by the published covariance matrix adaptation rules of Hansen and Ostermeier (2001) with the rank-mu update of Hansen (2014), using the best candidates weighted in order of fitness. '
  'The eigen-decomposition used for sampling is refreshed at the configured interval, with the condition number limited.',
  'inputs histories', 'all objectives, random deviates, states and weights; bounded dimension, population and generations',
  'tests only see whether the optimum is found, to which a strategy with a wrong coefficient still converges',
  'core/optimize.h', [('optimize', 'core/optimize.h')],
  'Exact arithmetic, exp and sqrt uninterpreted with laws; bounded dimension, population, generations.')
p('C20', 'Optimisation ends for the reported reason and only for that',
  'An optimisation ends with success exactly when the search distribution has contracted below the accuracy goal in every coordinate, with underflow only when a discarded candidate is as fit as the best (and always when all candidates are equally fit), and otherwise exactly at the stop generation; the flags and the generation number returned say which. '
  'Progress is traced exactly at the requested generations and at success, with the current fitness and smallest and largest step.',
  'inputs histories', 'all objectives and deviates; bounded dimension, population and generations',
  'tests check the success flag on easy problems only',
  'core/optimize.h core/optimizer.h', [('optimize', 'core/optimize.h')],
  'Bounded dimension, population and generations.')
p('C21', 'Maximising an objective equals minimising its negative',
  'For the same configuration, start and seed, and without a cost of constraints, maximising an objective visits the same points and returns the same parameter values, step sizes, covariance and uncertainties as minimising its negative, with the fitness negated.',
  'inputs histories', 'all objectives and random deviates; bounded sizes and generations',
  'tests maximise one function',
  'core/optimizer.h core/optimize.h', [('maximize', 'core/optimizer.h')],
  'Bounded sizes and generations; constraint cost zero.')
p('C22', 'Parallel evaluation is free of races and independent of the schedule',
  'The candidates of a generation, and the two probes of the uncertainty computation, are evaluated concurrently such that no two evaluations touch the same memory location with a write and every evaluation has finished before its result is used. '
  'The result of an optimisation is therefore the same for every interleaving of the evaluations, and an evaluation that fails ends the optimisation with its error.',
  'schedules inputs', 'all interleavings of the concurrent evaluations, all objectives; bounded population',
  'a test run sees the schedules the machine happens to choose',
  'core/optimize.h core/model.h core/section.h', [('optimize', 'core/optimize.h'), ('postopti', 'core/optimize.h'), ('Model::cost', 'core/model.h')],
  'Happens-before constraints over the accesses recorded in symbolic execution, decided by the solver; a thread runs in one piece at one of three times in the schedules compared; bounded population.')
p('C23', 'Optimiser configuration is consistent however it is built',
  'The strategy parameters of a configured optimiser depend only on problem dimension and parent number, not on the order in which settings were made, and equal the published formulas: positive weights decreasing with rank, learning rates between zero and one, damping above one. '
  'Setting the parent number makes the population twice as large unless it is set afterwards, every other setting is kept unchanged, and the defaults are restored on request.',
  'inputs histories', 'all sequences of settings of bounded length, all values of bounded size',
  'tests set one configuration in one order',
  'core/optimizer.cxx core/optimizer.h', [('Builder', 'core/optimizer.cxx')],
  'Settings symbolic within bounds; log uninterpreted with monotonicity.')
p('C24', 'Parameter uncertainties follow from the curvature of the objective',
  'After a successful optimisation the uncertainty of each parameter is the square root of its covariance diagonal element times the geometric mean, over the principal axes, of the step at which the objective rises by one half according to its second difference. '
  'Without success all uncertainties are zero.',
  'inputs', 'all objectives; bounded dimension and number of probe steps',
  'tests check uncertainties for simple quadratic functions',
  'core/optimize.h core/optimizer.h', [('postopti', 'core/optimize.h')],
  'Objective uninterpreted; bounded dimension and probe steps.')
p('C25', 'Symmetric eigenproblem wrappers honour the library contract',
  'Each eigenvalue decomposition wrapper passes the matrix, sizes, workspace and options to the linear algebra library as its contract requires, for every dimension, leaves the input matrix unchanged, and returns eigenvalues in ascending order with the matching eigenvectors. '
  'Each failure reported by the library becomes an error: a logic error for an illegal argument, a runtime error for an algorithmic failure.',
  'inputs fault_sequences', 'all matrices and all library outcomes (values and status codes) for dimensions up to the bound',
  'tests decompose one matrix; failures never occur',
  'core/decompose.cxx core/decompose.h', [('D_Decompose, R_Decompose, X_Decompose', 'core/decompose.cxx')],
  'The library is a contract-checking stub returning arbitrary values; dimension bounded.')
p('C26', 'Program runs report inputs, outcome and errors faithfully',
  'A modelling run echoes its command line, then the model definition, the log, a message and the result, each in its own delimited part of the output, takes seed, parents, population, step size, accuracy goal, stop generation and trace modulus from its seven arguments in this order, and exits with 0 only on success, 1 on underflow, 2 when stopped. '
  'Without arguments it prints its usage and succeeds; malformed arguments or models end with the documented error code and a message, without a result.',
  'inputs histories', 'all argument vectors of bounded size with symbolic values, all optimiser outcomes',
  'tests run one example per program and compare results',
  'core/runner.h core/runner.cxx core/exitcodes.h apps/curcuma.cxx apps/oregano.cxx apps/azafran.cxx apps/mascada.cxx', [('Runner::run', 'core/runner.h'), ('main', 'apps/curcuma.cxx')],
  'Optimiser outcome symbolic; argument values symbolic.')
p('C27', 'Extraction tools return exactly the delimited part of a result',
  'Each extraction tool prints exactly the lines between the opening and the closing tag of its part (command, data, log, message or model), unchanged and in order, and nothing else, for every input text. '
  'Several parts of the kind are all printed, an unclosed part extends to the end of input, and older tag names are honoured for models and messages where supported.',
  'inputs', 'all input texts with up to the listed number of lines',
  'tests extract from one example result',
  'apps/ecom.cxx apps/edat.cxx apps/elog.cxx apps/emes.cxx apps/emod.cxx', [('main', 'apps/emod.cxx')],
  'Lines symbolic among tags, near-tags and text; number of lines bounded.')
p('C28', 'Tabular spectra are read and written column by column',
  'Reading a table skips the requested number of lines and takes two or three numbers from each remaining line, in order, with zero for a missing third number; any malformed line or an empty table is reported as a failure of the stream and leaves the result untouched. '
  'Writing a table prints one line per datum with the wavelength in fixed and flux (and uncertainty if any) in scientific notation, keeps the stream settings, and can be read back.',
  'inputs', 'all numbers, all texts of bounded size',
  'tests read and write one table',
  'core/dataio.cxx', [('get', 'core/dataio.cxx'), ('put', 'core/dataio.cxx')],
  'Numbers symbolic; number of lines bounded.')
p('C29', 'Conversion tools transform every datum and signal bad input',
  'The air-to-vacuum, vacuum-to-air and heliocentric tools apply their conversion to each wavelength of a table and keep flux and uncertainty, and the merge tool combines the flux of one table with the uncertainty of another, all honouring the optional number of lines to skip. '
  'Wrong arguments, missing or malformed input and mismatched tables yield the documented exit codes and no result; no arguments prints the usage where documented.',
  'inputs', 'all numbers and arguments, tables of bounded size',
  'tests run one table through each tool',
  'util/airtovac.cxx util/vactoair.cxx util/helicorr.cxx apps/ezip.cxx', [('main', 'util/airtovac.cxx'), ('main', 'apps/ezip.cxx')],
  'Numbers symbolic; number of lines bounded.')
p('C30', 'Line and record reading follows the grammar and is all or nothing',
  'Reading a line with a comment mark removes everything from the mark to the end of the line and skips lines in which nothing but white space remains; without a comment mark lines are returned unchanged. Reading records appends (or assigns) exactly the requested number of complete records to all lists, with an optional trailing word, or changes none of them and reports failure.',
  'inputs', 'all character sequences of bounded length, all numbers, bounded record counts',
  'tests read a few fixed strings',
  'core/readline.h core/readline.cxx', [('readline', 'core/readline.cxx'), ('read', 'core/readline.h')],
  'Characters and numbers symbolic; lengths bounded.')
p('C31', 'The result table shows the fitted values and their uncertainties',
  'The result document lists every section with its name, range, number of continuum terms, resolution, number of valid data, cost and cost per datum, and every line with its name, observed wavelength rest x (1+z)(1+v/c) (with the uncertainty propagated from redshift and velocity when the rest wavelength, which is positive, is fixed), all its parameters and equivalent width, each value in the column of its heading. '
  'Free and referenced parameters are shown with their uncertainty, fixed parameters without; the fitted spectra are embedded in the document.',
  'inputs programs', 'all fitted values and uncertainties, models of bounded size',
  'tests do not look at the table',
  'core/model.h', [('Model::put', 'core/model.h')],
  'Values symbolic; model size bounded; decimal rounding outside the claim.')
p('C32', 'Equivalent width is the integral of the absorbed fraction',
  'The equivalent width of a line is twice the integral, from its centre to infinity, of one minus the exponential of minus its optical depth, divided by its redshift factor and by the requested unit prefix, for every profile. Convolving a profile with a kernel integrates the exponential of minus the shifted optical depth times the kernel over the whole line.',
  'inputs', 'all profiles (an uninterpreted optical depth) and scales',
  'tests compute one width per profile kind',
  'core/profiles.h core/integrator.h', [('Equivalent_Width_Calculator', 'core/profiles.h')],
  'Optical depth and quadrature uninterpreted.')

NA = []  # (id, reason)


def n(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech, None)
    NA.append((id, reason))


n('C33', 'The evolution strategy converges to an optimum',
  'On well-behaved objectives the optimiser converges to a local optimum within the accuracy goal with probability one.',
  'inputs histories', 'all smooth unimodal objectives, all seeds',
  'tests sample a few benchmark functions with one seed',
  'core/optimize.h', [('optimize', 'core/optimize.h')],
  'A limit statement over unboundedly many generations of a stochastic process; no bounded symbolic execution decides it (what one generation does is C19, and how a run ends is C20).')
n('C34', 'The linear algebra library computes accurate decompositions',
  'Eigenvalues and eigenvectors of every symmetric matrix are accurate to machine precision.',
  'inputs', 'all symmetric matrices',
  'tests decompose one matrix',
  'core/decompose.cxx', [('D_Decompose', 'core/decompose.cxx')],
  'The algorithms are in LAPACK, of which only the binary is installed: it is not code of this repository and has no source here to encode (the contract at its boundary is C25).')
n('C35', 'Approximate Voigt profiles are accurate to the stated error',
  'The approximate Voigt functions differ from the convolution of a Gaussian and a Lorentzian by no more than the published error.',
  'inputs', 'all widths and positions',
  'tests sample few points',
  'core/profiles.cxx', [('Extended_Pseudo_Voigt', 'core/profiles.cxx')],
  'The true profile is a transcendental integral that no available solver theory expresses; only the defining formulas are decided (C09).')

BUILT = open(os.path.join(ROOT, 'tools', 'built.txt')).read().split()
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d, note in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
na = dict(NA)
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[],
         notes='Solver-based checking only: LLVM IR of the real code is executed symbolically (esym), assertions are decided by z3 or by '
               'polynomial normal forms, counterexamples are replayed on natively compiled code. See DESIGN.md.')
for d, note in P:
    i = d['id']
    if i in na:
        m['not_applicable'].append(dict(property=i, reason=na[i]))
    elif i in BUILT:
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                                thorough_cmd='python3 check.py %s --tier thorough' % i,
                                technique='symbolic execution of LLVM IR + SMT (z3)', level='model_checking',
                                level_note=note + ' Trusted: clang IR generation, the stream/exception models in /verif/model, the libm laws, z3; double arithmetic is '
                                'real arithmetic unless stated.'))
    else:
        m['not_applicable'].append(dict(property=i, reason='The check for this property is not built yet.'))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
