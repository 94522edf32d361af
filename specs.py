SAN = "sanitized execution of the real sources"
SPECS = {}
def spec(pid, technique, note, rule, runs, level="exploration", assumptions=()):
    SPECS[pid] = dict(technique=technique, note=note, rule=rule, runs=runs, level=level, assumptions=list(assumptions))

spec("C06", "runtime monitor: dense reference model of index notation over random tensors, under ASan+UBSan",
     "Held on the random shapes, index patterns and chains explored in this run; trusts the 60-line einsum model in the harness.",
     "random shapes (rank 0-5, dims 1-5), random index patterns with shared/raised indices, chains of three; a case is non-trivial/distinct by its shape or index pattern and operation",
     [dict(variant="asan", harness=["C06.cpp"])])

spec("C01", "runtime monitor: independent long-double evaluator with running error bound over random formulas, under ASan+UBSan",
     "Held on the random formulas and the operator/function tables explored in this run; cases whose conditioning makes a double evaluation meaningless (branch cuts, cancellation) are skipped and counted.",
     "random formulas of depth 1-8 over parameters, complex parameters, lambdas and constants; distinct by formula text; plus every operator and function over a table of special values",
     [dict(variant="asan", harness=["C01.cpp"])],
     assumptions=["constants below 2.2e-16 in modulus count as zero when expressions are folded (documented by the code's own threshold)"])

spec("C04", "runtime monitor: random formulas simplified and normal-ordered, values compared with an independent evaluator for several parameter assignments, under ASan+UBSan",
     "Held on the random polynomials, rational functions, groups of nearly equal terms and general formulas explored in this run.",
     "random formulas (polynomial, rational, general, groups of terms equal up to prefactor or late digits), each under 3 assignments and 6 transformations; distinct by formula text",
     [dict(variant="asan", harness=["C04.cpp"])],
     assumptions=["constants below 2.2e-16 in modulus count as zero when expressions are folded"])
spec("C05", "runtime monitor: derivative rules compared with Richardson-extrapolated complex difference quotients in long double, under ASan+UBSan",
     "Held at the random real and complex points explored, away from cuts and singular points.",
     "random real and complex points per elementary function; distinct by function and point",
     [dict(variant="asan", harness=["C05.cpp"])])

spec("C02", "runtime monitor: generated, compiled and loaded functions compared with an independent evaluator for random formulas, events and parameters (scalar, tensor, vectorised, batch), host code under ASan+UBSan",
     "Held on the random formulas, events and parameter values explored; formulas are restricted to argument domains on which the generated real-typed code is defined.",
     "random formulas with shared sub-expressions compiled in groups, several parameter sets and events each; distinct by formula text",
     [dict(variant="asan", harness=["C02.cpp"]), dict(variant="asans", harness=["C02.cpp"])],
     assumptions=["the system compiler g++ is correct", "generated code is judged to a condition-aware tolerance because it is compiled with -Ofast"])

spec("C03", "runtime monitor: online checker of parameter-change histories against compiled functions (value and change flag after every step), under ASan+UBSan",
     "Held on the random histories explored.",
     "random histories of set/fix/reset/prepare/copy steps over groups of compiled functions sharing parameters, links, lambdas and splines; distinct by formula and kind of step",
     [dict(variant="asan", harness=["C03.cpp"])], assumptions=["the system compiler g++ is correct"])

spec("C07", "runtime monitor: every lane of every vector operation compared with the scalar operation (long double reference), under ASan+UBSan",
     "Held on the random operands explored, for the double (AVX2d) and single precision (AVX2f) vector types; AVX-512 and ARM types cannot run here.",
     "random vectors mixing magnitudes, signs, zeros and exact integers lane by lane; distinct by operand vectors",
     [dict(variant="asan", harness=["C07.cpp"], sources=[])], assumptions=["libmvec is accurate to its documented 4 ulp"])

spec("C08", "runtime monitor: every answer of the particle database compared with an independent reading of its tables (shipped and generated), under ASan+UBSan",
     "Held for every entry of the shipped tables (complete) and for the generated user tables, imports, aliases and lookup orders explored.",
     "every shipped entry by name and number; random well-formed tables with comments, imports, aliases, user-defined particles, unknown lookups; distinct by entry and way of lookup",
     [dict(variant="asan", harness=["C08.cpp"])])

spec("C09", "runtime monitor: quark-content operations compared with sets of flavour vectors, under ASan+UBSan",
     "Held on the random content strings and combinations of table particles explored; the charge rule is checked for every table entry with known quarks.",
     "random content strings with alternatives and random triples of table particles; distinct by content",
     [dict(variant="asan", harness=["C09.cpp"])])

spec("C10", "runtime monitor: random decay trees written, parsed, printed, reordered, conjugated, indexed and collapsed, each compared with an independent tree model, under ASan+UBSan",
     "Held on the random trees explored (any particle of the table, 1-5 daughters, up to four levels, modifiers); siblings with the same name but different decays are not ordered by the property.",
     "random trees; distinct by topology and kinds of modifiers",
     [dict(variant="asan", harness=["C10.cpp"])])

spec("C11", "runtime monitor: couplings, ranges, defaults and reports of two-body decays compared with angular momentum, parity, charge and flavour rules evaluated independently, under ASan+UBSan",
     "Held on all spin-parity classes (complete in the thorough tier, sampled in quick) and on the random triples of table particles explored.",
     "one random representative per (spin, parity) class and triple of classes; random triples weighted to conserving ones; distinct by quantum numbers and interaction",
     [dict(variant="asan", harness=["C11.cpp"])])

spec("C15", "runtime monitor: every helper compared with a direct implementation of its definition on random inputs, under ASan+UBSan",
     "Held on the random texts, numbers, permutations, files and argument packs explored; strings without embedded NUL characters.",
     "random strings over small alphabets (so that coincidences are frequent), numbers of every magnitude including boundaries, permutations, files; distinct by input",
     [dict(variant="asan", harness=["C15.cpp"], sources=["Utilities"]), dict(variant="tsan", harness=["C15.cpp"], sources=["Utilities"], thorough_only=True)])

spec("C12", "runtime monitor: histories of imports, arguments and command lines, the complete option state after every step compared with a model that knows what was written; typed access compared with independent conversions, under ASan+UBSan",
     "Held on the random histories explored; values are non-empty, command-line values contain neither quotes nor hashes, and a bare flag is followed by another option or nothing.",
     "random options files (comments, quoting, continuation, nested imports, repetitions), setArg and command lines, every type and boundary value; distinct by text of the step",
     [dict(variant="asan", harness=["C12.cpp"])])

spec("C13", "runtime monitor: random histories of every operation on a parameter set, the complete state after every step compared with a list model; parameters read from options and files compared with what was written, under ASan+UBSan",
     "Held on the random histories explored; names are only changed through the set.",
     "random histories of add, duplicate add, remove, rename, set, fix, reset, copy and minuit mapping; random options and files; distinct by operation and operand",
     [dict(variant="asan", harness=["C13.cpp"])])

spec("C14", "runtime monitor: random formulas written as text from a tree, parsed and compared with an independent long-double evaluation of that tree, over histories of parameter changes, under ASan+UBSan",
     "Held on the random formulas explored; ill-conditioned or undefined cases are skipped and counted; chains of ^ are always bracketed.",
     "random trees of depth 1-6 written with minimal or redundant brackets and random spacing; cartesian, polar and degree couplings; definitions in terms of other definitions; distinct by text",
     [dict(variant="asan", harness=["C14.cpp"])], assumptions=["functions bind tighter than operators; a minus sign directly before a number belongs to the number"])

spec("C16", "runtime monitor: rotation functions compared with exponentials of the spin generators, coupling coefficients with states built by lowering operators, helicity sums with unit probability, under ASan+UBSan",
     "Held for every spin, projection and coupling in the stated ranges (coefficients complete up to spin 3.5 quick / 6 thorough) and at the random angles explored.",
     "all projections of spins 0-4 (quick) at random and special angles; all pairs of spins; all (J,L,S,s1,s2) up to 5/2 and 2; random two-body decays at random angles; distinct by spins and angles",
     [dict(variant="asan", harness=["C16.cpp"])])

spec("C17", "runtime monitor: random sequences of boosts and rotations built in every way, the matrices of all three representations compared with each other and with Rodrigues' formula, rest-frame and event transformations checked, under ASan+UBSan",
     "Held on the random transformations explored (up to five, boosts up to gamma 20); tolerances grow with the boost.",
     "random sequences of 0-5 transforms with constant and symbolic arguments; random momenta along axes, at rest and general; distinct by transformation",
     [dict(variant="asan", harness=["C17.cpp"], extra=["Kinematics"])])

spec("C18", "runtime monitor: gamma matrices, projectors, external spin states and every registered vertex evaluated numerically and compared with a dense long-double Dirac algebra; covariance, linearity, parity, transversality and exchange checked on transformed copies, under ASan+UBSan",
     "Held on the random momenta and spin states explored, for every vertex in the registry; massless spin-1/2 states are outside the property.",
     "random momenta (general, along and against z, at rest, transverse), random complex spin states with constant and symbolic components; distinct by momentum and vertex",
     [dict(variant="asan", harness=["C18.cpp"])])

spec("C19", "runtime monitor: amplitudes of decay chains evaluated on events and on their rotated, boosted, exchanged, relabelled and conjugated copies; rates and phases compared, formalisms compared, flags checked against their definition, under ASan+UBSan",
     "Held for the decay chains listed in the harness and the random events explored, in both spin formalisms and both spin bases.",
     "decay chains with two to four products, mesons and baryons, S to D waves; random on-shell events; distinct by chain and event",
     [dict(variant="asan", harness=["C19.cpp"])])

spec("C20", "runtime monitor: every lineshape, running width, barrier factor and phase-space function evaluated symbolically and as compiled code and compared with long-double formulas derived independently (barriers from Bessel polynomials, Gounaris-Sakurai from its h function, phase space from dispersion and spectral integrals), names and defaults of all parameters recorded, under ASan+UBSan",
     "Held on the random masses, widths, radii, orbital momenta and invariant masses explored; shapes whose formula is real only above threshold are evaluated above it.",
     "thirteen resonances, every registered single-resonance shape and modifier, orbital momentum 0-4, random parameters and table defaults, below and above threshold and near the pole; distinct by shape and arguments",
     [dict(variant="asan", harness=["C20.cpp"])])

spec("C21", "runtime monitor: propagators, scattering and production amplitudes of random K-matrices (any channels and poles) compared with a dense long-double calculation; unitarity, symmetry, threshold continuation and the elastic circle checked on the observed values, symbolic and compiled, under ASan+UBSan",
     "Held on the random K-matrices and invariant masses explored; points where the linear system is ill-conditioned (tolerance above 1e-4) are skipped.",
     "1-6 channels, 0-5 poles, backgrounds, the five channel isoscalar amplitude with published and random parameters, K-pi amplitudes, configurable and simple K-matrices, elastic amplitudes; distinct by configuration and invariant mass",
     [dict(variant="asan", harness=["C21.cpp"])])

spec("C22", "runtime monitor: compiled splines compared with an independently solved natural spline in long double at, next to and between knots and after parameter changes; rational approximations, cubature rules (scalar and vector code), one-dimensional and principal-value integrals compared with closed forms; compensated sums compared with exact sums, under ASan+UBSan",
     "Held on the random knots, functions, boxes and sequences of terms explored; the tolerance of the rational approximation grows with the conditioning of its linear system; integration is judged at 1e-8 (1e-5 for peaks and more than three dimensions).",
     "splines with 2-40 knots, rational approximations of order 1-4 in all four sampling strategies, dimensions 1-12 for the rule and 1-5 for adaptive integration, sums of up to 20000 terms with exponents from -12 to 100; distinct by arguments",
     [dict(variant="asan", harness=["C22.cpp"]), dict(variant="asans", harness=["C22.cpp"])])

spec("C23", "runtime monitor: recorded submit/begin/end events of every task checked against an exactly-once specification, results and exceptions read back through the handles, with many submitters, workers, nested submissions, destruction and explicit waits at awkward moments, under ThreadSanitizer (races) and ASan+UBSan",
     "Held on the interleavings the operating system produced for the random loads, delays and yields explored; waiting times are bounded (a task not run within 20-30 s counts as lost).",
     "1-16 workers, 1-6 concurrent submitters, up to 720 tasks per pool with results, exceptions and no result, three kinds of ending, pools switched off or without workers, concurrent pools, parallel sort and accumulate; distinct by observed execution order",
     [dict(variant="tsan", harness=["C23.cpp"], sources=["ThreadPool", "Utilities", "OptionsParser", "ParticlePropertiesList", "ParticleProperties", "QuarkContent", "Units"]), dict(variant="asan", harness=["C23.cpp"], sources=["ThreadPool", "Utilities", "OptionsParser", "ParticlePropertiesList", "ParticleProperties", "QuarkContent", "Units"])])

spec("C24", "runtime monitor: random histories of container operations mirrored on plain vectors and compared after every step; the block iterator run on a recording store; projections, trees and cached function values compared with direct calculation, under ASan+UBSan, in vector and scalar builds",
     "Held on the random histories, event counts (0-40, all remainders of the vector width) and event types explored; trees and histograms are small in-memory stand-ins for ROOT's.",
     "up to 10 operations per history on events, event lists, vector event lists and stores of four element types in both layouts; iterators of width 1-8 stopped anywhere; distinct by history",
     [dict(variant="asan", harness=["C24.cpp"], extra=["EventList","EventListSIMD","Projection","TreeReader","EventType","PhaseSpace"]), dict(variant="asans", harness=["C24.cpp"], extra=["EventList","EventListSIMD","Projection","TreeReader","EventType","PhaseSpace"])])

spec("C25", "runtime monitor: every generated event checked for conservation and mass shells; averages of invariants and directions of the samples compared with an independent weighted generator and with flat Dalitz plots; stated densities of decay chains recomputed; outcomes of discrete distributions counted and swept exactly; runs with equal random state compared, under ASan+UBSan",
     "Held on the masses, decay chains and random states explored; distributions are judged at 6.5 standard deviations of samples of a few thousand events.",
     "2-18 bodies near and far from threshold with massless particles, twelve sets of decay chains (shared final states, identical particles, nested and non-resonant), long-lived intermediates, three kinds of event generator with and without a density; distinct by masses, chain and random state",
     [dict(variant="asan", harness=["C25.cpp"], extra=["EventList","EventListSIMD","Projection","TreeReader","EventType","PhaseSpace","RecursivePhaseSpace","TreePhaseSpace","DiscreteDistribution","Generator","Kinematics"])])

spec("C26", "runtime monitor: amplitudes, normalisation integrals, probabilities, fit fractions and likelihoods of compiled models compared after every step of random parameter-change histories with a long-double evaluation of the amplitude expressions over the same samples; couplings of random rule sets compared with an independent expansion; conjugated couplings compared with their originals, under ASan+UBSan",
     "Held on the models, parameter histories, samples and rule sets explored; whole amplitudes are judged to 1e-8 of their size.",
     "five models (three- and four-body, identical particles, hierarchical rules), random samples of 1-29 weighted events, histories of coupling, lineshape, yield, sample and reset steps; fourteen amplitudes in both formalisms and bases; random parts of rule sets in cartesian and polar coordinates; distinct by model and history",
     [dict(variant="asan", harness=["C26.cpp"], sources="all"), dict(variant="asans", harness=["C26.cpp"], sources="all", thorough_only=True)])

spec("C27", "sanitizers: AddressSanitizer and UndefinedBehaviorSanitizer watch while mutated descriptors, formulas, options, tables, parameter files, lineshape names, tensor shapes, index sets, spin states and event types are fed to the library; a monitor classifies every attempt as processed, reported or rejected, bounds its time, and compares a set of ordinary results before and after",
     "Held on the mutations explored (up to eight edits of valid inputs, spliced with hostile tokens); a read inside an allocated object but outside its logical part is not seen.",
     "19 decay descriptors, 18 formulas, 31 kinds of option, 5 table lines, 46 lineshapes and their mutations, random tensor shapes of rank 0-3 and index sets, spin states, event types, self-importing files; distinct by input",
     [dict(variant="asan", harness=["C27.cpp"], sources="all")])

spec("C28", "runtime monitor: every function of a run is different, and after each step of random sequences of compilations (equal and clashing names, temporary and given files, sets, cached libraries, copies, stand-in compilers that fail in fourteen ways, interrupted waits) each ready function is called and compared with its own expression; file descriptors, children and repeated output are watched; ASan+UBSan, and ThreadSanitizer over concurrent compilations and amplitude building",
     "Held on the sequences, names, faults and schedules explored; libraries rewritten under a path this process has already loaded, and two processes sharing a file name, are outside.",
     "sequences of 14-90 compilations, 54 names, 6 pairs of names that become one symbol, 14 faulty compilers x 5 ways of compiling, timers of 5-60 ms during compilation, 400-6000 steps of library handles, 6-8 threads x 2-4 functions, models of six amplitudes built by 4-16 threads; distinct by case",
     [dict(variant="asan", harness=["C28.cpp"]), dict(variant="tsan", harness=["C28sums.cpp"], sources="all")])

spec("C29", "runtime monitor: probabilities, normalisations, components, fractions and likelihoods of compiled sums over spin and flavour states compared after every step of random histories with a long-double evaluation of the amplitudes of every spin state and density matrices written from the spin operators; events rotated together with the polarisation; the libraries generated from models opened and compared with the models; under ASan+UBSan",
     "Held on the models, histories, rotations and generated libraries explored; probabilities are judged to 1e-7 of the sum of squared amplitudes.",
     "eight models (spin 0, 1/2 and 1, photons, identical fermions, flavour states, final-state polarisation fractions), weighted samples of 1-50 events, histories of coupling, lineshape, polarisation, yield, sample and reset steps, rotations about random and coordinate axes, generated libraries of seven models at random parameter values; distinct by model and history",
     [dict(variant="asan", harness=["C29.cpp"], sources="all"), dict(variant="asans", harness=["C29.cpp"], sources="all", thorough_only=True)])

spec("C30", "runtime monitor: propagated errors, covariances, correlations and combinations compared with linear propagation in long double on functions whose differences are exact; perturbed parameters averaged; decision-tree binnings counted, written, read and compared point by point; chi-squares recomputed; Dalitz coordinates, densities and integrals compared with closed forms and Gauss-Legendre sums; decay angles recomputed in rest frames, rotated, boosted and mirrored; under ASan+UBSan",
     "Held on the covariances, samples, masses and events explored; statistical comparisons at 6.5 standard deviations.",
     "1-8 parameters with random covariances (some singular or diagonal), up to four functions, sums of propagators; samples of 1-4000 points in 1-6 dimensions of four kinds (with and without ties), 1-33 events per bin, three kinds of tree; Dalitz plots with equal and massless particles near and far from threshold asked for in four ways; 4-5 particle events, some in a plane; distinct by case",
     [dict(variant="asan", harness=["C30.cpp"], sources="all"), dict(variant="asans", harness=["C30.cpp"], sources="all")])

spec("C31", "runtime monitor: the real Minimiser and FitResult driven against a recording minimiser on quadratic forms with Gaussian constraints; offered variables, evaluated values, minima, uncertainties and covariances compared with closed forms; constraint terms recomputed from their definitions; results written, read, copied and compared; options written and loaded; under ASan+UBSan",
     "Held on the fits, constraints and results explored; CERN ROOT's Minuit is replaced by a recording stand-in.",
     "1-9 parameters of every flag with and without limits and blinding offsets, 0-3 constraints, refits with other parameters floating; explicit and PDG constraints on every particle with uncertainties and malformed ones; results with values over eleven decades; options with real and complex parameters, rewritten from an input and from nothing; distinct by case",
     [dict(variant="asan", harness=["C31.cpp"], sources="all", extra=["Minimiser","FitResult"])])
