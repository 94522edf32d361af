#!/usr/bin/env python3
"""Source of properties.jsonl (run after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b) for a, b in (state or [])], observe_at=observe, hook_needed=None)))

p("C01", "A symbolic expression evaluates to the formula it was written as",
  "Evaluating an expression built from constants, parameters, arithmetic, comparisons, conditionals and the provided mathematical functions gives the value of that formula in ordinary complex arithmetic, whatever folding or rewriting was applied while it was built. Evaluating an expression never alters it. (A folded constant part smaller than the double-precision epsilon, 2.2e-16, counts as zero.)",
  ["inputs", "programs"], "all expression trees over all operand values, including 0, 1, -1, purely imaginary, tiny and huge constants, and every order of building them",
  "Tests look at the text of a handful of expressions; constant folding, identity elimination and shared sub-trees interact over arbitrary trees and values.",
  ["AmpGen/Expression.h", "src/Expression.cpp", "src/BinaryExpression.cpp", "src/UnaryExpression.cpp"],
  [("building with folding", "src/BinaryExpression.cpp operators"), ("evaluation", "IExpression::operator()")],
  ["value of Expression::operator()() against an independent std::complex evaluation of the generated formula"])
p("C02", "Run-time compiled code computes the same value as the expression",
  "For every expression, the function generated, compiled and loaded at run time returns, for every event and every parameter value, the value that evaluating the expression itself gives, to within rounding. This holds for real and complex results, for tensors, for the vectorised and the scalar form, for single events and for whole batches, and no matter how many sub-expressions are shared, cached or hoisted out of the per-event code. Asking for named intermediate values for debugging reports the values of those expressions and leaves the function as it is.",
  ["inputs", "programs", "configurations"], "all expressions, parameter values and events; one or many compilations in a process; batch sizes that are or are not a multiple of the vector width",
  "No test compiles an expression and compares values; common-subexpression elimination, literal formatting and argument addressing depend on the whole tree.",
  ["src/ASTResolver.cpp", "src/CompiledExpressionBase.cpp", "AmpGen/CompiledExpression.h", "src/CompilerWrapper.cpp", "AmpGen/DynamicFCN.h"],
  [("sub-tree resolution", "ASTResolver::getOrderedSubExpressions"), ("code emission", "CompiledExpressionBase::to_stream"), ("compile and load", "CompilerWrapper::compile")],
  ["return value of the loaded symbol vs tree evaluation with the same inputs"])
p("C03", "Parameter changes reach every compiled function that depends on them",
  "After a parameter value is changed and the function is prepared again, the compiled function returns the value for the new parameters and nothing else has changed; preparing twice or preparing after changing unrelated parameters leaves its value unchanged. The function reports that its inputs changed (hasExternalsChanged, until it is reset) whenever a parameter that it depends on has taken a different value, and does not report a change when all of them have the same values.",
  ["histories", "inputs"], "all sequences of parameter changes, fixes, resets and preparations across several functions sharing parameters",
  "Tests never change a parameter after compiling; staleness only shows over sequences of updates.",
  ["src/CacheTransfer.cpp", "AmpGen/CacheTransfer.h", "AmpGen/CompiledExpression.h", "src/ASTResolver.cpp", "src/MinuitParameter.cpp"],
  [("transfer of parameter values", "CacheTransfer.cpp"), ("prepare and change flag", "CompiledExpression::prepare/setExternal/hasExternalsChanged")],
  ["value and change flag of the compiled function after each step of the history"])
p("C04", "Simplification and reordering never change an expression's value",
  "Simplifying, expanding or normal-ordering an expression yields an expression with the same value for every assignment of its parameters. Doing it a second time leaves the value unchanged as well.",
  ["inputs", "programs"], "all sums, products, quotients and powers of parameters, constants and functions, for all parameter values",
  "Tests compare the text of two simplified products; the rewriting rules interact over arbitrary trees.",
  ["src/Simplify.cpp", "AmpGen/Simplify.h"], [("normal ordering", "NormalOrderedExpression"), ("entry point", "Simplify()")],
  ["value before and after simplification at random parameter points"])
p("C05", "The derivative rules of the elementary functions are the true derivatives",
  "The derivative rule d() attached to each elementary function (log, exp, sqrt, 1/sqrt, sin, cos, tan, asin, acos, atan) is the mathematical derivative of that function with respect to its argument at every point of its domain, for real and complex arguments and for arguments that are themselves expressions. Taking the derivative leaves the original expression unchanged.",
  ["inputs", "programs"], "all argument expressions of the elementary functions and all points of their domain",
  "No test differentiates anything; each function carries its own derivative rule.",
  ["src/Expression.cpp", "src/BinaryExpression.cpp", "src/UnaryExpression.cpp"], [("d() of each node", "UnaryExpression.cpp, BinaryExpression.cpp")],
  ["d(expr, parameter) evaluated against Richardson-extrapolated differences and against an independent dual-number evaluation"])
p("C06", "Tensor algebra obeys the rules of index notation",
  "Sums, scalar multiples, contractions, index reordering, symmetrisation, dot products, inverses, the identity and the Levi-Civita tensor have, element by element, the values index notation defines, with the metric (-,-,-,+) applied exactly where an index is contracted with its raised counterpart. Linear positions and coordinates are in one-to-one correspondence for every shape.",
  ["inputs", "programs"], "all shapes and ranks, all patterns of free, shared, raised and lowered indices, all orders of chaining",
  "Tests contract a few square tensors; shapes with differing dimensions, scalars inside a chain and mixed symmetric storage are never reached.",
  ["src/Tensor.cpp", "AmpGen/Tensor.h"], [("contraction", "operator*(TensorProxy,TensorProxy)"), ("index maps", "Tensor::index_to_coordinates"), ("inverse", "Tensor::Invert")],
  ["numeric value of every element against a dense reference model, under address and undefined-behaviour sanitizers"])
p("C07", "Vector arithmetic equals scalar arithmetic lane by lane",
  "Every operation on vectorised real and complex numbers (arithmetic, comparison, masking and selection, roots, exponentials, logarithms, trigonometry, remainder, absolute value, gather, conversion) produces in each lane what the corresponding scalar operation gives for that lane's operands, independently of what the other lanes hold. Loading, storing and addressing individual lanes never mixes lanes.",
  ["inputs"], "all operand combinations, including mixed signs, zeros, negative reals, huge and tiny magnitudes, in any lane",
  "The simd tests try a few fixed vectors; lanes and branches interact only on mixed inputs.",
  ["AmpGen/simd/avx2d_types.h", "AmpGen/simd/utils.h", "AmpGen/Complex.h", "AmpGen/simd/iterator.h"],
  [("real vectors", "AVX2d::real_v"), ("complex vectors", "Complex<real_v>"), ("lane utilities", "simd/utils.h")],
  ["each lane compared with the scalar computation on that lane"])
p("C08", "The particle database is self-consistent and closed under conjugation",
  "Every listed particle is found by its name and by its number and both lead to the same properties; conjugating twice gives the particle back; a particle and its antiparticle have equal mass, width, spin and opposite charge and quark content, and a particle is its own antiparticle exactly when the table says so. Mass, width, lifetime, charge, spin and parity read back as the table states them, and looking up an unknown particle is reported without disturbing the others.",
  ["inputs", "histories"], "every entry of the particle tables, every lookup order, and any well-formed table a user supplies",
  "Tests query a few named particles.",
  ["src/ParticleProperties.cpp", "src/ParticlePropertiesList.cpp", "AmpGen/ParticlePropertiesList.h", "options/mass_width.csv"],
  [("table parsing", "ParticleProperties ctor"), ("mappings", "ParticlePropertiesList::makeMappings")],
  ["whole-table sweep against an independent reading of the same file"])
p("C09", "Quark content is an additive, conjugation-odd quantum number",
  "The quark content of a set of particles is the sum of the individual contents whatever the order of addition, conjugating negates it, and adding a particle to its antiparticle gives no net flavour. Two states are considered compatible exactly when some admissible assignment of their quark contents agrees, and the electric charge implied by the content is the particle's charge.",
  ["inputs"], "all contents that can be written down and all combinations of particles of the table",
  "Tests check three particles.",
  ["src/QuarkContent.cpp", "AmpGen/QuarkContent.h"], [("states", "QuarkState"), ("sums of states", "QuarkContent")],
  ["algebraic identities over the whole table and random combinations"])
p("C10", "Decay descriptors parse to the decay they describe and print back to it",
  "Parsing a decay descriptor produces exactly the tree, orbital angular momenta, spin factors and modifiers it spells out, independently of the order in which distinguishable daughters are written, and printing that decay gives a descriptor that parses to an equal decay. Conjugation maps each particle to its antiparticle everywhere, is undone by a second conjugation, keeps the order in which the daughters of flavoured particles are listed, and commutes with parsing and printing; equality of decays is an equivalence relation that agrees with their printed form. Changing a decay through its interface (renaming, adding, replacing, expanding or clearing decay products, copying it deeply) gives the same as parsing the descriptor of the result.",
  ["inputs"], "all well-formed descriptors over the particle table, arbitrary nesting, daughter orders and modifiers",
  "Tests parse a few fixed descriptors.",
  ["src/Particle.cpp", "AmpGen/Particle.h", "AmpGen/AmplitudeRules.h"], [("parsing", "Particle::Particle / parseModifier"), ("printing", "Particle::decayDescriptor / makeUniqueString"), ("conjugation", "Particle::conj")],
  ["public accessors of the parsed tree against the generator's own tree"])
p("C11", "Quantum numbers decide which decay couplings are allowed",
  "The orbital momentum and spin combinations offered for a two-body decay are exactly those that conserve angular momentum, and with parity conservation required exactly those that also conserve parity; the default is the smallest allowed orbital momentum, where parity is required if and only if the decay conserves flavour, and an explicitly chosen higher value is kept. A decay that violates charge conservation or has no allowed combination is reported, while a conserving one is accepted silently.",
  ["inputs"], "all pairs of daughters and all mothers of the table, all requested orbital and spin quantum numbers",
  "Tests use one or two decays.",
  ["src/Particle.cpp", "src/QuarkContent.cpp", "src/ParticleProperties.cpp"], [("allowed range", "Particle::orbitalRange / spinOrbitCouplings"), ("conservation", "Particle::checkExists / isWeakDecay")],
  ["enumeration of the triangle and parity rules over the table"])
p("C12", "Options mean what the options file and command line say",
  "Every setting read from options files and the command line is available under its key with exactly the values written, converted faithfully to the requested type; comments, blank lines, quoting, imports and continued lines do not change other settings, and when a key is given more than once the result follows the documented rule independently of where the repetition occurs. A missing setting yields the caller's default, and a malformed one is reported instead of being silently replaced.",
  ["inputs", "histories", "configurations"], "all sequences of option lines, files importing one another, command-line overrides, and requested types",
  "Tests read a few settings of one type.",
  ["src/OptionsParser.cpp", "src/NamedParameter.cpp", "AmpGen/NamedParameter.h"], [("line parsing", "OptionsParser::import / addArg"), ("typed access", "NamedParameter")],
  ["values read back against the generated option set"])
p("C13", "A parameter set stays consistent through any sequence of changes",
  "After any sequence of adding, removing, renaming, resetting and copying parameters, lookup by name, iteration by position and the reported size describe the same set: every name is present once, maps to the parameter holding that name, and removed parameters are gone. Values, errors, limits, fixed flags and initial values read back as last set, and parameters read from options or expressions are created with the stated values.",
  ["histories", "inputs"], "all interleavings of operations on one or several parameter sets",
  "No test manipulates a parameter set.",
  ["src/MinuitParameterSet.cpp", "src/MinuitParameter.cpp", "src/MinuitExpression.cpp", "AmpGen/MinuitParameterSet.h"], [("key map and vector", "MinuitParameterSet")],
  ["public view of the set against a reference map after every operation"])
p("C14", "Textual formulas are read with the usual rules of arithmetic",
  "Parsing a formula given as text yields the value of the formula under the usual precedence, associativity and bracketing of operators and functions, for any spacing that separates the tokens, with names referring to the parameters of the current set. A parameter defined by a formula always has the value of that formula at the current values of the parameters it mentions.",
  ["inputs", "histories"], "all well-formed formulas over numbers, parameters, operators and functions, and all later changes of the parameters",
  "The expression parser has no test that runs in this build.",
  ["src/ExpressionParser.cpp", "src/MinuitExpression.cpp"], [("bracket and operator resolution", "ExpressionParser::processBinaryOperators"), ("links", "MinuitParameterLink")],
  ["value of the parsed expression against an independent evaluator of the generated formula"])
p("C15", "Text and container helpers are exact",
  "Splitting, trimming, replacing, wildcard matching, bracket extraction, numeric conversion, rounding, edit distance, combinatorial enumeration, sorting and enumeration names behave as their definitions say for every input: pieces joined with the separator give back the text, every occurrence is replaced exactly once, patterns match exactly the strings they describe, conversions round-trip, and unparsable text is reported as such. Named-argument packs return the argument that was passed or the default.",
  ["inputs"], "all strings, patterns, separators, numbers and container sizes, including empty ones",
  "Tests try one or two strings each.",
  ["src/Utilities.cpp", "AmpGen/Utilities.h", "AmpGen/enum.h", "AmpGen/ArgumentPack.h", "AmpGen/MetaUtils.h"], [("string helpers", "Utilities.cpp"), ("enumerations", "declare_enum/complete_enum")],
  ["results against reference implementations, under sanitizers"])
p("C16", "Rotation functions and coupling coefficients represent the rotation group",
  "The rotation functions for every spin are unitary, compose as rotations do, reduce to the identity at zero angle and to the known closed forms; coupling coefficients are orthonormal, vanish outside the triangle and projection rules and have the standard symmetries. Sums over helicity amplitudes built from them conserve total probability.",
  ["inputs"], "all half-integer spins up to the supported size, all projections and angles",
  "No test touches these functions.",
  ["src/Wigner.cpp", "AmpGen/Wigner.h"], [("small-d and D functions", "wigner_d, wigner_D"), ("Clebsch-Gordan", "CG")],
  ["numeric values against an independent factorial-sum implementation and against group identities"])
p("C17", "Lorentz transformations preserve invariants in every representation",
  "Boosts, rotations and sequences of them preserve all scalar products and spinor bilinears, compose in the stated order, and are undone by their inverse, on four-vectors and on spinors alike and consistently between the two. Transforming a system to its rest frame or onto an axis leaves it at rest or along that axis.",
  ["inputs", "programs"], "all momenta, axes, speeds and angles and all sequences of transformations",
  "No test touches transformations.",
  ["src/Transform.cpp", "AmpGen/Transform.h", "src/Wigner.cpp", "src/Event.cpp"], [("transform", "Transform::operator()"), ("sequence", "TransformSequence")],
  ["invariants of the numerically evaluated images"])
p("C18", "Spin projectors, spinors and vertices are covariant",
  "Spin projection operators are idempotent, transverse, traceless and have the right number of states; the gamma matrices satisfy their anticommutation relations; external spinors and polarisation vectors are normalised, complete and satisfy their wave equations. Every decay vertex transforms as its indices say under a change of frame, is linear in the spin state of each decay product, transverse to the decaying system where its spin requires it, and symmetric or antisymmetric as its definition implies.",
  ["inputs", "programs"], "all on-shell momenta, masses, polarisations and all registered vertices",
  "No test evaluates a vertex.",
  ["src/Vertex.cpp", "src/FermionVertices.cpp", "src/DiracMatrices.cpp", "src/Particle.cpp"], [("projectors", "Vertex.cpp / FermionVertices.cpp"), ("registry", "Vertex::Factory"), ("external spin", "Particle::externalSpinTensor")],
  ["numeric tensors evaluated in two frames related by an independent Lorentz transformation"])
p("C19", "A decay amplitude is frame independent, exchange symmetric and CP consistent",
  "The rate obtained from the amplitude of any decay chain, summed over spin states, is the same for an event and for the same event rotated or boosted, and is unchanged, up to the sign statistics demand, when the momenta of identical final-state particles are exchanged. The amplitude of the conjugate decay at the same momenta equals the original one up to a phase, the spin formalisms agree where they must, and relabelling the final state only relabels the momenta. In the canonical formalism an explicit total spin or helicity couplings given by hand select exactly those terms of the sum over helicities.",
  ["inputs", "programs"], "all decay chains, events and final-state orders",
  "Tests never evaluate a whole amplitude on more than one event.",
  ["src/Particle.cpp", "src/Wigner.cpp", "src/Vertex.cpp", "src/Lineshapes.cpp"], [("amplitude construction", "Particle::getExpression / helicityAmplitude"), ("identical particles", "Particle::identicalDaughterOrderings"), ("quasi-stable trees", "Particle::quasiStableTree")],
  ["compiled and interpreted amplitudes on transformed copies of generated events"])
p("C20", "Resonance lineshapes follow their defining formulas",
  "Breit-Wigner, Flatte, Gounaris-Sakurai, coupled-channel, polynomial, exponential, spline and other single-resonance lineshapes, the running widths, momenta and barrier factors that enter them, have the values of their published formulas for every mass, width, radius, orbital momentum and invariant mass, including below threshold. Barrier factors have the right threshold behaviour and normalisation, every named modifier changes only what it names, and all parameters appear under their documented names with the particle table's values as defaults.",
  ["inputs", "configurations"], "all lineshapes, modifiers, spins and parameter values, over the whole range of invariant masses",
  "Tests evaluate two lineshapes at a handful of points.",
  ["src/Lineshapes.cpp", "src/Lineshapes/BW.cpp", "src/Lineshapes/Flatte.cpp", "src/Lineshapes/GounarisSakurai.cpp", "src/Lineshapes/CoupledChannel.cpp", "src/Lineshapes/Poly.cpp"],
  [("kinematics and barriers", "Lineshapes.cpp"), ("registry", "Lineshape::Factory")],
  ["value of the lineshape expression against independent numeric formulas"])
p("C21", "Scattering amplitudes respect unitarity and analyticity",
  "Multi-channel amplitudes built from a K-matrix satisfy the unitarity relation above each threshold and are symmetric, the elastic one-channel parametrisations stay on the unitarity circle where they are elastic, and phase-space factors have the correct continuation below threshold. The propagator times its defining matrix is the identity for any number of channels and poles.",
  ["inputs", "configurations"], "all couplings, poles, channel counts and energies",
  "No test checks unitarity.",
  ["src/Lineshapes/kMatrix.cpp", "src/Lineshapes/GenericKmatrix.cpp", "src/Lineshapes/LASS.cpp", "src/Lineshapes/GLASS.cpp", "src/Lineshapes/Isotensor.cpp", "AmpGen/kMatrix.h"],
  [("K-matrix assembly", "constructKMatrix"), ("propagator", "getPropagator")],
  ["numeric T-matrix against Im T = T rho T*"])
p("C22", "Interpolation, approximation and integration are accurate",
  "A spline passes through its knots, is twice continuously differentiable between them and reproduces what a natural cubic spline gives in between; a rational approximation matches its function at the sampling points and for functions of its own form everywhere; numerical integration in any supported dimension is exact for low-degree polynomials, linear, additive over sub-regions, and within its stated error otherwise. Compensated sums are as accurate as their definition promises regardless of the order and size of the terms.",
  ["inputs"], "all knots, functions, ranges, dimensions and sequences of terms",
  "No test touches these routines.",
  ["src/Spline.cpp", "src/Pade.cpp", "AmpGen/Pade.h", "AmpGen/NumericalIntegration.h", "AmpGen/simd/integrate_fp.h", "AmpGen/KahanSum.h"],
  [("spline", "Spline / getSplineValue"), ("Pade", "solve_pade"), ("cubature", "integrate, integrate_fp"), ("compensated sum", "KahanSum")],
  ["results against closed forms and long-double references"])
p("C23", "Work submitted to the thread pool runs exactly once, without races",
  "Every task handed to the pool is executed exactly once, its result or exception reaches the caller through the returned handle, and the pool's destruction or wait waits for all tasks accepted before it. This holds for any number of workers and submitters, including concurrent submission, and no two of its operations race with one another.",
  ["schedules", "histories"], "all interleavings of submitters, workers, waits and destruction",
  "No test uses the pool.",
  ["src/ThreadPool.cpp", "AmpGen/ThreadPool.h", "AmpGen/Utilities.h"], [("queue", "ThreadPool::enqueue"), ("shutdown", "ThreadPool::~ThreadPool"), ("parallel algorithms", "parallel_sort")],
  ["recorded submit/execute/complete events per task id; ThreadSanitizer"])
p("C24", "Event containers return what was stored, in every layout",
  "Events, their momenta, weights, generator densities and cached amplitudes read back exactly as stored after any sequence of adding, clearing, filtering and reordering (resizing gives blank events), whichever storage layout and vector width is used, and aggregates over them count every event exactly once. Iterating visits each event once and keeps every change made to it. Invariant masses are the squared sums of the stored momenta, and function values cached per event are those of the function on that event.",
  ["histories", "inputs", "configurations"], "all sequences of container operations, event counts that do and do not fill a vector, both layouts",
  "The event lists are not built in the tests that run.",
  ["AmpGen/Store.h", "AmpGen/Event.h", "src/Event.cpp", "src/EventList.cpp", "src/EventListSIMD.cpp"], [("structure/array of structures", "Store"), ("event list", "EventList, EventListSIMD"), ("invariants", "Event::s")],
  ["contents against a plain vector of arrays, under sanitizers"])
p("C25", "Generated events lie exactly in phase space and cover it correctly",
  "Every generated event conserves four-momentum, has each particle on its mass shell and the parent at its mass, and the weights or acceptance make the sample distributed as phase space, or for a decay chain as its stated density; random picks from a discrete distribution follow its weights. Two generators started from the same random state give the same events.",
  ["inputs", "histories"], "all masses, multiplicities and decay chains, all random states",
  "Phase-space tests are not built here.",
  ["src/PhaseSpace.cpp", "src/TreePhaseSpace.cpp", "src/RecursivePhaseSpace.cpp", "AmpGen/DecayChainStack.h", "AmpGen/DiscreteDistribution.h"], [("N-body generation", "PhaseSpace::makeEvent"), ("decay trees", "TreePhaseSpace::makeEvent")],
  ["kinematics of each event and moments of the samples against closed forms"])
p("C26", "A coherent sum's probability is the squared sum of its couplings and amplitudes",
  "The probability of an event is the squared modulus of the sum of coupling times amplitude divided by the normalisation, and the normalisation equals the weighted mean of the same quantity over the integration sample, for any couplings, including after they or any lineshape parameter have changed. Cached, vectorised and direct evaluations agree, couplings built from rules multiply along the decay chain, an incoherent sum adds squared moduli instead, and the likelihood of a sample is minus twice the weighted sum of the logarithms of these probabilities.",
  ["inputs", "histories", "configurations"], "all models, couplings, parameter-change histories and sample sizes",
  "Coherent-sum tests are not built here.",
  ["src/CoherentSum.cpp", "src/Integrator.cpp", "src/MatrixElement.cpp", "src/AmplitudeRules.cpp"], [("sum", "CoherentSum::prob"), ("bilinears", "Integrator"), ("rules", "AmplitudeRules::getMatchingRules")],
  ["probabilities and norms against direct sums of the per-event amplitudes"])
p("C27", "Malformed or hostile input is reported, never corrupts memory",
  "No decay descriptor, formula, options line or file, particle table, parameter file, lineshape name, tensor shape or index set, spin assignment or list of particle names for an event type, however malformed, makes the library read or write outside its objects, use freed memory, or loop forever (decay rules that contain themselves included); it is either processed or rejected through the library's error reporting (a message or an exception). After a rejected input the library keeps working normally for the next one.",
  ["inputs", "histories"], "all byte strings in place of descriptors, formulas, options and tables",
  "Tests feed only well-formed input.",
  ["src/Particle.cpp", "src/OptionsParser.cpp", "src/ExpressionParser.cpp", "src/ParticleProperties.cpp", "src/Utilities.cpp", "src/MinuitParameterSet.cpp"], [("all text entry points", "constructors and parse functions")],
  ["AddressSanitizer/UBSan while mutated inputs are fed in"])
p("C28", "Run-time compilation is isolated and its failures are reported",
  "Functions compiled in one process, one after another or concurrently, into automatically chosen or separate files, never share generated files or symbols: each loaded function is the one generated for its own expression, one event at a time and in batches, even when names coincide with functions compiled earlier. A library already present under a given file name is reused only for the function of that name, and is replaced when a rebuild is asked for. If the compiler cannot be run, fails or is killed, or a library or symbol is missing, the failure is reported and the function is not ready instead of returning values of something else; interrupting signals do not matter, and no file descriptors or child processes are left behind.",
  ["histories", "fault_sequences", "schedules"], "all sequences of compilations, name reuse, concurrent compilation and compiler or loader failures",
  "No test compiles twice or injects a failing compiler.",
  ["src/CompilerWrapper.cpp", "AmpGen/CompilerWrapper.h", "AmpGen/DynamicFCN.h", "src/CompiledExpressionBase.cpp"], [("fork/exec of the compiler", "CompilerWrapper::compileSource"), ("symbol loading", "DynamicFCN::set")],
  ["values and readiness of functions after injected compiler faults (stand-in compilers in a scratch directory)"])
p("C29", "Sums over spin and flavour states follow their density matrices",
  "For every model, polarisation, parameter history and sample, a sum over polarisations assigns to each event the yield times the amplitudes of all spin (or flavour) states contracted with the density matrix of the decaying particle and summed over final states (weighted by the polarisation fraction if there is one), divided by the average of the same quantity over the integration sample; cached, uncached, per-block, evaluator, component, fraction and likelihood values agree. Rotating an event together with the polarisation vector and tensor changes nothing, and event lists remain the caller's. The source code generated from a coherent or polarised sum compiles to a library whose functions return the amplitudes and probabilities of the model at its current parameters, also for externally given polarisations.",
  ["histories", "inputs"], "all models, polarisation states, histories of parameter and sample changes, rotations",
  "The sums are not built by the tests at all.",
  ["src/PolarisedSum.cpp", "AmpGen/PolarisedSum.h", "src/CoherentSum.cpp", "AmpGen/Store.h", "AmpGen/Complex.h"], [("density matrix of a probability", "PolarisedSum::probExpression"), ("normalisation", "PolarisedSum::norm"), ("generated libraries", "PolarisedSum::generateSourceCode, CoherentSum::generateSourceCode")],
  ["probabilities and integrals against a long-double evaluation over the same samples", "rotation of events and polarisation", "functions of generated libraries"])
p("C30", "Errors, binnings, angles and Dalitz integrals are what they are named after",
  "For every set of parameters, covariance matrix and functions, propagated errors, covariances, correlations and combinations are those of linear error propagation (parameters without uncertainty contribute nothing), perturbed parameters follow the covariance, and parameters have their values back afterwards. For every sample a decision tree gives every point of space exactly one bin, every bin holds the number of events asked for (points without ties), the sample is untouched, and a written tree assigns the same bins when read; the chi-square of two samples is the sum over these bins of the squared difference of the normalised contents over its variance. Dalitz coordinates, densities, boundaries and integrals are those of the parent mass asked for, three-body widths are the integrals of the squared amplitudes over phase space with every final state counted once, and helicity cosines, momenta and angles between decay planes are those of the rest frames named.",
  ["inputs"], "all covariances and functions, samples with and without ties, masses near and far from threshold, orientations and frames of events",
  "None of these is built by the tests.",
  ["src/ErrorPropagator.cpp", "AmpGen/ErrorPropagator.h", "src/BinDT.cpp", "src/FastDT.cpp", "src/Chi2Estimator.cpp", "src/DalitzIntegrator.cpp", "src/ThreeBodyCalculators.cpp", "src/Kinematics.cpp"], [("central differences", "LinearErrorPropagator::derivative"), ("division of a sample", "BinDT::makeNodes, FastDT::makeNodes"), ("square Dalitz coordinates", "DalitzIntegrator::setEvent, DalitzIntegrator::J")],
  ["errors against gradients known exactly", "bins of every point before and after writing", "densities and integrals against closed forms and Gauss-Legendre sums", "angles in rest frames computed independently"])
p("C31", "Fits minimise the stated function and their results are what was fitted",
  "For every set of parameters and constraints, a fit offers exactly the free and blind parameters with their values, steps and limits, the quantity minimised is the function given minus twice the sum of the constraint terms at exactly the values tried, and afterwards every floating parameter holds the minimiser's value and uncertainties (symmetric or minos), every other parameter is unchanged, and every covariance belongs to the pair of parameters it is asked for. A Gaussian constraint contributes -(x-mean)^2/(2 sigma^2) with the numbers given or the table's mass or width and its error; partial-width constraints and LASSO terms use the full matrix of integrals; a constraint that cannot be interpreted is reported. A fit result that is copied, or written and read, is the same result; parameters written as options load to the same values, steps, flags and limits; blind parameters are only ever shown with their offset.",
  ["inputs", "histories"], "all parameter sets with every flag, limits, blinding, constraints, repeated fits, values of any size",
  "Fitting code is not built by the tests, and no test configures a constraint.",
  ["src/ExtendLikelihoodBase.cpp", "AmpGen/ExtendLikelihoodBase.h", "src/PartialWidthConstraint.cpp", "src/LASSO.cpp", "src/Minimiser.cpp", "src/FitResult.cpp", "AmpGen/SimPDF.h", "src/MinuitParameter.cpp"], [("function minimised", "Minimiser::operator()(const double*)"), ("constraint", "GaussianConstraint::configure"), ("results", "Minimiser::doFit, FitResult::readFile, FitResult::writeOptions")],
  ["variables, evaluations and results of a recording minimiser", "results before and after files and copies"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
