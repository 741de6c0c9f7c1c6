COMMON = 'static analysis: interprocedural value-numbering dataflow (gated joins, loop closed forms) over the clang AST of the current tree; '
SRC = ['src/esostrategy.cc', 'src/cmastrategy.cc', 'src/ipopcmastrategy.cc', 'src/bipopcmastrategy.cc', 'src/surrogatestrategy.cc']

prop('P01', 'Reported evaluation count equals the number of objective calls',
     'At any moment outside of an evaluation, the number of function evaluations a strategy reports equals the number of times it has called the user\'s objective since it was created (per run for restart strategies). This holds for plain evaluation, uncertainty-handling re-evaluations, finite-difference gradients, the initial or elitist evaluation and surrogate pre-selection alike.',
     ['inputs', 'configurations', 'histories'], 'every objective, dimension, population size, option combination, strategy flavour and sequence of ask/eval/tell/gradient calls',
     'Tests look at final objective values; none compares the count with the real number of calls, and option combinations (gradient, uncertainty handling, elitism, surrogates, restarts) are sampled at a handful of points.',
     SRC + ['include/libcmaes/esostrategy.h', 'include/libcmaes/cmasolutions.h'],
     [('update_fevals called after every evaluation batch', 'src/esostrategy.cc'), ('re-evaluation counter', 'src/esostrategy.cc eval_candidates_uh'), ('pre-selection accounting', 'src/surrogatestrategy.cc')],
     [('_nevals', 'strategy and per-solution counters', 'include/libcmaes/esostrategy.h, cmasolutions.h')], ['CMASolutions::fevals()'],
     COMMON + 'ghost counter advanced at every resolved call of the objective, compared with the counters\' increments as value terms at the exit of every operation and of whole runs',
     'All control paths of every strategy operation and of construct-then-optimize runs, for all inputs; loops solved by closed forms or linked counters. Trusts the models of std and Eigen; an undecidable difference is reported as undecided, not as held.')

prop('P02', 'The objective only sees points in the user\'s space',
     'Every point handed to the user\'s objective or gradient is an image of the configured genotype-to-phenotype transform, or such an image with one coordinate moved and clamped at the user\'s bound. So an objective restricted to a box is never called outside of it.',
     ['inputs', 'configurations', 'histories'], 'every objective, bounds, scaling, option combination and strategy',
     'Tests with bounds check the final point of a few runs; calls made for gradients, edm, uncertainty handling, elitism, surrogates or profiles are not observed.',
     SRC + ['src/errstats.cc', 'include/libcmaes/genopheno.h'],
     [('pheno() applied to the candidates before evaluation', 'src/cmastrategy.cc optimize'), ('finite differences clamped at the bound', 'src/esostrategy.cc gradf'), ('uncertainty handling perturbs the genotype', 'src/esostrategy.cc select_candidates_uh')],
     [], ['arguments of the objective function'],
     COMMON + 'provenance of every argument of a resolved call of the objective in whole runs of each strategy, the transform kept as an uninterpreted function',
     'All call sites reachable in a whole run, all paths; the transform itself is decided by another property; points the caller passes to eval() himself are out of scope.')

prop('P03', 'Parallel evaluation is free of data races',
     'When evaluations run in parallel no two threads of the library touch the same memory with one of them writing, whatever the schedule. Each parallel iteration writes only storage of its own, and results do not depend on the number of threads.',
     ['schedules', 'inputs'], 'every interleaving of the threads of every parallel region, every population size and dimension',
     'A race needs a particular interleaving; the tests run with two threads on cheap objectives and check only convergence.',
     ['src/esostrategy.cc', 'src/surrogatestrategy.cc', 'include/libcmaes/surrogatestrategy.h', 'include/libcmaes/surrogates/rankingsvm.hpp'],
     [('parallel loops over candidates', 'src/esostrategy.cc eval, gradf'), ('ranking SVM kernel loops', 'include/libcmaes/surrogates/rankingsvm.hpp')],
     [], ['CMASolutions candidates and function values'],
     COMMON + 'effect analysis of every OpenMP region: access paths written and read by one generic iteration against those of another, with index disjointness',
     'All OpenMP regions of the library, all schedules; the user objective is assumed thread safe (documented requirement).')

prop('P04', 'Quiet mode prints nothing',
     'With quiet mode on, no library operation writes to standard output or standard error on any path. Only files the user asked for and streams he passed himself are written.',
     ['inputs', 'configurations', 'histories'], 'every entry point, option combination, stop criterion and failure path',
     'Tests run mostly verbose and never capture the streams; rare messages (stop criteria, restarts, error handling) are on paths few runs take.',
     SRC + ['src/cmastopcriteria.cc', 'src/errstats.cc', 'include/libcmaes/llogging.h'],
     [('LOG_IF guarded by the quiet flag', 'all'), ('null stream', 'include/libcmaes/llogging.h')],
     [('_quiet', 'quiet flag of the parameters', 'include/libcmaes/parameters.h')], ['stdout and stderr'],
     COMMON + 'typestate of the standard streams under the assumption that quiet holds; any reachable insertion into them is the violation',
     'All entry points of strategies, solutions, stop criteria, error statistics; glog builds are not analysed (not installed here).')

prop('P05', 'Same seed, same run',
     'Two runs with the same explicit non-zero seed, options and deterministic objective make the same calls and return the same result, whatever ran before in the process. No clock, entropy device, C library generator or leftover global state influences anything but the reported times.',
     ['histories', 'inputs', 'configurations'], 'every strategy, option combination and history of earlier runs in the process',
     'No test repeats a run and compares; differences show only after restarts, with uncertainty handling or surrogates, or in the second run of a process.',
     SRC + ['include/libcmaes/eigenmvn.h', 'include/libcmaes/parameters.h', 'src/cmasolutions.cc'],
     [('generators seeded from the parameters', 'constructors'), ('shared normal generator reseeded at construction', 'include/libcmaes/eigenmvn.h')],
     [('rng', 'process-wide generator behind the normal sampler', 'include/libcmaes/eigenmvn.h')], ['CMASolutions'],
     COMMON + 'taint of entropy sources into state and branches, and read-before-initialisation of mutable globals and function statics, over construct-then-optimize runs',
     'All paths of construction and whole runs of each strategy flavour; assumes deterministic user callbacks and relies on race freedom for parallel runs.')

prop('P06', 'The algorithm run is the one the user selected',
     'For every documented algorithm name, cmaes() and surrcmaes() run the corresponding strategy (plain, IPOP, BIPOP), covariance update (standard, active, VD) and sep/vd mode, with the caller\'s objective, gradient, progress and plot functions and start solution, and return that run\'s solutions. Selecting sep or vd adapts the learning rates once.',
     ['configurations', 'inputs'], 'all fifteen algorithms, with and without given solutions, with the flag already set or not, every genotype/phenotype type',
     'The algorithms agree on easy functions, so running the wrong variant or dropping a callback still converges; tests exercise few of the combinations.',
     ['include/libcmaes/cmaes.h', 'include/libcmaes/surrcmaes.h', 'include/libcmaes/cmaparameters.h'],
     [('algorithm switch', 'include/libcmaes/cmaes.h, surrcmaes.h'), ('name table and set_str_algo', 'include/libcmaes/cmaparameters.h')],
     [('_algo', 'selected algorithm', 'include/libcmaes/parameters.h')], ['cmaes()', 'surrcmaes()', 'set_str_algo()'],
     COMMON + 'context-sensitive analysis of the entry functions per algorithm code; class, flags and callbacks of the optimizer at the start of the run against the table of documented names',
     'All 15 codes times start-solution and flag cases for every instantiation (quick: unbounded and bounded). VD variants are not required to use a given full-covariance solution.')

prop('P09', 'A run stops exactly when an active criterion holds, and says which',
     'Each stopping criterion fires exactly on its documented condition of the parameters and search state (budgets, target, tolerances, stagnation, conditioning, no-effect tests) and returns its own code. stop() reports the first active criterion that fires, the strategies record that code as run status, optimize() returns an error exactly for negative codes, and every code has a message.',
     ['inputs', 'configurations', 'histories'], 'every value of the parameters and of the search state, every set of deactivated criteria, every strategy',
     'Runs of the tests end by two or three of the twelve criteria; a wrong bound, sign or code in the others only changes when a run stops.',
     ['src/cmastopcriteria.cc', 'src/cmastrategy.cc', 'src/ipopcmastrategy.cc', 'src/bipopcmastrategy.cc', 'include/libcmaes/cmastopcriteria.h'],
     [('criteria registered at construction', 'src/cmastopcriteria.cc'), ('first active criterion', 'src/cmastopcriteria.cc stop'), ('status recorded', 'src/cmastrategy.cc stop'), ('result of optimize', 'src/cmastrategy.cc, ipop, bipop')],
     [('_run_status', 'status of the run', 'include/libcmaes/cmasolutions.h')], ['CMASolutions::run_status(), status_msg()', 'optimize()', 'set_stopping_criteria()'],
     COMMON + 'the value term of every registered criterion, of stop() and of the recorded status is compared with that of a written specification analysed by the same analysis; equality of terms decided by random interpretation',
     'All twelve criteria, all instantiations, all paths, for all parameter and state values; real arithmetic (x != x + e is taken as e != 0).')

prop('P12', 'Maximisation negates the objective exactly once',
     'With set_maximize(true) every strategy, however it was constructed, ranks candidates by the negated value of the user\'s objective and follows the negated gradient of the user; without it both are used unchanged. No operation evaluates with the wrong sign.',
     ['configurations', 'inputs'], 'every strategy flavour and constructor (fresh or from given solutions), the option on or off, with or without a user gradient, every objective',
     'One test maximises, with one strategy and one constructor; a wrong sign combined with another option just looks like a failing optimisation.',
     ['src/esostrategy.cc', 'include/libcmaes/parameters.h'],
     [('objective wrapped at construction', 'src/esostrategy.cc constructors'), ('user gradient negated', 'src/esostrategy.cc gradf')],
     [('_maximize', 'maximise option', 'include/libcmaes/parameters.h'), ('_funcaux', 'user objective kept aside', 'include/libcmaes/esostrategy.h')], ['objective and gradient functions', 'CMASolutions'],
     COMMON + 'the function object left by each constructor is applied to a symbolic point and its value term compared with the (negated) user value; which function object every evaluation site calls',
     'All constructors of all strategy instantiations, all evaluation sites of the strategies; likelihood profiles and contours under maximisation are out of scope.')

prop('P16', 'The search distribution follows the documented update equations',
     'After each generation the mean, evolution paths, covariance (full, diagonal or VD), step size and indicator are exactly the functions of the previous state and the ranked candidates given by the update equations of CMA-ES, active CMA-ES and VD-CMA, in full and sep mode, with or without two-point adaptation. An update changes no other part of the solutions.',
     ['inputs', 'configurations', 'histories'], 'every state, ranking, dimension, learning rate setting, mode and update variant',
     'A wrong coefficient or index still converges on the easy functions of the tests, only slower or not on hard ones; sep, VD and two-point modes are barely exercised.',
     ['src/covarianceupdate.cc', 'src/acovarianceupdate.cc', 'src/vdcmaupdate.cc'],
     [('equations (2) to (6)', 'src/covarianceupdate.cc'), ('active update', 'src/acovarianceupdate.cc'), ('VD natural gradient', 'src/vdcmaupdate.cc')],
     [('_cov, _sepcov, _v, _sigma, _xmean, _psigma, _pc', 'search state', 'include/libcmaes/cmasolutions.h')], ['CMASolutions'],
     COMMON + 'the value term of every member after update() is compared with that of a written specification (spec/update.cc) analysed by the same analysis; equality of terms decided by random interpretation over matrices',
     'All paths and instantiations of the three updates, all members of the solutions; real arithmetic, eigen decompositions uninterpreted.')

prop('P20', 'A candidate\'s recorded value is the objective at its point',
     'Whenever a candidate carries a function value obtained by evaluation, that value is the objective at the image of this candidate\'s own point, also for re-injected elitist candidates, the initial candidate, parallel evaluation and surrogate pre-selection. Library runs evaluate exactly the images of the candidates they asked for.',
     ['inputs', 'configurations', 'histories', 'schedules'], 'every objective, population, option combination, strategy and generation',
     'Tests check that the final value is small; a value paired with a neighbouring point still lets easy functions converge.',
     SRC + ['include/libcmaes/candidate.h'],
     [('x and f set for the same column', 'src/esostrategy.cc eval'), ('reinjection', 'src/esostrategy.cc eval'), ('pre-selection evaluation', 'src/surrogatestrategy.cc')],
     [('_candidates', 'population', 'include/libcmaes/cmasolutions.h')], ['CMASolutions::candidates()', 'best_candidate()'],
     COMMON + 'objective kept as an uninterpreted function; at every write of a value or a point and in the closed form of the population after an evaluation, value and point terms must match',
     'All writes of candidates in eval, tell and optimize of every strategy and all paths; values set by uncertainty handling and surrogate predictions are not evaluations of the point and are exempt.')

prop('P11', 'Parameters derived from dimension and population follow the documentation',
     'After every constructor, setter and option, the strategy parameters (default population, parent number, weights, learning rates, step-size damping, lazy-update period, start point box, seed, limits) have the values the CMA-ES papers and the API documentation give for the current dimension, population, algorithm and fixed parameters. Setters change what they name and nothing else, and getters return it.',
     ['inputs', 'configurations', 'histories'], 'every dimension, population size, option and order of setter calls',
     'Wrong learning rates still converge on the easy functions of the tests; large dimensions, sep/VD/TPA modes combined with restarts or fixed parameters are not exercised.',
     ['src/cmaparameters.cc', 'src/parameters.cc', 'include/libcmaes/cmaparameters.h', 'include/libcmaes/parameters.h'],
     [('initialize_parameters', 'src/cmaparameters.cc'), ('set_sep, set_vd, set_tpa, set_noisy, set_fixed_p', 'src/cmaparameters.cc')],
     [('_c1, _cmu, _csigma, _dsigma, _weights, ...', 'derived strategy parameters', 'include/libcmaes/cmaparameters.h')], ['CMAParameters constructors, setters and getters'],
     COMMON + 'every member left by every method of CMAParameters, as value term, compared with the one of the reference equations (spec/params.cc) by typed random interpretation of the terms',
     'All paths of all constructors, setters and getters for the four transform types, all inputs up to real arithmetic; a difference of terms is decided by random interpretation of the terms (one-sided error negligible), never by running the code.')

prop('P14', 'The solution object remembers the run truthfully',
     'Candidates are sorted by objective value; the histories of best, k-th best and median values hold the last entries in order within their documented lengths; the best and worst candidates seen are the extremes of everything that was recorded. The accessors (best and worst candidate, per-rank candidate, evaluation count, step size, covariance, standard deviations, mean, status, edm, iterations) report that state and change nothing.',
     ['inputs', 'histories'], 'every sequence of recorded generations and every accessor call',
     'Tests read the best value of converged runs; history windows, ties, worst candidates, errors and accessors on unusual states are not observed.',
     ['src/cmasolutions.cc', 'include/libcmaes/cmasolutions.h', 'include/libcmaes/candidate.h'],
     [('update_best_candidates, sort_candidates', 'src/cmasolutions.cc'), ('accessors', 'include/libcmaes/cmasolutions.h')],
     [('_candidates, _best_candidates_hist, _k_best_candidates_hist, _bfvalues, _median_fvalues, _best_seen_candidate, _worst_seen_candidate', 'memory of the run', 'include/libcmaes/cmasolutions.h')], ['CMASolutions accessors'],
     COMMON + 'every member left and every value returned by every method of CMASolutions, as value terms over the objects before, compared with spec/solutions.cc by typed random interpretation (containers, sorting and erasure have their meaning)',
     'All paths of all methods, all inputs up to real arithmetic; std containers and sort are modelled.')

prop('P19', 'Restart strategies restart as documented and return the best run',
     'IPOP doubles the population at each restart, starts every run from a fresh state that fits the new parameters, starts no more runs than allowed and none once the evaluation budget is used, and leaves the solution of the best run with its status. BIPOP alternates between doubled large populations with the initial step size and small random ones under half of the large regime\'s budget, switching when the small regime has used as much as the large one, and returns the best of all runs.',
     ['histories', 'inputs', 'configurations'], 'every outcome of the single runs, number of restarts, budget, population and random draw, for every covariance update and transform',
     'Tests of the restart strategies converge in the first run, so what happens after a restart, the budgets and the choice of the best run are not observed.',
     ['src/ipopcmastrategy.cc', 'src/bipopcmastrategy.cc', 'include/libcmaes/ipopcmastrategy.h', 'include/libcmaes/bipopcmastrategy.h'],
     [('lambda_inc, reset_search_state, capture_best_solution', 'src/ipopcmastrategy.cc'), ('r1, r2, budgets', 'src/bipopcmastrategy.cc')],
     [('best_run', 'best solution over the runs', 'src/ipopcmastrategy.cc'), ('_lambda_l, _lambda_def, _sigma_init, _max_fevals', 'large-regime population and initial settings', 'include/libcmaes/bipopcmastrategy.h')], ['IPOPCMAStrategy::optimize', 'BIPOPCMAStrategy::optimize'],
     COMMON + 'state left by each restart step and by whole restarted runs over uninterpreted outcomes of the single runs, compared with spec/restart.cc by typed random interpretation',
     'All outcomes of the single runs; restarts followed one by one up to four (IPOP) and two large with two small each (BIPOP). The single run, the parameter initialisation and the fresh solution object are uninterpreted here and decided by other properties.')

prop('P17', 'Genotype and phenotype transforms map points as documented',
     'For every point, pheno applies the custom transform, then the box bounds (identity inside, quadratic near a bound, reflected and periodic outside), then the linear scaling, column by column, and geno applies the inverses in the opposite order. The bounds and the scaling set up by every constructor are those the given bounds, scaling and shift define, and bounds are reported in phenotype space.',
     ['inputs', 'configurations'], 'every point, bounds, scaling, shift and custom transform, for the four bound/scaling combinations, vectors and matrices',
     'Tests map a few points within or slightly outside of the bounds; the far regions, custom transforms under scaling, and matrices with custom transforms are not sampled.',
     ['include/libcmaes/genopheno.h', 'src/pwq_bound_strategy.cc', 'include/libcmaes/scaling.h', 'include/libcmaes/noboundstrategy.h'],
     [('GenoPheno::pheno, GenoPheno::geno', 'include/libcmaes/genopheno.h'), ('pwqBoundStrategy', 'src/pwq_bound_strategy.cc'), ('linScalingStrategy', 'include/libcmaes/scaling.h')],
     [('_al, _au, _xlow, _xup, _r', 'geometry of the bound transform', 'src/pwq_bound_strategy.cc'), ('_scaling, _shift', 'linear scaling', 'include/libcmaes/scaling.h')], ['GenoPheno::pheno', 'GenoPheno::geno', 'GenoPheno constructors'],
     COMMON + 'values returned and members set by the transforms and their constructors compared with spec/geno.cc by typed random interpretation, custom transforms uninterpreted',
     'All points and settings in real arithmetic; non-empty bounds (lb < ub) and custom transforms that are functions of their input.')

prop('P10', 'Each generation samples and updates from the current state',
     'ask() returns lambda points mean + sigma*T*z with T T\' the current covariance (full, diagonal or VD; refreshed as the lazy-update period says) and fresh normal draws z, with the gradient step, the two symmetric two-point candidates and the fixed parameters placed as documented. tell() ranks the candidates, updates the histories, the distribution and the step size from that ranking, once each. Gradients, the expected distance to the minimum and the two-point signal are the documented functions of the same state.',
     ['inputs', 'histories', 'configurations'], 'every state, parameter setting and draw of the generator, for every covariance update and transform',
     'Tests only check that runs converge, which CMA-ES does even with a stale mean, a misplaced candidate, or a wrong two-point signal or gradient scaling.',
     ['src/cmastrategy.cc', 'src/esostrategy.cc', 'include/libcmaes/eigenmvn.h'],
     [('CMAStrategy::ask, CMAStrategy::tell', 'src/cmastrategy.cc'), ('ESOStrategy::gradf, gradgp, edm, tpa_update', 'src/esostrategy.cc'), ('EigenMultivariateNormal', 'include/libcmaes/eigenmvn.h')],
     [('_esolver', 'mean, covariance and transform used for sampling', 'include/libcmaes/cmastrategy.h'), ('_tpa_s, _tpa_x1, _tpa_x2', 'two-point adaptation', 'include/libcmaes/cmasolutions.h')], ['CMAStrategy::ask', 'CMAStrategy::tell', 'ESOStrategy::edm'],
     COMMON + 'points returned and state left by ask, tell, the sampler, the gradients, edm and the two-point adaptation compared with spec/strategy.cc by typed random interpretation, normal draws uninterpreted',
     'All states and settings in real arithmetic; at most three fixed parameters and four candidates in the two-point search are followed; the order produced by uncertainty handling is uninterpreted.')

prop('P07', 'Evaluation, elitism and noise handling follow the documentation',
     'eval() gives every candidate its point, its rank id and the objective value of its phenotype, and reinjects the best seen (or initial) candidate in elitist modes exactly when less than half of the generation is better. Noise handling re-evaluates the documented (randomly rounded) number of candidates at points mutated on the scale of the current step size, and keeps the value of the others. It then ranks by the sum of both ranks (ties by rank change, then mean value), and sets the noise level from rank changes and their limits.',
     ['inputs', 'histories', 'configurations'], 'every generation, objective value, population, noise setting and random draw, for every transform',
     'Tests only check that runs with noise handling converge; wrong ranks, limits, mutation scales or reinjections only slow a run down.',
     ['src/esostrategy.cc'],
     [('ESOStrategy::eval', 'src/esostrategy.cc'), ('select_candidates_uh, eval_candidates_uh, uncertainty_handling', 'src/esostrategy.cc')],
     [('_candidates, _candidates_uh, _lambda_reev, _suh', 'candidates, re-evaluated candidates and noise level', 'include/libcmaes/cmasolutions.h')], ['ESOStrategy::eval', 'CMAParameters::set_uh', 'CMAParameters::set_elitism'],
     COMMON + 'candidates, re-evaluations, ranks and noise level left by eval and the noise handling compared with spec/evaluate.cc by typed random interpretation, objective values and draws uninterpreted',
     'All values, populations and settings in real arithmetic; re-evaluated lists are followed element by element up to the sizes drawn (up to 12 candidates).')

for _i, _t, _s, _w, _r in (
    ('P30', 'Runs converge to the optimum', 'On a well-posed objective within its budget a run returns a point within its tolerances of a local optimum.', 'convergence is a statement about random run-time trajectories', 'convergence of a stochastic search depends on run-time values of the objective and the draws; no static argument bounds it'),
    ('P31', 'Samples follow the normal distribution asked for', 'The points drawn have, in distribution, the mean and covariance of the search distribution.', 'a statistical statement about the generator', 'the statistical quality of std::normal_distribution and mt19937 is a run-time quantity; that the right mean, scale and transform are applied is P10'),
    ('P32', 'Numerical state stays finite and positive definite', 'Covariance, step size and paths never overflow, become NaN or lose positive definiteness while a run is active.', 'rounding errors accumulate over histories', 'needs bounds on floating-point values accumulated over unbounded histories and on eigen decompositions'),
    ('P33', 'Profile likelihoods and confidence intervals are accurate', 'The points returned by errstats lie at the requested level of the objective within the tolerance.', 'a statement about nested optimisation runs', 'depends on the convergence of nested stochastic runs'),
    ('P34', 'Surrogates rank like the objective', 'The ranking SVM orders unseen candidates like the true objective well enough to save evaluations.', 'a statement about learning', 'generalisation of a learned model is a run-time, statistical quantity'),
    ('P35', 'Parallel evaluation is faster', 'With enough threads a generation takes about the time of its slowest evaluation.', 'a statement about time', 'execution time is outside of what the source determines')):
    prop(_i, _t, _s, ['inputs', 'histories'], 'every objective and run', _w, ['src/cmastrategy.cc'], [('optimize', 'src/cmastrategy.cc')], [], [], None, None, na=_r)
