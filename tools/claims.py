CLAIMED["C01"] = dict(note="z3 (binary64 floating-point theory) shows the clamp keeps every latent point strictly inside; products/quotients over-approximated in quick, exact in thorough for D=2.", technique="symbolic execution of the real code over SMT floating point (z3)")
CLAIMED["C02"] = dict(note="Real-number semantics; all values of points, bounds, centering, scale and (unbounded case) rotation at D<=3, N<=2.")
CLAIMED["C03"] = dict(note="Real-number semantics; reference is the exact symbolic derivative of the executed inverse; D<=3.")
CLAIMED["C05"] = dict(note="Histories of up to 3 (thorough 5) evaluations and additions with symbolic points, values, noise and transform; cache growth included.")
CLAIMED["C06"] = dict(note="Extended-real values and noise levels, plus a list of non-scalar and non-real objects; record compared before and after.")
CLAIMED["C04"] = dict(note="The whole constructor runs symbolically (its transform replaced by the identity); all values of bounds and starting points, D<=2, N0<=2 (thorough 3), all patterns of missing/infinite/half-bounded input.")
CLAIMED["C07"] = dict(note="Trimming of up to 4 (thorough 5) points over two trimmings; end condition over up to 5 (thorough 7) recorded iterations.")
NA["C31"] = "The guarantee lives in dill serialisation and the file system (foreign code and I/O); nothing of it can be encoded for the solver."
NA["C32"] = "A statistical claim about the whole stochastic algorithm (GP fitting, CMA-ES, MCMC): unbounded loops over floating-point foreign code, no encodable bound."
CLAIMED["C08"] = dict(note="Histories of up to 6 iterations with symbolic bounds, deviations, reliability and all stability patterns; plus 3 (thorough 4) iterations of the real optimize() loop with its numerical engines replaced by stand-ins returning arbitrary values.")
CLAIMED["C09"] = dict(note="States after up to 6 (thorough 8) iterations with symbolic quantities, tolerances and budgets; plus up to 3 (thorough 4) iterations of the real optimize() loop with stand-in engines.")
CLAIMED["C10"] = dict(note="Histories of up to 7 (thorough 9) iterations with symbolic bounds, reliability, component number, maximum and bonus.")
CLAIMED["C11"] = dict(note="D,K <= 3 (thorough 4), all 15 subsets of optimised groups, both encodings; real-number semantics.")
CLAIMED["C12"] = dict(note="Real-number semantics; D<=2 (thorough 3), K<=3; Gaussian and Student-t variants; arbitrary transform through uninterpreted functions plus the real one per type.")
CLAIMED["C13"] = dict(note="Real-number semantics; reference is the exact symbolic derivative of the returned density; D<=3, K<=3.")
CLAIMED["C14"] = dict(note="Real-number semantics; D<=3, K<=3; original space: arbitrary draws (N<=4).")
CLAIMED["C15"] = dict(note="Draws and selections arbitrary; asserted are the rows, counts and the probability vector handed to the generator; D<=2, K<=3, N<=4.")
CLAIMED["C16"] = dict(note="Real-number semantics; reference is the exact symbolic derivative of the executed value; all 15 subsets of groups; D,K <= 2 (thorough 3), N<=2, 2 hyperparameter samples.")
CLAIMED["C17"] = dict(note="Real-number semantics; oracle is the closed form of the Gaussian integrals; D,K <= 3, N<=2, up to 2 hyperparameter samples, both factorisations of the kernel matrix.")
CLAIMED["C18"] = dict(note="Real-number semantics; up to 2 points (thorough 3), D<=2, 2 hyperparameter samples; surrogate prediction, density and transform are arbitrary functions; integrated functions with 1-2 integration and training points against the closed form.")
CLAIMED["C19"] = dict(note="Candidate sets up to 8 points (arbitrary source fractions up to 3), D<=2, up to 2 cached points; real sampling loop with up to 2 acquisitions (thorough 3), arbitrary acquisition values, stand-ins for CMA-ES and Nelder-Mead.")
CLAIMED["C33"] = dict(note="Arbitrary density, gradient, samples and transform; stand-in optimiser never worse than its start; D<=2, K<=2 (thorough 5), up to 3 optimisations.")
CLAIMED["C20"] = dict(note="Real-number semantics; all parameter values and points, real- or integer-typed, D <= 2, N <= 2; rejection sampling up to 3 proposals; SciPy's densities, supports and draws arbitrary.")
CLAIMED["C21"] = dict(note="Symbolic option values over the real configuration files and generated ones; option names, order of loading and configurations by forks.")
CLAIMED["C22"] = dict(note="Up to 3 recordings with symbolic values and iterations and later in-place changes; continuing and loading over 2-3 iterations of the real loop with stand-in engines.")
CLAIMED["C23"] = dict(note="Arbitrary objective values and gradients; D <= 2, up to 3 (thorough 4) iterations; stopping rule over 43-61 (thorough 82) iterations with arbitrary values at a few of them.")
CLAIMED["C25"] = dict(note="Real-number semantics; all Gaussians with D <= 2, N <= 4 (thorough 5) points with ties; oracle is the closed form in whitened coordinates.")
CLAIMED["C28"] = dict(note="Likelihood, prior and noise are arbitrary functions of the point; every way of giving the prior, with and without noise and bounds; D <= 2.")
CLAIMED["C29"] = dict(note="Real-number semantics; arbitrary predictive moments, densities and draws; D <= 2, 1-2 training points, up to 3 importance points, 2 hyperparameter samples; slice sampler is a stand-in with arbitrary output.")
CLAIMED["C30"] = dict(note="All interleavings of up to 5 operations on two timers with arbitrary clock readings.")
CLAIMED["C24"] = dict(note="Real-number semantics; arbitrary maps and Jacobians, D <= 2, K <= 2 (thorough 3), up to 2 training points and 3 recorded evaluations; the decomposition through its contract; schedule and undo over 3-4 iterations of the real loop with stand-in engines.")
CLAIMED["C26"] = dict(note="D <= 2, up to 3 components (4 requested) and 3 points with arbitrary parameters and draws; pruning with arbitrary optimiser results and evaluations, up to 2 optimisations.")
CLAIMED["C27"] = dict(note="Arbitrary records, noise levels, run histories and option values; D <= 2, up to 3 recorded points and hyperparameter records; the surrogate library is a stand-in that records what it is given.")
