"""Source of properties.jsonl and MANIFEST.json (run: python3 meta/gen.py)."""
TECH = "runtime monitoring: {}"
P = []


def prop(id, title, statement, over, text, why, files, mech, check=None, note="", technique="", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, technique=technique, state=state, observe=observe))


G = "kd/model/sga/sgapde/"
prop("S01", "SGA's reported score and coefficients are those of its terms",
     "The coefficients, prediction and score reported for any candidate equation are those of regressing the left-hand side on the values of exactly the terms it prints. "
     "Coefficients equal a least-squares fit on the retained terms, the prediction is the coefficient-weighted sum of the term values, and the score is the documented information criterion of that prediction. "
     "Terms that vanish are dropped, and a candidate that cannot be evaluated under the guarded division mode scores infinity.",
     ["inputs", "programs", "configurations"], "every dataset, candidate equation, right-hand-side term set and division mode",
     "Tests score a few hand-built candidates; the claim ranges over all expressions the search can form and all data.",
     [G + "pde.py", G + "PDE_find.py", G + "equation.py", G + "context.py"],
     [{"name": "candidate scoring", "where": G + "pde.py:evaluate_mse"}, {"name": "sequential thresholded ridge", "where": G + "PDE_find.py:Train"}],
     technique="oracle recomputation of every scored candidate observed during real searches",
     note="Every candidate the search scores is re-derived from independently built feature arrays; ill-conditioned candidates are only checked for self-consistency.")
prop("S02", "SGA returns the best equation it evaluated and never loses it",
     "Over any run, the population keeps its size and order and contains only scored, usable candidates. The best score never worsens from one generation to the next, and the equation returned is the best one evaluated since the initial pool was built. "
     "Resuming a search cannot worsen its best score.",
     ["histories", "inputs", "configurations"], "every search history (random draws, mutation and crossover sequences), dataset and parameter setting",
     "Elitism is a statement about all histories; tests run one short seeded search and check it produces a string.",
     [G + "solver.py", G + "pde.py"],
     [{"name": "generational loop and selection", "where": G + "solver.py:SGA"}],
     technique="online trace monitor over search histories",
     note="All evaluations and populations of each run are logged and judged by an offline checker.")
prop("S03", "Every SGA candidate is a well-formed expression over the problem's variables",
     "Each term built by generation, mutation, crossover or replacement is a complete tree whose leaves are right-hand-side variables, whose derivatives are taken with respect to right-hand-side axes, and which respects the depth and width limits. "
     "The left-hand-side axis never occurs, variation operators never alias or alter their parents, and every operator terminates. Printed forms denote the tree that is evaluated.",
     ["histories", "programs", "configurations"], "every sequence of generation/mutation/crossover steps over every variable set",
     "Random trees are sampled a handful of times by tests; malformed trees appear only for some draws and some axis sets.",
     [G + "tree.py", G + "pde.py"],
     [{"name": "tree generation and mutation", "where": G + "tree.py:Tree"}, {"name": "crossover", "where": G + "pde.py"}],
     technique="structural monitors on every tree created under stress workloads",
     note="Structural invariants judged after every variation step.")
prop("S04", "SGA LaTeX denotes the equation that was fitted",
     "Reading the LaTeX of any SGA equation by ordinary typesetting rules gives back the fitted equation: same left-hand side, terms, coefficients and signs. Structured details agree with the LaTeX.",
     ["programs", "inputs", "configurations"], "every equation the search can produce, in every notation option and variable naming",
     "Tests compare a few strings; rendering of nested derivatives, quotients and powers has unboundedly many shapes.",
     [G + "equation.py", "kd/model/kd_sga.py", G + "naming.py"],
     [{"name": "term rendering", "where": G + "equation.py"}],
     technique="independent LaTeX reader evaluated against the expression at random points",
     note="Oracle is a separate LaTeX parser plus numeric evaluation on analytic fields.")
prop("S05", "SGA's problem set-up describes the dataset it was given",
     "For any dataset layout the variables, derivatives, left-hand side, spacing and axes used by the search equal the corresponding finite-difference, network or analytic quantities of the source arrays, with every coordinate, field and parameter field present and none confused; a built-in problem's reference equation holds on its data. "
     "Ambiguous or inconsistent inputs are refused with an error rather than misread.",
     ["inputs", "configurations"], "every layout (legacy, N-D, with parameter fields), axis order, target field, LHS axis, edge handling and derivative method",
     "Tests use square-ish grids with one axis order; transpositions and omissions need asymmetric data to show.",
     [G + "context.py", "kd/model/sga/adapter.py", G + "config.py", G + "naming.py", "kd/model/kd_sga.py"],
     [{"name": "problem context", "where": G + "context.py:ProblemContext"}, {"name": "dataset adapter", "where": "kd/model/sga/adapter.py"}],
     technique="set-up monitor comparing every array with an independent reference",
     note="Reference finite differences written independently.")
prop("S06", "An SGA fit depends only on data, parameters and seed, without side effects",
     "Fitting twice with the same dataset, parameters and seed gives the same equation, score and prediction whatever ran before. "
     "A fit never modifies the dataset, the parameters or earlier results.",
     ["histories", "inputs", "configurations"], "every sequence of earlier fits and random-state perturbations",
     "Hidden state and in-place edits only show over histories of several fits.",
     [G + "solver.py", "kd/model/kd_sga.py", G + "pde.py", G + "context.py"],
     [{"name": "seeding", "where": "kd/model/kd_sga.py:fit_dataset"}],
     technique="replay differential with frozen (write-protected) arrays",
     note="Inputs are write-protected and hashed around every fit; replays interleave other fits.")
prop("T01", "Every view of a dataset pairs each coordinate with its own value",
     "Whatever layout a dataset was built from or loaded with, each accessor (points, mesh, ranges, samples, derivatives, files) returns coordinate/value pairs that occur in the source data, complete where it promises completeness and of the requested size. "
     "Malformed sources and out-of-range requests are refused.",
     ["inputs", "configurations"], "every grid shape (including square), layout, accessor and argument",
     "Tests use one layout and rarely check which value belongs to which point.",
     ["kd/dataset/_base.py", "kd/dataset/__init__.py", "kd/runner.py"],
     [{"name": "dataset container", "where": "kd/dataset/_base.py:PDEDataset"}],
     technique="point look-up monitor over every returned coordinate/value pair",
     note="Every returned pair is searched in the source arrays.")
prop("T02", "Each catalogued benchmark satisfies the equation it is catalogued under",
     "Every listed benchmark loads to a uniform grid with finite data that satisfies, to discretisation accuracy, the equation in its catalogue entry. Loads are independent and repeatable, and unknown names are refused.",
     ["inputs", "configurations", "histories"], "every catalogue entry, grid window and repeated load",
     "Tests only check that loading gives arrays of some shape.",
     ["kd/dataset/__init__.py", "kd/dataset/_registry.py", "kd/dataset/_info.py"],
     [{"name": "catalogue", "where": "kd/dataset/_registry.py"}],
     technique="residual monitor on windows of every benchmark",
     note="Finite-difference residual of the catalogued right-hand side compared with an alternative-free regression.")
prop("R01", "A runner job always leaves exactly one truthful result record",
     "Whatever fails (configuration, data loading, fitting, plotting), a job ends with one readable result record whose status matches what happened and the process exit status. "
     "The record names the job's dataset, model and parameters, a successful record carries the model's own equation, and the model receives the configured inputs.",
     ["fault_sequences", "configurations", "inputs"], "every fault point and exception kind, every configuration",
     "Tests exercise the happy path; the guarantee is about every failing step.",
     ["kd/runner.py"], [{"name": "job driver", "where": "kd/runner.py:main"}],
     technique="fault injection with an offline checker of the record and exit status",
     note="Faults injected at every stage; process kill is not simulated.")

prop("T03", "Stored data come back as they were stored, or are refused",
     "Tables, arrays and MATLAB files, benchmark data laid out by hand, random samples, finite-difference stencils, descriptions and nested mappings come back with every value at its place, whatever the format, layout, header, encoding or orientation. "
     "Damaged or inconsistent contents are refused, and no loader, sampler or picture changes the data it was given.",
     ["inputs", "configurations"], "every stored table, array, mapping, axis order and direction, sampling request and damaged file",
     "Tests load the files that ship with the repository; a row silently dropped or a column shifted in other contents has no test.",
     ["kd/dataset/_base.py", "kd/data.py", "kd/utils/solver.py", "kd/utils/utils_fd.py", "kd/dataset/_info.py", "kd/utils/attrdict.py"],
     [{"name": "file loaders and PDEDataset", "where": "kd/dataset/_base.py"}, {"name": "finite differences", "where": "kd/utils/utils_fd.py"}],
     technique="round-trip monitor: contents written by the harness are compared with everything the loaders, samplers and stencils return",
     note="load_csv_data is documented to return single precision and is compared after that rounding.")

prop("A01", "The web page trains what its form shows and reports what happened",
     "For every dataset the page offers exactly the models that work on it, and training one, in process or as a GPU job, builds the chosen model with the values shown, on the chosen data, and shows that model's equation and figures. "
     "A failure is reported with its cause and leaves no model behind; a job stays available until it ends, is submitted and read as the user who asked, and no session sees another's.",
     ["histories", "inputs", "configurations", "fault_sequences"], "every dataset, model, form content, sequence of page actions, job outcome and mix of users",
     "No test opens the page; form fields pass by position through several hands, and jobs involve another process, other users and failures.",
     ["app.py", "kd/job.py", "kd/runner.py"],
     [{"name": "page and event wiring", "where": "app.py:build_app"}, {"name": "job submission and polling", "where": "kd/job.py"}],
     technique="trace monitor of whole page sessions: recording models, a stand-in job service with faults, and a checker of every component after every action",
     note="Gradio and the Bohrium SDK are absent, so stand-ins keep their calling conventions; jobs run the real runner.")

prop("G01", "DLGA's reported equation denotes the regression it solved",
     "For every chromosome DLGA evaluates, the feature columns are the products of network derivatives its genes name, the coefficients are their least-squares fit to the left-hand side, and the fitness is the penalised error of that fit. "
     "The text and LaTeX equations read back, term by term, to that chromosome and those coefficients for whatever operators the user configured, and unknown operators are refused.",
     ["programs", "inputs", "configurations"], "every chromosome, operator list, meta-data array and data set",
     "Tests fit one dataset with the default operators and only look at the type of the result.",
     ["kd/model/kd_dlga.py", "kd/model/dlga.py", "kd/viz/dlga_eq2latex.py"],
     [{"name": "chromosome evaluation", "where": "kd/model/dlga.py"}, {"name": "LaTeX rendering", "where": "kd/viz/dlga_eq2latex.py"}],
     technique="oracle recomputation of observed evaluations and an independent LaTeX reader",
     note="Feature columns are differentiated independently from the trained network; ill-separated fits are judged for self-consistency only.")
prop("G02", "DLGA's genetic search keeps a valid population and its best individual",
     "Through every generation the population has the configured size, its members are independent well-formed chromosomes over the configured gene range, and the best fitness found so far is never lost. "
     "Crossover and mutation only recombine or edit genes of existing members, and the equation returned is the best individual of the last population.",
     ["histories", "configurations"], "every random draw sequence, population size, operator set and rate",
     "Aliasing and lost elites need particular ties and draw sequences that a single test run does not hit.",
     ["kd/model/dlga.py", "kd/model/kd_dlga.py"],
     [{"name": "genetic operators", "where": "kd/model/dlga.py:DLGA"}],
     technique="online trace monitor over evolution histories",
     note="Populations before and after every operator are logged and judged.")
prop("G03", "DLGA training uses each value at its own point, and leaves inputs alone",
     "The train and validation sets partition the given samples with every value still attached to its coordinates, the network kept is the one with the lowest validation error, and fits repeat exactly from a seed. "
     "No fit changes the caller's arrays, the dataset, or another model.",
     ["inputs", "histories", "configurations"], "every dataset layout, sample, noise level and sequence of fits",
     "Shuffling bugs leave shapes and types intact, so tests that check shapes pass.",
     ["kd/model/dlga.py", "kd/model/kd_dlga.py"],
     [{"name": "training loop", "where": "kd/model/dlga.py:DLGA"}],
     technique="pair look-up monitor on training batches plus replay differential",
     note="Inputs hashed around every fit; checkpoints compared with the recorded validation history.")

DSC = "kd/model/discover/"
prop("D01", "Discover's reward, coefficients and text are those of the equation",
     "Every expression Discover evaluates is scored on the feature columns its terms denote on the data: the coefficients are their least-squares fit to the left-hand side, the reward is the documented fit quality less the documented length penalty, and the reported text shows those coefficients with those terms. "
     "Expressions that are malformed, too deep, not derivative-safe or numerically undefined earn nothing, and rewards are always finite and within [0, 1].",
     ["programs", "inputs", "configurations"], "every expression over the operator library, one- to three-dimensional data, task options",
     "A few fixed expressions on one dataset cannot show that operators, axes and penalties combine correctly.",
     [DSC + "program.py", DSC + "stridge.py", DSC + "pinn.py", DSC + "library.py", DSC + "functions.py", DSC + "task/pde/pde.py", "kd/model/kd_discover.py"],
     [{"name": "regression and reward", "where": DSC + "stridge.py"}],
     technique="oracle recomputation of observed rewards, coefficients and texts",
     note="Collinear terms are judged by their fit, not by their coefficients.")
prop("D02", "Discover reports the best equation it evaluated and trains on real rewards",
     "The reported equation and reward are the best among everything evaluated by that search, the priority queue holds exactly the best distinct expressions seen, and the reward history matches the evaluations. "
     "Each controller update descends the risk-seeking policy gradient of the rewards and sampled sequences of its own step, with the configured entropy and queue terms.",
     ["histories", "configurations"], "every search history, batch, quantile, queue and controller setting",
     "Whether the right samples are kept and reinforced depends on the whole history of a stochastic search.",
     [DSC + "searcher.py", DSC + "controller.py", DSC + "dso/memory.py", "kd/model/kd_discover.py"],
     [{"name": "search loop", "where": DSC + "searcher.py"}],
     technique="online search-trace monitor and gradient recomputation",
     note="Gradients are read from the controller and compared with an independent evaluation of the loss.")
prop("D03", "Discover samples complete expressions obeying the enabled constraints",
     "Every sampled sequence is one complete pre-order expression within the length limits, and no token violates a constraint that is switched on (length, repetition, inverse, trigonometric, relational and derivative constraints). "
     "The observations the controller sees (parent, sibling, previous action, dangling count) are those of the partial expression, and the tokens follow the policy's masked probabilities.",
     ["programs", "configurations", "schedules"], "every constraint set, operator library and draw sequence",
     "Constraint bugs show only for particular partial expressions that a short test run rarely samples.",
     [DSC + "controller.py", DSC + "dso/prior.py", DSC + "state_manager.py", DSC + "dso/subroutines.py", DSC + "task/task.py", DSC + "utils.py"],
     [{"name": "sampling", "where": DSC + "controller.py"}, {"name": "constraints", "where": DSC + "dso/prior.py"}],
     technique="token-by-token reference automaton over sampled sequences",
     note="Constraints that only shift probabilities are not judged as constraints.")
prop("D04", "Discover's LaTeX denotes the equation that was found",
     "The LaTeX printed, and the tree drawn, for any Discover program denotes that program: every operator, argument order, sign, power, derivative axis and order, parameter and coefficient. "
     "Equations use the data set's own field, axis and parameter names and left-hand side.",
     ["programs", "inputs"], "every expression the library can form, in 1, 2 and 3 dimensions",
     "A misprinted bracket or axis changes the reported law and only for particular nestings of operators.",
     [DSC + "stridge.py", DSC + "program.py", "kd/model/discover/pinn.py", "kd/viz"],
     [{"name": "LaTeX of a program", "where": DSC + "program.py"}, {"name": "tree drawing", "where": "kd/viz"}],
     technique="independent LaTeX reader compared numerically with the program",
     note="Coefficients are printed to four decimals and compared to that precision.")
prop("D05", "Discover fits the data set's own values at their own coordinates",
     "Every value in the arrays Discover works on is the data set's value of that field at those coordinates, whatever the axis order, field names, sampling ratio or left-hand side axis. "
     "Sampled training and validation sets are disjoint, as large as requested, reproducible from the random state, and unsupported inputs are refused.",
     ["inputs", "configurations"], "every axis order, shape, spacing and sampling option",
     "A transposed or shifted array of the same shape raises no error and only a misplaced value tells.",
     [DSC + "adapter.py", DSC + "task/pde", "kd/dataset", "kd/model/kd_discover.py"],
     [{"name": "data preparation", "where": DSC + "adapter.py"}],
     technique="provenance look-up of every coordinate and value pair",
     note="Collocation points are judged by bounds and number only.")
prop("D06", "A Discover fit depends only on its data, configuration and seed",
     "Two fits with the same data, configuration and seed sample the same expressions and report the same equation and reward, in one process or several, whatever was fitted before. "
     "Configuration overrides change exactly the named settings, and neither the caller's objects nor other models' settings are altered.",
     ["histories", "configurations", "schedules"], "every sequence of set-ups, fits and overrides in a process",
     "State kept in classes, caches and configuration objects leaks only along particular histories.",
     ["kd/model/kd_discover.py", DSC + "program.py", DSC + "searcher.py", DSC + "dso", "kd/model/kd_discover_regression.py"],
     [{"name": "configuration and seeding", "where": "kd/model/kd_discover.py"}, {"name": "shared state", "where": DSC + "program.py"}],
     technique="differential replay of recorded fits under interfering activity",
     note="Fits that interleave two live models in one process are a documented limitation of the original design and are not judged.")
prop("D07", "Symbolic regression reports the expression it found and predict evaluates it",
     "A KD_Discover_Regression result is the best expression sampled, its reward, mean squared error and constants are those of the training data, and its text is that expression in the caller's variable names. "
     "predict evaluates exactly that expression at any rows, also after other models were fitted, and unusable data are refused.",
     ["inputs", "programs", "histories"], "every data table, operator set, variable naming and expression",
     "Renaming, constant fitting and shared executors go wrong for particular names, expressions and call histories.",
     ["kd/model/kd_discover_regression.py", DSC + "task/regression.py", DSC + "program.py", DSC + "const.py", DSC + "stridge.py"],
     [{"name": "regression task", "where": DSC + "task/regression.py"}, {"name": "prediction", "where": "kd/model/kd_discover_regression.py"}],
     technique="independent evaluation of observed expressions and predictions",
     note="Fitted constants need only be no worse than their starting point.")
prop("D08", "PINN mode fits the observations and embeds the discovered equation",
     "In KD_Discover_SPR a candidate's reward is that of regressing the left-hand side on its terms, all from exact derivatives of the network, and candidates that cannot be evaluated score zero. "
     "Training minimises the data misfit plus the residual of exactly the embedded equation, and never leaves a non-finite network. "
     "The equation embedded is a valid best candidate, and data that cannot be used are refused.",
     ["inputs", "programs", "histories"], "every data set, expression, candidate set and training step",
     "Residuals, gradients and candidate selection look plausible whatever they compute; tests check that numbers come out.",
     ["kd/model/kd_discover.py", DSC + "pinn.py", DSC + "task/pde/pde_pinn.py", DSC + "searcher.py", DSC + "adapter.py", DSC + "stridge.py"],
     [{"name": "PINN", "where": DSC + "pinn.py"}, {"name": "PINN task", "where": DSC + "task/pde"}],
     technique="recomputation of rewards, losses and gradients observed during runs",
     note="Derivatives of the trained network are recomputed by separate automatic differentiation.")
prop("B01", "Estimators keep, report and obey their parameters; public names resolve",
     "For every estimator, get_params returns the settings given or their defaults, an estimator built from them is equal, and set_params changes exactly the named settings, takes effect like constructing with them, and refuses unknown names. "
     "Fitting leaves parameters alone, and the PySR wrapper passes data and settings through unchanged. "
     "Every public name can be imported in any order in a fresh interpreter.",
     ["inputs", "configurations", "histories"], "every parameter combination, change sequence and import order",
     "Tests read back a few settings of a few estimators; a setting that is stored but ignored raises no error.",
     ["kd/base.py", "kd/__init__.py", "kd/model", "kd/dataset/__init__.py", "kd/viz/__init__.py"],
     [{"name": "parameter protocol", "where": "kd/base.py"}, {"name": "lazy names", "where": "kd/__init__.py"}],
     technique="monitoring of estimators against a model of the parameter protocol",
     note="PySR is observed through a recording stand-in, since it is not installed.")

prop("E01", "EqGPT rewards follow from the printed words and the surrogate fields",
     "Every word of a generated equation is evaluated as the derivative or power it spells, for any order of the variables, and the reward of a sentence is that of a least-squares fit of its terms averaged over the cases that can be evaluated. "
     "Sentences outside the admitted form score zero; terms are duplicates only when they have the same factors. "
     "No finite candidate turns a ranking into NaN.",
     ["inputs", "configurations"], "every vocabulary word, sentence, field and variable order",
     "Tests evaluate a handful of sentences on one field; a word that means something else is fitted just as happily.",
     ["kd/model/kd_eqgpt.py", "kd/model/eqgpt/calculate_terms.py", "kd/model/eqgpt/continue_train_GPT_all.py"],
     [{"name": "vocabulary words", "where": "kd/model/eqgpt/calculate_terms.py"}, {"name": "reward", "where": "kd/model/kd_eqgpt.py"}],
     technique="monitoring of evaluated words and rewards against an independent evaluator",
     note="The surrogate is an analytic field; BiLaplace words of three space dimensions are outside the claim.")

prop("E02", "EqGPT returns its best sampled equations, from surrogates of the given data",
     "The result of a fit lists, in order, the best distinct equations of everything sampled, each with the reward a recomputation gives, and a fit repeated with the same seed gives the same result. "
     "The surrogates are those of the requested data in the coordinates the search uses; unusable data or settings are refused. "
     "The language model is causal, samples only admissible words and is trained on the equations it ranked.",
     ["inputs", "configurations", "histories"], "every dataset, seed, setting, ranking history and stored state",
     "Tests stub the search and look at the shape of a result; a lost candidate or a wrong surrogate leaves the shape intact.",
     ["kd/model/kd_eqgpt.py", "kd/model/eqgpt/continue_train_GPT_all.py", "kd/model/eqgpt/gpt_model.py"],
     [{"name": "search loop and ranking", "where": "kd/model/kd_eqgpt.py"}, {"name": "language model", "where": "kd/model/eqgpt/gpt_model.py"}],
     technique="monitoring of complete searches against a record of everything sampled",
     note="Language models are small and random, so that a search takes seconds.")

prop("V01", "Every figure shows the data and the fitted equation it claims to show",
     "Each figure drawn for a fitted SGA, DLGA, Discover, PINN or PySR model plots exactly the data's values, the fitted equation's values, residuals, rewards or losses at their own coordinates, labelled as what they are. "
     "Panels that are compared share a colour scale, metadata and summaries agree with what is drawn. "
     "Drawing repeats identically and changes neither the model nor the caller's objects.",
     ["inputs", "programs", "histories"], "every model state, data set, equation, axis order, option and order of drawing calls",
     "A figure with transposed axes, stale values or another equation is a valid file; tests check that a file appears.",
     ["kd/viz/_adapters", "kd/viz/_helpers.py", "kd/viz/dlga_viz.py", "kd/viz/discover_viz.py", "kd/model/kd_discover.py"],
     [{"name": "plotting adapters", "where": "kd/viz/_adapters"}, {"name": "visualisation data of the models", "where": "kd/model"}],
     technique="interception of figures as they are saved, compared with recomputed values",
     note="Figures are read off their artists, not their pixels; the older stand-alone plotting scripts are not judged.")
prop("V02", "Plotting calls write where they are told and say when there is nothing to draw",
     "A plotting call writes its files only under the folder it was given, or the configured or working folder without one, and reports exactly what it wrote. "
     "Untrained models, unknown intents and unusable data give a warning or an error, never a file or a false report of one. "
     "Adapters and backends resolve to the most specific registration, and no call alters global styles, settings or its arguments.",
     ["inputs", "configurations", "histories"], "every intent, option set, registration history and data contract",
     "Tests draw a few figures into one folder with one style and one registry state.",
     ["kd/viz/api.py", "kd/viz/core.py", "kd/viz/registry.py", "kd/viz/_contracts.py", "kd/viz/_style.py", "kd/viz/equation_renderer.py"],
     [{"name": "plotting facade", "where": "kd/viz/api.py"}, {"name": "registry and contracts", "where": "kd/viz/registry.py"}],
     technique="monitoring of file writes, global state and results of plotting calls",
     note="File names are not specified, only their folder and that different figures do not share a file.")
