"""Per-property design text (composed into DESIGN.md by gen.py)."""
D = {}
D["S01"] = """*Monitored:* every candidate scored (`evaluate_mse`) in real searches over random datasets, plus
synthetic candidates and direct regressions. *Oracle:* own interpreter of the printed tree on own
finite-difference arrays rebuilds each feature column; least squares on the retained support, prediction
and AIC are recomputed. Guarded and legacy division modes, underflow and vanishing terms are driven
deliberately. *Bounds:* grids of 5-30 points per axis, depth up to 5, width up to 6. Data and parameters are also rescaled by
10^-5..10^4; the dense reference is solved with unit columns, so terms small in the data's units count.
"""
D["S02"] = """*Monitored:* all evaluations, populations after every operator, the returned equation; the
offline trace checker requires size, order, score freshness (each member re-scored), monotone best,
membership of the result in the evaluated set, and continuation of a search. Workloads force ties,
tiny pools, p=0/1 rates and long runs."""
D["S03"] = """*Monitored:* every tree after generation, mutation, crossover, replacement and inside searches;
structural oracle walks children indices, leaf/axis classes and depth, compares printed and evaluated
meaning, and checks parents byte-for-byte. Watchdogs decide termination on degenerate variable sets
(one axis, non-x axis names, single variable)."""
D["S04"] = """*Oracle:* a separate LaTeX reader (`vkit/latexsem.py`) with ordinary typesetting rules (subscripts
bind to the nucleus, powers to the nearest group, `\\frac`/`\\partial` operators apply to what follows);
both sides are evaluated with exact sympy derivatives at random points of random smooth fields. Trees are also built by chaining and planting
equal operands and operators deep inside, and fitted models with rescaled data must print every fitted term.
"""
D["S05"] = """*Oracle:* independent stencils and analytic polynomials for every array of the problem context,
over layouts, axis orders, targets, LHS axes, parameter fields, edge deletion and derivative methods;
refusals are driven with one inconsistency at a time. Surrogate networks (trained here, or saved and loaded
again) are compared with their own analytic derivatives, refined grids with the grid they refine, and the
reference equations of the built-in problems are evaluated on the data they ship with."""
D["S06"] = """*Monitored:* replays of the same fit with other fits and random-state noise in between, all inputs
write-protected and hashed; earlier results re-read at the end."""
D["T01"] = """*Oracle:* every returned pair is looked up in the source arrays (values are made unique so a wrong
pairing cannot coincide); completeness by set equality; analytic derivatives on smooth fields; refused
requests one defect at a time; files written by scipy/numpy and read back."""
D["T02"] = """*Oracle:* the catalogue equation text is parsed independently; its finite-difference residual is
measured on windows of the grid and compared with the signal; uniformity, finiteness, independence of
repeated loads, refusal of unknown names."""
D["R01"] = """*Fault injection:* an exception of many kinds (including unserialisable and system ones) is raised at
each stage (loading, construction, fitting, plotting, saving); the offline checker reads whatever the
job left on disk together with the exit status. Real models run in a few cases; otherwise a recording
stand-in shows what the model received."""
D["T03"] = """*Round trips:* files written here (five number styles, four encodings, quoted or not, with and without a header;
text, binary and MATLAB containers; damaged ones too) are read by every public loader and compared value by
value. Hand-made tables carry a distinct number in every cell, so samples, transposed and descending axes,
and pictures can be traced to their cell; stencils are compared with polynomials they must differentiate
exactly; descriptions and nested mappings with a plain-dictionary model. Write-protected inputs and digests
show whether anything was changed in place."""
D["A01"] = """*Sessions:* `vkit/gradio_stub.py` keeps Gradio's event contract (inputs by position, the request injected,
`update` fields, change events), so a page is opened, filled in by its visible labels and its buttons pressed
as a user does. *Monitors:* recording models note what they were built and fitted with; a stand-in job service
keeps the uploaded configuration, runs the real runner on nothing else, walks through status codes, fails on
request and notes the credentials of every call; after each action every component of every open session is
compared with what that user did. Real models run behind the page in a few cases and every figure offered is
asked for; scratch folders show what was left behind. Job numbers are spaced by 1..10^6 so that folders
of different jobs could collide; some jobs leave a picture, others none.
"""
D["G01"] = """*Oracle:* network derivatives recomputed by wide double-precision stencils (or closed form, with an
analytic network), feature products, total least squares, penalty; text and LaTeX parsed independently
for arbitrary operator lists; the expert-level `DLGA` class is driven too."""
D["G02"] = """*Trace checker* over every cross-over, mutation, duplicate-removal and ranking step of real searches
(both classes), including aliasing of members, conservation of genes and monotone best."""
D["G03"] = """*Monitored:* batches entering the loss, checkpoints against the recorded validation history,
write-protected inputs, exact replays."""
D["D01"] = """*Monitored:* every program written down by the harness or produced by a real search. *Oracle:* an own
parser and evaluator of the pre-order names (derivatives by own stencils on the correct axis of 1-3-D
fields) rebuilds the columns, least squares, reward, penalty and text; a separate list of forbidden
expressions decides refusals; programs within rounding of a pole or underflow are not judged."""
D["D02"] = """*Monitored:* sampled batches, rewards, quantile selection, queue pushes and controller gradients
of every step of real searches over randomised controller settings; the loss is re-derived from the
sampled sequences in float64 and its gradient compared. Searches are repeated on one model
(restart and continuation), and the queue is driven through long push histories."""
D["D03"] = """*Monitored:* every token of every sampled sequence with the logits, masks and observations it was drawn
from. *Oracle:* a reference automaton for each constraint replays the prefix; expression completeness
and length limits; the empirical token frequencies against the policy with a 6-sigma bound."""
D["D04"] = """*Monitored:* the LaTeX of random programs over the whole operator vocabulary (also those a fit reports),
and the labels of the drawn trees. *Oracle:* `vkit/latexsem.py`, a LaTeX reader written without the
printer, rebuilds a symbolic expression; it is compared with the program's own meaning (sympy, exact
derivatives of concrete fields) at random points. Names that contain one another, constants, parameters
and non-standard axis names are drawn on purpose. Bounds: expressions up to about 20 tokens."""
D["D05"] = """*Monitored:* every array an adapter hands to Discover. *Oracle:* the field values are distinct numbers, so
each (coordinates, value) pair is looked up in the source table; sizes, disjointness, bounds, noise level
and refusal of unusable inputs follow from the request alone. Workloads permute axis order, names, sizes
(also equal sizes, where a transposition is silent), left-hand side axis and sampling options."""
D["D06"] = """*Monitored:* every batch sampled by a fit (tokens, rewards), its result and files. *Oracle:* the same fit
in a fresh state. Between the two the process is disturbed: other models fitted, second set-ups, global
RNGs advanced, configuration objects shared, separate processes started. Overrides are compared with a
model of nested dictionary update."""
D["D07"] = """*Monitored:* everything sampled by a fit, each program's reward, constants, text and predictions.
*Oracle:* an evaluator of pre-order lists written here, the stated metric, and renaming by position.
Variable names that contain one another or equal operator names are drawn on purpose; other models are
set up between fit and predict."""
D["D08"] = """*Monitored:* every program scored in PINN mode, every PINN loss, gradient and embedded equation, before
and after training. *Oracle:* derivatives of the network by separate automatic differentiation, a least-squares
solution of the printed terms, losses and gradients assembled from the request, and a ranking of the observed
candidates. Non-finite residuals, searches without any valid candidate, constant parameter fields and
inseparable Laplacians are produced on purpose."""
D["B01"] = """*Monitored:* parameters reported before and after every change, the behaviour of changed estimators and
everything handed to the PySR backend. *Oracle:* a dictionary model of the settings, and an estimator constructed
with them observed on the same data. Fresh interpreters import names in random order in an empty directory."""
D["E01"] = """*Monitored:* the values every word evaluates to, every reward, the masks of the sampler and the duplicate
test. *Oracle:* `vkit/eqgpt_ref.py`, an evaluator of the words by automatic differentiation of analytic fields, a
least-squares fit of the terms and a grammar of the admitted sentences, written from the documentation. Fields of
tiny scale, cases that cannot be evaluated and permuted variable orders are drawn on purpose."""
D["E02"] = """*Monitored:* everything a search samples, scores, ranks, trains on and stores. *Oracle:* the record of all
sampled sentences re-ranked and rescored here; the same search in a fresh state; surrogate outputs against the data in
the coordinates requested; causality of the language model by perturbing later words; a model of the running top ten."""
D["V01"] = """*Monitored:* every artist (meshes, scatters, lines, bars, texts, drawn graphs) of every figure at the moment it is
saved, with the titles and labels of its panel. *Oracle:* values of the fitted equation, its residuals, slices, errors, histories and
tables recomputed from the data by the reference evaluators of the other properties; meshes are looked up at the data's own coordinates,
so a transposition is seen. Models, source data and global state are digested before and after, and each drawing is repeated."""
D["V02"] = """*Monitored:* every file opened for writing, the listing of the folders involved, printed reports, returned results,
warnings and the global matplotlib / numpy / random state. *Oracle:* the folder rule, the intents each model supports, a model of the registry
(nearest class in the MRO, last registration), and the stated shapes of the data contracts. Files and folders are scratch ones."""

MORE = {
 "B01": "Parameters are also followed into the parts built from them (solvers, controllers, genetic engines), by recording what those were constructed with.",
 "G01": "Coefficients at the extremes of their printed formats are driven through the text and LaTeX renderers.",
 "G02": "The reported history is recomputed from the populations the trace saw.",
 "D03": "Libraries mix N-D, tensor-based, constant and state tokens; soft length priors and whole-sequence constraint calls are compared with the step-by-step automaton.",
 "D04": "Derivatives of wide expressions, several embedded equations and axis names of several letters are drawn as well.",
 "E01": "Malformed, incomplete and singular sentences (poles of every kind) are scored and masked too.",
 "E02": "Records stored in another order than sampled are reread and retrained on.",
 "V01": "Fields drawn from scattered points are compared with an interpolation of those points, reduced axes with the documented section for three to five axes; unpaired or half-given data must not be drawn.",
}
for _k, _v in MORE.items():
    D[_k] = D[_k].rstrip() + "\n" + _v
