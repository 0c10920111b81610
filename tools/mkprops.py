#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for id, title, statement, anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["featselect/" + f if "/" not in f and f.endswith(".go") else f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Branch and bound returns the AICc optimum",
  "With cutoff 0 and no queue limit, the best entry of the result list of a branch-and-bound search has the lowest AICc (computed with a residual sum of squares of at least 1e-12) of all non-empty sub-models with fewer features than observations. This holds for every data set, every starting (root) model, every capacity of the result list, a result list that already holds the results of an earlier (possibly incomplete) search on the same data, and every interleaving of the search's workers.",
  ["inputs", "configurations", "schedules"],
  "all data sets with at least 3 features (also more features than rows, collinear, exactly fitting data), all root models, all list capacities >= 1, all goroutine schedules",
  "The tests run a handful of fixed data sets with an all-false root under whatever schedule the runtime picks; pruning decisions race with insertions, so optimality is a claim over all schedules and all roots.",
  ["optimize.go", "criteria.go", "highscore.go", "node.go"],
  [("bound pruning", "optimize.go: CreateChild, CleanQueue"), ("root scored before the workers start", "optimize.go: SelectModel"), ("tree enumeration", "node.go: GetChildNode")],
  [("queue", "nodes whose children have not been created yet", "optimize.go: SelectModel"), ("highscore", "best models so far; read by the pruning workers", "highscore.go")],
  ["SelectModel's result list", "the design matrix' element accesses (a delaying matrix perturbs the schedule)"])

p("C02", "Branch-and-bound result lists tell the truth about every entry",
  "Every entry of a branch-and-bound result list is a distinct non-empty model (a list filled by several searches may hold a model once per search) with fewer features than observations, its coefficients are the least-squares fit of exactly its own features in ascending feature order, and its score is minus its AICc. The AICc of the entry lies within the lower and upper bound stored with it. The list is sorted by descending score.",
  ["inputs", "configurations", "schedules"],
  "all data sets, root models, list capacities, cutoffs, queue limits and goroutine schedules",
  "Tests compare only the best model or the score list of a few runs; duplicates, coefficients belonging to another model and broken bounds of lower-ranked entries stay unnoticed.",
  ["optimize.go", "highscore.go", "node.go", "fit.go", "criteria.go"],
  [("each model is new at exactly one node", "optimize.go: isNewNode"), ("fit and score of one node", "optimize.go: ScoreWorker"), ("sorted insertion", "highscore.go: Insert")],
  [], ["SelectModel's result list"])

p("C03", "Branch-and-bound search always finishes and releases its workers",
  "A branch-and-bound search returns for every valid input without panicking or deadlocking, whatever the root model, cutoff, queue limit and interleaving of its workers. When it has returned, all goroutines it started come to an end.",
  ["inputs", "configurations", "schedules"],
  "all data sets with >= 3 features, root models, cutoffs (also negative or huge), queue limits (also 0 and 1), all goroutine schedules",
  "Termination depends on an in-progress count shared by unbuffered channels, a queue that is pruned concurrently and a channel shutdown; tests see only the schedules that happened.",
  ["optimize.go"],
  [("in-progress counting and loop exit", "optimize.go: SelectModel"), ("worker shutdown by closing channels", "optimize.go: SelectModel, ScoreWorker, CreateChildNodes")],
  [("numInProgress", "children handed to the workers that have not been answered", "optimize.go")],
  ["return of SelectModel", "number of goroutines after the return"])

p("C04", "Cutoff and queue limit only cut what they are documented to cut",
  "A search with cutoff c never loses a model unless a subtree containing it has lower bound + c above the best criterion of the final list; in particular a cutoff <= 0 never loses the optimum, and with a sufficiently large cutoff nothing but the root and already scheduled models is evaluated. A search into a list with room for all models loses none of the entries an earlier search left there. A queue limit that is never reached does not change the result; one that is reached costs optimality only - the surviving list still consists of true models.",
  ["inputs", "configurations", "schedules"],
  "all data sets, cutoffs of both signs, queue limits, root models and schedules",
  "No test passes a cutoff other than zero or a queue limit small enough to be reached.",
  ["optimize.go", "cmd/bnb.go"],
  [("cutoff added to the bound", "optimize.go: CreateChild, CleanQueue call"), ("least promising removal", "optimize.go: RemoveLeastPromising")],
  [("params.Cutoff, params.MaxQueueSize", "user options", "optimize.go: SelectModelOptParams")],
  ["SelectModel's result list with capacity above 2^p, which reveals the explored set"])

p("C05", "Bounds enclose the criterion of every sub-model",
  "For a model with its first k features decided, the lower bound is at most, and the upper bound at least, the criterion (AIC respectively AICc, residual sum of squares clamped at 1e-12) of every non-empty model that agrees with it on the first k features and has fewer features than observations. When all features are decided both bounds equal the criterion of the model. Deciding one more feature never loosens either bound.",
  ["inputs"],
  "all data sets, models and levels 0..p, also more features than rows and collinear or exactly fitting data",
  "Tests check one random matrix; a bound that is wrong only for some level, for collinear data or near n-1 features makes the search lose optima silently.",
  ["criteria.go", "optimize.go"],
  [("greatest/least common model", "optimize.go: Gcs, Lcs"), ("bounds", "criteria.go: bounds, BoundsAIC, BoundsAICC")],
  [], ["return values of BoundsAIC and BoundsAICC"])

p("C06", "The highscore list is a sorted, bounded list that never loses a top entry",
  "After any sequence of insertions the highscore list is sorted by descending score, contains only inserted nodes (none more often than inserted), and never exceeds its capacity. It always retains the best max(1, capacity-1) of the inserted nodes (ties resolved arbitrarily), and keeps everything while fewer than capacity-1 nodes were inserted. Best score and score list describe exactly the retained nodes.",
  ["histories"],
  "all capacities >= 1 and all sequences of insertions, with ties, infinities and negative scores",
  "Tests insert two short fixed sequences; the off-by-one prone capacity logic has different branches for ties, full and nearly full lists.",
  ["highscore.go"],
  [("insertion and eviction", "highscore.go: Insert")],
  [("Items", "nodes in descending order of score", "highscore.go")],
  ["Len, BestScore, Scores, Items after every insertion"])

p("C07", "Results observed while a search is running are consistent",
  "A highscore list (scores, best score or JSON encoding) read while a branch-and-bound search is running is always a sorted list of true, distinct models, its best score never decreases from one read to the next, and reading never disturbs the search, its result, or causes a data race. The progress record always shows a combination that was true at one moment: explored count and pruned volume never decrease, and they never exceed the number of models. After the search it equals the final list's best score and the number of models that were scored.",
  ["schedules", "inputs"],
  "all interleavings of readers with a running search",
  "No test reads the list or the progress while a search is running, although the command line tool does so periodically.",
  ["highscore.go", "searchProgress.go", "optimize.go", "cmd/bnb.go"],
  [("reader/writer lock of the list", "highscore.go"), ("reader/writer lock of the record", "searchProgress.go: Set, Get")],
  [("SearchProgress", "best score, explored count, log2 of pruned volume", "searchProgress.go")],
  ["BestScore, Scores, MarshalJSON, SearchProgress.Get called concurrently"])

p("C08", "Persisted results decode to what was encoded",
  "Encoding a node, a highscore list, a data set or a lasso path to JSON and decoding it yields an equal value: same models, coefficients, scores, bounds, levels, capacity, order, matrices, targets, column names and target column. This holds for every list history (also with ties and after evictions), for zero-value receivers and for files as well as byte slices, and the equality functions report a difference if and only if one of these fields differs by more than the tolerance.",
  ["inputs", "histories"],
  "all nodes, lists, data sets and paths with finite numbers",
  "Tests round-trip one hand-written value per type.",
  ["node.go", "highscore.go", "csvIO.go", "lassoPlot.go"],
  [("codecs", "MarshalJSON/UnmarshalJSON of Node, Highscore, Dataset; LassoLarsPathFromJSON/Bytes"), ("equality", "NodesEqual, Highscore.Equal, Dataset.IsEqual")],
  [], ["values before and after"])

p("C09", "The SA candidate list keeps the best distinct models with their own data",
  "After any sequence of insertions of candidates in which equal feature selections carry equal coefficients and scores, the SA candidate list holds at most its capacity of candidates with pairwise different selections, namely the best of all distinct candidates inserted (ties resolved arbitrarily). Each candidate carries its own coefficients and score. The recorded best candidate is the best one ever inserted and the recorded worst one has the lowest score in the list.",
  ["histories"],
  "all capacities >= 1 and all insertion sequences including duplicates, ties and re-insertion of evicted candidates",
  "Tests insert short sequences and look at scores only.",
  ["saScore.go"],
  [("duplicate check and replacement of the worst item", "saScore.go: Insert, Exists")],
  [("Items, BestItem, WorstItem", "retained candidates and the two extremes", "saScore.go")],
  ["exported fields after every insertion"])

p("C10", "Simulated annealing explores legal models and reports them faithfully",
  "The annealing search evaluates only models with at least one and (for four or more rows) fewer than half as many features as there are rows, moving by at most one feature at a time from the current model, which an evaluated model with lower cost always replaces. It terminates, and what it returns is faithful: the selection and coefficients returned and those of every listed candidate are least-squares fits of their own models with score minus the cost of that model, and the candidate list holds the best distinct accepted models. The cost function is called with the true feature count, row count and clamped residual sum of squares of the model under evaluation.",
  ["inputs", "histories", "configurations"],
  "all data sets with at least 4 rows, all sweep counts >= 1, all cost functions with finite values, all random sequences",
  "Tests run one seeded search and compare the final selection.",
  ["simmulatedAnnealing.go", "saScore.go"],
  [("single-flip move with revert", "simmulatedAnnealing.go: SelectModelSA"), ("candidate list", "saScore.go")],
  [("current model, temperature, acceptance counters", "state of the chain", "simmulatedAnnealing.go")],
  ["calls of the cost function passed in", "returned result"])

p("C11", "Exhaustive search lists every non-empty model exactly once",
  "The brute-force search returns a list that contains every non-empty feature subset exactly once (for more observations than features), each with its least-squares coefficients and minus its AICc as score, sorted by descending score. Its best entry is the AICc optimum, the same one branch and bound must find (models that fit the data exactly may score higher than the clamped AICc).",
  ["inputs"],
  "all data sets with more rows than features and up to a handful of features",
  "Tests compare it with branch and bound on one data set, where both could share an error.",
  ["optimize.go", "node.go", "highscore.go"],
  [("tree walk with new-node rule", "optimize.go: BruteForceSelect, isNewNode"), ("child creation", "node.go: GetChildNode")],
  [], ["returned list"])

p("C12", "Coordinate-descent lasso solutions satisfy the optimality conditions",
  "If coordinate descent converges, its coefficients satisfy the optimality (KKT) conditions of the lasso (or elastic-net) problem for the given regularisation and covariance estimate to within the convergence tolerance: active features have correlation with the residual equal to the regularisation times their sign, inactive features at most that. This holds from every starting point, which is left unmodified, and for data with and without a constant first column (whose coefficient stays zero). The penalties report their derivative: strength times coefficient for the elastic net, and for the covariance lasso strength times the projection of the coefficients onto those it was last given (zero without any).",
  ["inputs", "configurations"],
  "all normalised data sets, regularisations, starting points and tolerances with the empirical or identity covariance",
  "Tests compare a few fixed problems; a feature that is wrongly dropped or a stale product is visible only for particular correlations.",
  ["lassoCrdDesc.go", "lassoCorrections.go", "covarianceMatrix.go"],
  [("coordinate update, active-set shrinking and re-admission", "lassoCrdDesc.go: LassoCrdDesc, UnsatisfiedKKTConditions, UpdateCovDotBeta"), ("penalty corrections", "lassoCorrections.go")],
  [("beta, covDotBeta, active index set", "solver state", "lassoCrdDesc.go")],
  ["returned coefficients"])

p("C13", "A coordinate-descent path has the right solution at every regularisation",
  "The coordinate-descent path for an ascending list of regularisations contains, in descending order, exactly one node for each regularisation from the largest one with a non-empty solution downwards (all of them if every solution is empty). Each node carries its own regularisation and the solution of that lasso problem, with ascending feature indices. This holds for any number of regularisations and every completion order of the parallel workers, which all end when the path is returned.",
  ["inputs", "schedules"],
  "all regularisation lists (shorter and longer than the worker count), data sets, completion orders",
  "Tests run a fixed list; results arrive from ten workers in arbitrary order and are stored by index.",
  ["lassoCrdDesc.go"],
  [("work distribution by index", "lassoCrdDesc.go: LassoCrdDescPath, PerformLassoCrd")],
  [("nodes, availableLambs", "results by position, regularisations not handed out", "lassoCrdDesc.go")],
  ["returned path", "goroutine count after the return", "covariance/correction callbacks (delaying them perturbs the completion order)"])

p("C14", "LARS path nodes are exact lasso solutions at the knots of the path",
  "Every node of a LARS path is the lasso solution for its regularisation: selected features have absolute correlation with the residual equal to it, with the sign of their coefficient, all other features at most that. Regularisations strictly decrease along the path from the largest absolute correlation of a single feature, stay above the requested minimum, and consecutive nodes differ by exactly one feature entering or leaving; solutions between two consecutive nodes are linear interpolations. The path describes the solutions all the way down to the requested minimum, with selections that are ascending and without duplicates.",
  ["inputs"],
  "all normalised data sets in general position with more rows than features, all minimum regularisations > 0",
  "Tests compare one data set with reference output.",
  ["lasso_lars.go", "lasso_cd.go", "subview.go"],
  [("joining and crossing times", "lasso_lars.go: tJoin, tCross, LassoLars"), ("active-set parameters", "lasso_cd.go: MorsePenroseCD")],
  [("activeSet, signs, lamb, last", "state of the homotopy", "lasso_lars.go")],
  ["returned nodes"])

p("C15", "Normalisation is exact and un-normalised coefficients predict the same",
  "Normalising data gives every non-constant column and the target zero mean and unit variance; only the first column may be constant (detected as bias), any other constant column is refused whatever its value. Transforming the coefficients of a path back to original units yields the same predictions of the target on the original data as the normalised coefficients do on the normalised data, with an intercept at feature 0 added exactly when the data has a constant first column of ones (without one: the same predictions up to a constant). Regularisation and the other selected features are unchanged.",
  ["inputs"],
  "all data sets with at least two rows, all paths over them",
  "Tests check one data set; a wrong mean or standard deviation for one column is visible only when that column is selected.",
  ["normalized_dataset.go", "lasso_lars.go", "util.go"],
  [("normalisation and its inverse", "normalized_dataset.go: NewNormalizedData, LinearNormalizationTransformation, LinearTransformationBias; lasso_lars.go: Path2Unnormalized"), ("array/row/column normalisers", "util.go: NormalizeArray, NormalizeRows, NormalizeCols, Mean, Std")],
  [], ["predictions before and after"])

p("C16", "Path summaries describe the path",
  "The criteria values of a path are, node by node, the criterion of the number of selected features, the number of observations and the residual sum of squares of that node. The most relevant features are the features in the order in which they enter the path, stopping with the first node that completes the requested number. The extracted trajectory of a feature has one point per node at log10 of its regularisation with its coefficient, or zero where it is not selected; path plots contain every feature up to the largest selected one and entrance plots the first entrance of every selected feature; quality and deviation plots contain one point per node at its criterion and residual. The printed ranking lists the requested number of nodes with the lowest criterion in ascending order.",
  ["inputs"],
  "all paths with ascending selections, all feature numbers and counts",
  "Tests only check that plotting does not fail.",
  ["lassoPlot.go"],
  [("criteria", "lassoPlot.go: GetCriteria"), ("ranking", "lassoPlot.go: PickMostRelevantFeatures"), ("trajectories and plots", "lassoPlot.go: ExtractPath, PlotPath, PlotEntranceTimes, MaxMinFeatNo")],
  [], ["return values"])

p("C17", "Nested lasso keeps feature identity and the caller's data",
  "Nested lasso runs a sequence of lasso paths, each on the most relevant floor(keep x current) features of the previous one, and ends once at most two features would remain. Every node of every returned path names features by their index in the caller's data set, whatever the position of the target column, with coefficients that predict in original units exactly what the lasso solution on the surviving features predicts. The caller's data set is not modified.",
  ["inputs", "configurations"],
  "all data sets with any target position and with or without bias column, keep fractions below 1, minimum regularisations",
  "The test only checks that it runs.",
  ["nestedLasso.go", "csvIO.go", "lassoPlot.go"],
  [("subset and name mapping", "nestedLasso.go: NestedLasso, MapSelectionByName; csvIO.go: GetSubset, FeatNoByName, GetFeatName")],
  [("curDset, survivors", "data set of the current iteration", "nestedLasso.go")],
  ["returned paths", "data set after the call"])

p("C18", "Orthogonal matching pursuit is greedy, orthogonal and stops in time",
  "Orthogonal matching pursuit adds in each step the feature with the largest absolute cosine with the current residual (ties arbitrary), then refits all features chosen so far by least squares; no feature is listed twice. It stops as soon as the root mean square residual is below the tolerance or all features are used, and the returned coefficients are the least-squares fit of the listed features, zero for all others.",
  ["inputs"],
  "all data sets with non-zero columns, tolerances >= 0",
  "Tests run a few constructed examples and compare the order.",
  ["orthogonalMatchingPursuit.go"],
  [("greedy loop and trimming", "orthogonalMatchingPursuit.go: Omp")],
  [("model, residuals, Order", "chosen features, current residual, order of choice", "orthogonalMatchingPursuit.go")],
  ["returned order and coefficients"])

p("C19", "CSV data is read and written faithfully",
  "Reading a CSV file with a header puts the column chosen as target (negative numbers count from the end) into the target vector and all other columns in order into the feature matrix, with every number parsed exactly (space padding allowed, non-numbers read as 0) and the header names kept. Saving a data set and reading it back with the same target column gives the same names, target and features to within the 6 printed decimals, wherever the target column is.",
  ["inputs"],
  "all rectangular tables with header, all target columns, all finite numbers in decimal or exponent notation",
  "Tests read one small example per target position.",
  ["csvIO.go"],
  [("parser", "csvIO.go: ParseCSV, ReadCSV"), ("writer", "csvIO.go: Save, SaveHandle")],
  [], ["the parsed data set", "the written text"])

p("C20", "Feature names, subsets and copies of data sets stay attached to the data",
  "In every data set, and in every subset of a subset of it, the name of feature i is the name of the column its values came from, looking up a feature by name is the inverse of that for every target position, and the target and its name are kept. A subset contains exactly the requested features in the requested order. Subsets and copies share no storage with the original: changing one never changes the other.",
  ["inputs", "histories"],
  "all data sets with distinct names, all target positions, all sequences of subset and copy operations and writes",
  "Tests take one subset of one data set.",
  ["csvIO.go"],
  [("name/index mapping", "csvIO.go: GetFeatName, FeatNoByName, GetSubset, Copy, IsEqual")],
  [("Names, TargetCol", "header including the target, position of the target", "csvIO.go")],
  ["data sets after every operation"])

p("C21", "Cohen's kappa of two selections is the agreement statistic",
  "Cohen's kappa of two feature selections over N features equals (observed agreement - chance agreement)/(1 - chance agreement) computed from the 2x2 table of joint membership. It is symmetric, independent of the order of the features, exactly 1 for identical selections (including both empty and both full), and never above 1 nor below -1.",
  ["inputs"],
  "all pairs of subsets of {0..N-1}, N >= 1, in any order",
  "Tests check a few pairs of sets.",
  ["util.go"],
  [("contingency counts", "util.go: CohenKappa")],
  [], ["return value"])

p("C22", "Stability selection samples disjoint halves and returns the most stable target",
  "A kappa estimate averages, over the requested number of repetitions, the kappa of the selections made on two disjoint halves (floor and ceiling of n/2 rows) of a random partition of all rows. The kappa sequence evaluates every given target exactly the requested number of times and returns the hyper parameters of a target with the largest kappa, also when no kappa is positive, for any number of targets and any completion order; its workers end with it. It prints the text and the kappa of every target once as it becomes known and once in a summary in ascending order of kappa.",
  ["inputs", "schedules"],
  "all targets (deterministic selections), numbers of targets below and above the worker count, completion orders, random partitions",
  "Tests use one target type and positive kappas.",
  ["cohens_kappa.go", "lassoCrdDesc.go"],
  [("random halves", "cohens_kappa.go: GetCohensKappa"), ("worker pool and arg max", "cohens_kappa.go: CalculateCohenSequence, CohensKappaWorker")],
  [], ["calls of the target interface passed in", "returned hyper parameters", "goroutine count"])

p("C23", "The covariance threshold minimises the cross-validated distance",
  "The threshold search returns exp(-10 + j*step) for a grid index j that minimises the average, over the requested number of random row partitions, of the Frobenius distance between the thresholded covariance of one part and the plain covariance of the other, every grid point being evaluated on the same partitions. Thresholding zeroes exactly the entries whose absolute value is below the threshold and counts them. The sparse covariance estimator returns the empirical covariance thresholded with such a minimising threshold, the same on every use, and refuses another data matrix. Row splits are partitions of the rows, and all workers end with the search.",
  ["inputs", "schedules", "configurations"],
  "all data matrices with more than 3 rows, sample counts and grid steps, completion orders",
  "Tests check one matrix with a wide margin.",
  ["thresholdCov.go", "covarianceMatrix.go"],
  [("grid search with worker pool", "thresholdCov.go: L2ConsistentCovTO, CalculateFNormDiff"), ("threshold operator", "thresholdCov.go: Apply"), ("covariance and splits", "thresholdCov.go: CovarianceMatrix, RandomRowSplit")],
  [("meanNormDiff, gridPt, numReceives", "accumulated distances and position in the sweep", "thresholdCov.go")],
  ["returned operator's effect on a probe matrix (its threshold)", "goroutine count"])

p("C24", "Polynomial expansion contains every monomial exactly once",
  "The expansion of a matrix to degree d has the original columns followed by exactly one column for every monomial in the given columns with total degree between 2 and d, each equal to the product of the powers of the original columns. Single columns, the column count and the full matrix agree. The Cartesian product of k copies of a value list contains each of the n^k tuples exactly once, each independent of the others.",
  ["inputs"],
  "all matrices, column subsets and degrees, explicit powers added in any order",
  "Tests expand to degree two with two or three columns, where shared tuples cannot show.",
  ["lazyPowerMat.go", "util.go"],
  [("Cartesian product", "util.go: IterProduct"), ("monomials", "lazyPowerMat.go: AddPowerSequence, GetCol, FullMatrix")],
  [], ["columns of the expansion", "tuples"])

p("C25", "All representations of a feature set agree",
  "The bit-array model, the boolean model, the index list and the design matrix of a feature set describe the same set through any sequence of set and flip operations and conversions, for any number of features. Setting or flipping one feature affects no other, the greatest and least common models change only undecided features, and the design matrix contains exactly the selected columns in ascending order, as do indexed views of a matrix or vector.",
  ["inputs", "histories"],
  "all feature counts (across byte boundaries), operation sequences, subsets",
  "Tests use one or two sizes and a couple of bits.",
  ["model.go", "optimize.go", "util.go", "node.go", "orthogonalMatchingPursuit.go", "saScore.go", "subview.go", "sliceVec.go"],
  [("bit arithmetic", "model.go: Get, Set, Flip, ToBools"), ("conversions", "util.go: Selected2Model, GetDesignMatrix, FullCoeffVector; orthogonalMatchingPursuit.go: SelectedFeatures; node.go: ToSparseCoeff; optimize.go: Gcs, Lcs, NumFeatures"), ("views", "subview.go, sliceVec.go")],
  [("bits", "packed features", "model.go")],
  ["return values after every operation"])

p("C26", "The command line tools deliver what the library computes",
  "Running the command line tools on a CSV file ends with exit status 0 and an output file in the documented format: the branch-and-bound tool's best entry is the AICc optimum of the data, the annealing tool's list contains true models only, and the lasso tool's path consists of the lasso solutions in original units together with their AICc and BIC, for the least-angle and the coordinate-descent algorithm. The target column, output file, cutoff and regularisation options are honoured.",
  ["inputs", "configurations"],
  "all data files and option combinations of the sub-commands (branch and bound needs at least three features)",
  "No test runs the command line tools.",
  ["cmd/bnb.go", "cmd/sasearch.go", "cmd/lasso.go", "cmd/root.go", "main.go"],
  [("option plumbing and output", "cmd/bnb.go: findOptimalSolution; cmd/sasearch.go: saSearch; cmd/lasso.go: lassoFit")],
  [], ["exit status and output file of the built binary"])

p("C27", "Fits are least-squares solutions and criteria follow their formulas",
  "The fit of a design matrix minimises the residual sum of squares; with collinear columns it is the minimiser of smallest norm. Predictions are the matrix-vector products of data and coefficients and the residual sum of squares is the sum of squared differences. AIC, AICc and BIC follow their textbook formulas (AICc with denominator 1 once the feature count reaches the number of observations minus one), and the generalised cross-validation score equals the root mean of squared residuals weighted by one over one minus the leverage.",
  ["inputs"],
  "all well-scaled design matrices (full rank, rank deficient, more columns than rows) and targets; all feature and observation counts",
  "Tests fit three small systems.",
  ["fit.go", "criteria.go", "util.go"],
  [("pseudo-inverse solution", "fit.go: Fit; util.go: PseudoInverse, PseudoInverseXTX"), ("criteria", "criteria.go: Aic, Aicc, Bic; fit.go: Rss, Gcv, DenumMatrixGcv")],
  [], ["return values"])

p("C28", "Selection utilities honour their contracts",
  "Sorting indices yields a permutation that orders the values ascending; minimum and maximum helpers return an extreme value or its first index; unions keep order and contain each entry once; column rearrangement is a permutation of the columns that starts with the requested ones. Model weights are positive, sum to one and are ordered opposite to the criterion with ratio exp(difference), weighted coefficient averages are linear, and log-spaced values have constant ratio with exact end points. The running base-2 logarithm of pruned counts equals the logarithm of the sum.",
  ["inputs"],
  "all arrays, selections, weights and ranges",
  "Tests use one or two fixed arrays per helper.",
  ["util.go", "orthogonalMatchingPursuit.go"],
  [("helpers", "util.go: Argsort, Argmin, MaxInt, MinInt, MinFloat, UnionInt, RearrangeDense, WeightsFromAIC, WeightedAveragedCoeff, Logspace, NewLog2Pruned; orthogonalMatchingPursuit.go: Argmax")],
  [], ["return values"])

p("C29", "Requests that do not fit together are refused without an effect",
  "A request whose parts do not fit together is refused - by a panic, an error or a non-zero exit status - and never answered with a result: data, targets, coefficients, weights or selections of different lengths, an empty design, a root model of another length or fewer than three features for branch and bound, a constant column other than the first in normalisation, another matrix than the one a sparse covariance estimate was made for, unknown feature names, columns, files, commands, options, algorithms and covariance types, ragged, empty or wrongly quoted CSV data, truncated, ill-typed or inconsistent JSON, and output files that cannot be written. A refused command leaves an existing output file untouched, a refused decoding its receiver. The corresponding requests that do fit together are answered.",
  ["inputs", "configurations"],
  "all shapes (numbers of rows, columns, entries), all cuts and type errors in an encoded value, all listed faults in a command line",
  "Tests only make requests that fit together; what must not be answered is the complement, an unbounded set of shapes and damaged files.",
  ["fit.go", "util.go", "optimize.go", "csvIO.go", "highscore.go", "node.go", "lassoPlot.go", "lassoCrdDesc.go", "lasso_lars.go", "covarianceMatrix.go", "normalized_dataset.go", "cmd/bnb.go", "cmd/lasso.go", "cmd/sasearch.go", "cmd/root.go"],
  [("length and dimension guards", "fit.go: Fit, Rss; util.go: GetDesignMatrix, WeightedAveragedCoeff; lassoCrdDesc.go: MulSlice; lasso_lars.go: NewLassoLarsNode; optimize.go: SelectModel"),
   ("decoding errors are passed on", "highscore.go, node.go, csvIO.go: UnmarshalJSON; lassoPlot.go: LassoLarsPathFromBytes, LassoLarsPathFromJSON; csvIO.go: ParseCSV"),
   ("exit status", "cmd/root.go: Execute; cmd/bnb.go, cmd/lasso.go, cmd/sasearch.go: writing the result")],
  [], ["panics, errors and exit statuses", "output files", "receivers of decodings"])

p("C30", "The stand-alone tools deliver what the library computes",
  "The stand-alone tools end with status 0 and leave exactly their documented files behind, or with another status if they cannot. The nested-lasso tool writes the nested lasso paths of the CSV file for the given target column, kept fraction and smallest regularisation, in original units, together with the data. The stability tool reports one agreement between -1 and 1 for each of the requested number of log-spaced regularisations, first as it becomes known and then in a summary in ascending order of agreement (regularisations without any selected feature agree perfectly). The plot tool writes the four figures of a path in the given format, with the given coefficient range if the limits differ. The queue tool reports the number of nodes that fit into the given memory, a node taking one byte per feature, eight per coefficient and 29 more. Options that are not given have their documented defaults.",
  ["inputs", "configurations"],
  "all option combinations of the four tools, data files and lasso paths",
  "No test runs the tools.",
  ["cmdDepreciated/goselect-nestedlasso/main.go", "cmdDepreciated/goselect-cohenlasso/main.go", "cmdDepreciated/goselect-plotlasso/main.go", "cmdDepreciated/goselect-mem/main.go", "cohens_kappa.go", "node.go"],
  [("options and output", "cmdDepreciated/*/main.go"), ("summary", "cohens_kappa.go: CalculateCohenSequence"), ("size of a node", "node.go: EstimateMemory")],
  [], ["exit status", "files", "standard output"])

p("C31", "Calls do not influence each other or the caller's data",
  "The value of every exported function (except those that are random by design) is a function of the content of its arguments at the time of the call: it does not depend on which calls came before, run at the same time in other threads, or come after, nor on what the same argument objects contained earlier. Matrices, vectors, data sets, nodes, lists, paths and options that are passed in are unchanged afterwards unless the function is documented to change them (normalisation, insertion, absolute values, union in place). Values that were handed out never change because of later calls. Functions that only read shared arguments may be called concurrently; helper objects (estimators, coordinate descent corrections) may be used again for other data.",
  ["histories", "schedules", "inputs"],
  "all histories of up to four calls (five in the thorough tier) of two operations by up to three threads with up to two overwrites of the data in between, for pairs of 48 operations covering the exported functions; random histories with up to six threads",
  "No test calls a function twice on an object whose content changed in between, or two functions at the same time, or looks at its arguments afterwards.",
  ["fit.go", "util.go", "optimize.go", "lassoCrdDesc.go", "lasso_lars.go", "nestedLasso.go", "lazyPowerMat.go", "csvIO.go", "cohens_kappa.go", "criteria.go"],
  [("least squares", "fit.go"), ("estimators", "morsePenroseCD.go, coordinateDescent.go"), ("criteria weights", "util.go: WeightsFromAIC"), ("views of data", "lazyMatrix.go, dataset.go"), ("package state", "package variables of featselect")],
  [], ["return values", "arguments after the call", "earlier results after later calls", "race detector"])


p("C32", "A folder of results tells the truth after any history of tool runs",
  "After any sequence of runs of the tools in a folder (branch and bound, annealing, both lasso solvers, nested lasso, plots; with other data, other target columns, other output files; a data file overwritten in between; several runs at once that write different files) every output file holds exactly the result of the last run that was answered for it, for the content the data file had when that run started. Nothing else matters: not what the file held before (nothing, the longer or shorter result of the same or another tool, something no tool wrote), not the other runs. A run that cannot be answered (missing or damaged data, a target column that does not exist, an unknown option, value or kind, an output folder that does not exist) ends with an error and leaves every file as it was. A file is drawn exactly if it holds a path. No run changes a data file or leaves any other file behind.",
  ["histories", "inputs", "schedules"],
  "all histories of two runs of 38 commands (54 in the thorough tier) from a folder with or without a foreign file, and of two overlapping runs followed by a plot; strung together to histories of twelve",
  "No test runs the tools, and a single run cannot show what an earlier one leaves behind.",
  ["cmd/bnb.go", "cmd/sasearch.go", "cmd/lasso.go", "cmdDepreciated/goselect-nestedlasso/main.go", "cmdDepreciated/goselect-plotlasso/main.go", "csvIO.go", "highscore.go", "lassoPlot.go"],
  [("writing of results", "cmd/bnb.go: saveHighscoreList; cmd/sasearch.go: saSearch; cmd/lasso.go: lassoFit; cmdDepreciated/goselect-nestedlasso/main.go: nestedLasso"), ("refusals", "cmd/lasso.go: lassoFit; csvIO.go: ReadCSV"), ("drawing", "lassoPlot.go: LassoLarsPathFromJSON")],
  [], ["exit status", "content of all files in the folder after each group of runs"])


if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
