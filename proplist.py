# ---------------------------------------------------------------- arrays
prop("A01", "Array ranges, interpolation and partitions follow the positions of the data",
 """The data range of an array is exactly the span from its first to its last non-missing element (and invalid, not out of bounds, if there is none), and the missing flag says whether the span has holes.
 Linear interpolation fills every hole inside the span with the value on the line between its neighbours, changes nothing else, and returns the number of values filled.
 Partitioning into equal parts returns every element exactly once, in order, in non-empty parts of the given size, with the incomplete part at the chosen end.""",
 "every array length up to the bound, every pattern of missing values, all element values, every part size and direction",
 "the unit tests use a handful of fixed arrays; the pattern of leading, inner and trailing missing values and the sizes are combinatorial",
 ["include/array.h", "src/array.cpp"], [("Array::GetRange/Interpolate/PartitionEqual", "src/array.cpp")], ["Array<T>::GetRange", "Array<T>::Interpolate", "Array<T>::PartitionEqual", "IndexRange"])
prop("A02", "Array statistics equal their definitions, skipping missing values when asked",
 """Sum, mean, variance (sample or population), weighted mean and variance, skewness and kurtosis, minimum, maximum and the requested descriptive of an array are the values of the textbook definitions over the (weighted) data.
 With missing values to be skipped the result is the statistic of the remaining values, and without skipping a missing value makes the result missing.
 Too few values give a missing result, never an invalid memory access.""",
 "every array length up to the bound, every missing pattern, all values and positive weights",
 "the tests compare fixed arrays with numbers from R; agreement for all values, weights and missing patterns is an algebraic identity they only sample",
 ["include/array.h", "src/array.cpp"], [("Array::Mean/Variance/Moments/GetDescriptive", "src/array.cpp")], ["Array<T>::Mean", "Array<T>::MeanVariance", "Array<T>::GetDescriptive"])
prop("A03", "Combining running statistics equals computing them over all data",
 """Accumulating the moments (mean, variance, skewness, kurtosis) of two groups separately and combining them gives the same result as accumulating all values together, for any split, order and weights.
 Missing values do not contribute, and the count and sum of weights are those of the contributing values.""",
 "all values, all positive weights, every split of the data within the bound, each number of tracked moments",
 "parallel combination is exercised on one or two splits; the identity must hold for every split and value because searches combine results from every worker",
 ["include/math/statistics/running.h", "include/array.h", "src/array.cpp"], [("RunningMoments", "include/math/statistics/running.h")], ["RunningMoments::PushNew", "RunningMoments::Combine", "RunningMoments::GetMean..GetKurtosis"], over=("inputs", "histories"))
# ---------------------------------------------------------------- frequencies
prop("F01", "Frequencies form a consistent time line: moving, differences and order agree",
 """For every frequency type, moving k steps and subtracting the start gives k, moving back returns to the start, moving a then b equals moving a+b, and older/equal/newer comparisons agree with the sign of the difference.
 A step changes the date by exactly one period (the position stays within the year or the day; days outside a week range are skipped and a given day outside the range is moved to its nearest end in the given direction).
 Frequencies of different classes cannot be compared or subtracted, and positions outside the year or day cannot be constructed.""",
 "all years, positions, days, numbers of steps (both directions), partition counts and week ranges within the bounds, all pairs of classes",
 "tests move a few fixed frequencies by a few steps; carry over year, day and week ends and negative steps needs all combinations",
 ["include/frequency.h", "src/frequency/f_year_based.cpp", "src/frequency/f_week_based.cpp", "src/frequency/f_day_based.cpp", "src/frequency/f_list.cpp", "src/frequency/f_cross_section.cpp"], [("Next/Minus/CompareTo overrides", "src/frequency"), ("Frequency::CheckClassEquality", "src/frequency/f_base.cpp")], ["Frequency::Next", "Frequency::Minus", "Frequency::CompareTo"])
prop("F02", "The text and class text of a frequency identify it",
 """Parsing the text and class text of any frequency gives back an equal frequency of the same class, including the items of list frequencies and positions outside a list.
 Text whose position lies outside its year or day is rejected, and arbitrary text either parses or raises the library's error; it never reads out of bounds or fails otherwise.""",
 "all frequencies within the bounds, all texts of up to three arbitrary characters for each class",
 "tests round-trip one instance per class; parsers are exercised on well-formed text only",
 ["include/frequency.h", "src/frequency/f_base.cpp", "src/frequency/f_year_based.cpp", "src/frequency/f_week_based.cpp", "src/frequency/f_day_based.cpp", "src/frequency/f_list.cpp"], [("Parse0/ToString/ToClassString", "src/frequency"), ("Frequency::GetClass", "src/frequency/f_base.cpp")], ["Frequency::Parse", "Frequency::ToString", "Frequency::ToClassString"])
prop("F03", "Day-of-week ranges are cyclic intervals of days",
 """The length of a day-of-week range is the number of days from its start to its end going forward, a day is in the range exactly if it is one of them, and the steps reported for a day outside lead to the nearest end in the given direction.
 Forward and backward distances, next and previous day, and the text of days and ranges are consistent with that.""",
 "all 49 ranges, 7 days and both directions",
 "tests check a few ranges; ranges that wrap over the week end and single-day ranges are untested",
 ["include/frequency.h", "src/frequency/f_week_based.cpp"], [("DayOfWeekRange", "src/frequency/f_week_based.cpp")], ["DayOfWeekRange::GetLength", "DayOfWeekRange::IsInRange", "DayOfWeekRange::IsOutsideRange", "DayOfWeekRange::Distance"])
# ---------------------------------------------------------------- variables
prop("V01", "A variable survives its text form; equality and trimming are exact",
 """Parsing the text of a variable recovers its name, data (missing values included), start frequency, list items and fields, and malformed text is rejected with the library's error.
 Two variables are equal exactly when name, data (up to the tolerance; missing equals only missing), start frequency and fields agree.
 Trimming removes exactly the leading and trailing missing values and moves the start frequency to the first observation.""",
 "all frequency kinds, missing patterns, values, fields and lengths within the bounds",
 "tests round-trip one variable and trim one array",
 ["include/variable.h", "src/variable/variable.cpp"], [("Variable::Parse/ToString/IsEqualTo/Trim", "src/variable/variable.cpp")], ["Variable::ToString", "Variable::Parse", "Variable::IsEqualTo", "Variable::Trim"])
prop("V02", "Frequency conversion aggregates exactly the observations of each period",
 """Converting a variable to multi-day, weekly, yearly-partition or month-based frequency applies the given function once per period to exactly the observations of that period in order, and the result starts at the period of the first observation.
 Converting date lists and working-day data to daily data puts every observation on its day and leaves all other days missing.
 Conversions that are not defined for the source frequency, or that lack an aggregation function, are rejected.""",
 "all values, lengths, start dates (year, month, week and leap-day ends included), week ranges, part counts within the bounds",
 "tests convert a few fixed series; period boundaries depend on the start date and length",
 ["include/variable.h", "src/variable/variable.cpp"], [("Variable::ConvertTo_*", "src/variable/variable.cpp")], ["Variable::ConvertTo_Weekly", "Variable::ConvertTo_XxYear", "Variable::ConvertTo_Daily"])
prop("V03", "Binding variables aligns every observation by its date",
 """Binding several variables of the same frequency class gives one column per variable over the union of their spans: every observation stands at its own date, and cells outside a variable's span are missing.
 The range of a column is the span of its non-missing data and says whether it has holes; variables of different frequency classes and empty bindings are rejected.""",
 "all relative start positions, lengths, values and missing patterns within the bounds, five frequency kinds",
 "tests bind two or three fixed variables",
 ["include/variable.h", "src/variable/variables.cpp"], [("Variables::Variables/GetRange", "src/variable/variables.cpp")], ["Variables<T>::Data", "Variables<T>::StartFrequency", "Variables<T>::GetRange"])
# ---------------------------------------------------------------- matrices
prop("M01", "Matrix elements, rows, columns and sub-matrices are exactly those addressed",
 """Reading or writing an element, row, column, vector part or sub-matrix touches exactly the addressed elements of column-major storage and nothing else, whatever the shapes.
 The bounds-checked functions reject every index, range or storage shape that does not fit, and a rejected operation changes nothing.
 Copying, filling, reshaping, iterating, applying functions, triangular packing and the owning matrix keep every element in place.""",
 "all shapes, all index combinations (valid or not) and all values within the bounds",
 "tests use a few square examples where swapping rows and columns or strides gives the same result",
 ["include/matrix.h", "src/matrix/matrix.cpp", "src/matrix/vmatrix.cpp"], [("Matrix::Get/Set/GetSub/SetSub/SetRow/SetColumn", "src/matrix/matrix.cpp"), ("VMatrix", "src/matrix/vmatrix.cpp")], ["Matrix::Get/Set", "Matrix::GetSub*", "Matrix::SetSub*", "Matrix::SetRowFrom*", "Matrix::MakeTriangular"])
prop("M02", "Matrix arithmetic computes the algebraic result",
 """Element-wise operations, powers, products (plain, transposed, symmetric, diagonal, vector), Gram matrices, Kronecker products, transposes, traces and norms equal their textbook definition for every shape and coefficient, including alpha and beta scaling.
 Operands or storage of incompatible shapes are rejected, and operands are not modified unless the operation is in place.""",
 "all conformable and non-conformable shapes, all values and coefficients within the bounds",
 "tests multiply a few fixed matrices; wrong leading dimensions or transposes are visible only for non-square shapes",
 ["include/matrix.h", "src/matrix/matrix_la.cpp", "src/matrix/matrix.cpp"], [("Matrix::Dot*/Tdot*/Kron*", "src/matrix/matrix_la.cpp")], ["Matrix::Dot", "Matrix::DotTr", "Matrix::Dot_AtA", "Matrix::Kron", "Matrix::SymDot"])
prop("M03", "Inverses, determinants, factors and solutions satisfy their equations",
 """Wherever a decomposition reports success, its result satisfies its defining equation: inverse times matrix is the identity, the Cholesky factor reproduces the matrix, the determinant is the sum over permutations, and solutions satisfy the linear system.
 Singular or non-positive-definite input is reported, and wrong shapes are rejected.""",
 "all real matrices up to the bounded order, both triangles, both transpose modes",
 "tests use one matrix per routine; index errors in pivots, triangles or leading dimensions show only on other inputs",
 ["src/matrix/matrix.cpp", "src/matrix/matrix_la.cpp", "src/matrix/decompositions.cpp"], [("Matrix::Inv/Chol/Det/SolveTrian/SolvePos/QR", "src/matrix")], ["Matrix::Inv", "Matrix::Chol", "Matrix::Det", "Matrix::SolveTrian", "Matrix::SolvePos"])
prop("M04", "Symmetric matrices store each pair once",
 """A symmetric matrix returns for (i, j) and (j, i) the value last written to either, writes to one pair change no other pair, and the variant without diagonal returns missing on the diagonal and cannot be written there.
 Indexes outside the matrix and storage of the wrong length are rejected.""",
 "all orders, index pairs and values within the bounds",
 "tests check a few elements of one size",
 ["include/matrix.h", "src/matrix/matrix_sym.cpp"], [("MatrixSym", "src/matrix/matrix_sym.cpp")], ["MatrixSym::Get", "MatrixSym::Set", "MatrixSym::Any/All"])
prop("M05", "Matrix statistics and searches use exactly the non-missing elements",
 """Means, variances, covariances, correlations, sums, extremes and their positions equal their definition over the elements (complete pairs) that are not missing, and the reported counts are the number of elements used.
 Ranges, interpolation, and the removal of missing values, rows or columns keep all other values in order.
 Equality, membership and symmetry tests agree with the element-wise definition, including the treatment of missing values.""",
 "all values and all missing patterns within the bounds",
 "tests use one or two fixed matrices; the position of missing values decides which code path runs",
 ["include/matrix.h", "src/matrix/matrix.cpp"], [("Matrix::Mean/Variance*/Covariance*/Correlation*", "src/matrix/matrix.cpp"), ("Matrix::RemoveNanVector/RemoveColumns*", "src/matrix/matrix.cpp")], ["Matrix::VarianceColumn", "Matrix::CorrelationColumn", "Matrix::RemoveColumnsAnyNan_in", "Matrix::Equals"])
prop("M06", "Sorting and reordering are exact permutations",
 """Sorting orders every column and keeps its values; sorted indexes are a stable permutation that orders the data.
 Reordering by indexes puts exactly the addressed rows, columns or elements at each place; index lists of the wrong length or outside the matrix and storage of the wrong shape are rejected.""",
 "all values, orders and index lists within the bounds",
 "tests sort one vector",
 ["include/matrix.h", "src/matrix/matrix.cpp"], [("Matrix::Sort*", "src/matrix/matrix.cpp")], ["Matrix::Sort", "Matrix::SortIndicesVector", "Matrix::SortRowsBy"])
# ---------------------------------------------------------------- data sets
prop("D01", "A data set keeps exactly the complete rows of the selected columns",
 """Selecting columns returns them in the requested order and, when rows with missing values are to be removed, keeps exactly the rows without a missing value in a selected column, in order; otherwise every row is kept.
 An empty selection means all columns.  The source is not changed, and invalid column indexes and data larger than the reserved size are rejected.""",
 "all data, every missing pattern, every column selection, both removal options within the bounds",
 "tests use one matrix with one missing row; which rows survive depends on the pattern of the selected columns only",
 ["include/matrix_utils.h", "src/matrix/dataset.cpp", "src/matrix/matrix.cpp"], [("Dataset::Calculate", "src/matrix/dataset.cpp")], ["Dataset<T>::Calculate", "Dataset<T>::Result"])
prop("D02", "A time-series data set is the common range of the selected variables",
 """The range of every variable is the span of its non-missing data, updated variables form the intersection of the ranges of the selection, and the data returned is exactly that range of the selected variables, by row or by column.
 Missing values inside a range are reported (and interpolated and counted if asked), a selection without common range is rejected, and nothing of a previously given data set remains.""",
 "all data, every missing pattern, every selection, both orientations within the bounds",
 "tests use one data set per option; the flags depend on the pattern and on previous use of the object",
 ["include/matrix_utils.h", "src/matrix/dataset.cpp"], [("DatasetTs::Data/Update", "src/matrix/dataset.cpp")], ["DatasetTs::Data", "DatasetTs::Update", "DatasetTs::Result"], over=("inputs", "histories"))
prop("D03", "Standardised data has the stated center and scale and can be restored",
 """Centering and scaling use the column means and standard deviations (sample or population, missing values skipped if asked) or the given ones; zero-variance columns are reported or removed as requested.
 The standardised columns have mean zero and unit variance exactly as requested, missing values stay missing, and the remaining columns are kept in order.""",
 "all data and missing patterns, all combinations of the options within the bounds",
 "tests standardise one matrix",
 ["include/matrix_utils.h", "src/matrix/dataset.cpp", "src/matrix/matrix.cpp"], [("MatrixStandardized::Calculate", "src/matrix/dataset.cpp")], ["MatrixStandardized<T>::Calculate", "MatrixStandardized<T>::Result"])
prop("D04", "Training and test samples partition the observations",
 """For every outcome of the random generator the training and the test sample together contain every observation exactly once, with the requested training size (given or as a ratio).
 For discrete data every label keeps at least one observation in the training sample and the labels are divided in proportion; impossible sizes are rejected and nothing is written outside the samples.""",
 "all outcomes of the generator, all label arrangements, all ratios and sizes within the bounds",
 "a test sees a handful of seeds; the partition must hold for every shuffle",
 ["include/math/statistics/data_split.h", "src/ldt_statistics/data_split.cpp"], [("DataSplit/DataSplitDiscrete", "src/ldt_statistics/data_split.cpp")], ["DataSplit::Calculate/Shuffle", "DataSplitDiscrete::Calculate/Shuffle"], over=("inputs", "schedules"))
# ---------------------------------------------------------------- statistics
prop("S01", "Descriptive statistics, ranks and correlations equal their definitions",
 """Moments, extremes, quantiles, filters, trend and seasonal decomposition of a series equal their textbook definition, with every option (sample or population, centered filters, additive or multiplicative seasons).
 Ranks count the values before each value, and Pearson and Spearman correlations and covariances are those of the complete pairs, symmetric, with the number of pairs reported.
 Too few values give a missing result, undersized storage is rejected, and the data is not changed.""",
 "all values, lengths, missing patterns, filter lengths and options within the bounds",
 "tests compare a few fixed series with R; each option and boundary (short series, ties, missing pairs) has a path of its own",
 ["include/math/statistics/statistics.h", "include/math/statistics/correlation.h", "src/ldt_statistics/statistics/descriptive.cpp", "src/ldt_statistics/statistics/statistics.cpp", "src/ldt_statistics/correlation.cpp"], [("Descriptive", "src/ldt_statistics/statistics/descriptive.cpp"), ("Rank", "src/ldt_statistics/statistics/statistics.cpp"), ("Correlation", "src/ldt_statistics/correlation.cpp")], ["Descriptive::*", "Rank::Calculate", "Correlation<>::Calculate"])
prop("S02", "Scoring rules and metrics are ordered and named consistently",
 """For every scoring rule and every goodness-of-fit metric a better value has a larger weight, the value is recovered from its weight, and the orientation is the one documented.
 The name of every rule, metric and correlation method identifies it; other names and unknown types are rejected.""",
 "all values of the metric and of the minimum, all names within the bounds, all type numbers",
 "tests check one or two rules; a search ranks models by these weights for every rule",
 ["include/math/statistics/scoring.h", "src/ldt_statistics/scoring/scoring.cpp"], [("Scoring/GoodnessOfFit", "src/ldt_statistics/scoring/scoring.cpp")], ["Scoring::ToWeight/FromWeight", "GoodnessOfFit::ToWeight/FromWeight", "FromString_*"])
prop("S03", "The ROC curve and its area follow from ranks, weights and costs",
 """The area under the curve is the weighted probability that a negative observation has a smaller score than a positive one, ties counting one half (none if pessimistic), with weights and per-observation costs applied and partial areas taken over the requested range.
 The points go monotonically from (0,0) to (1,1) along the distinct scores, and invalid bounds or samples without both labels are rejected or reported.""",
 "all scores with every pattern of ties, all weights, costs and bounds within the sample bound",
 "tests use a few curves; ties, weights and partial bounds combine freely",
 ["include/math/statistics/scoring.h", "src/ldt_statistics/scoring/roc.cpp", "src/ldt_math/auc.cpp"], [("ROC::Calculate", "src/ldt_statistics/scoring/roc.cpp"), ("AucPoints", "src/ldt_math/auc.cpp")], ["ROC<>::Calculate", "ROC<>::Points", "AucPoints::Result"])
prop("S04", "Frequency costs charge each observation the cost of its cell",
 """Every observation with a label is charged, in every cost table, the (weighted) cost of its label in the row whose threshold interval contains its score, and the result is the charged share of the weighted observations per table and overall.
 A score outside all intervals and malformed tables are rejected.""",
 "all scores, thresholds, costs, weights and labellings within the bounds",
 "tests use one table and a few scores",
 ["include/math/statistics/scoring.h", "src/ldt_statistics/scoring/frequency_cost.cpp"], [("FrequencyCost::Calculate/Check", "src/ldt_statistics/scoring/frequency_cost.cpp")], ["FrequencyCost<>::Calculate", "FrequencyCost<>::Check"])
# ---------------------------------------------------------------- linear models
prop("L01", "Least squares solutions satisfy the normal equations",
 """Ordinary least squares coefficients make the residuals orthogonal to every regressor, and the reported residuals and their cross products follow from them; generalised least squares does so in the metric of the given error covariance (or its inverse).
 Regressors without full rank, inconsistent sizes and data larger than reserved are rejected without writing outside the storage.""",
 "all data of full column rank within the bounds, one or several equations, all options",
 "tests check one data set against R",
 ["include/math/statistics/statistics.h", "src/ldt_statistics/statistics/statistics.cpp"], [("Ols/Gls", "src/ldt_statistics/statistics/statistics.cpp")], ["Ols::Calculate", "Gls::Calculate"])
# ---------------------------------------------------------------- clustering
prop("C01", "Distances between variables equal their definition over the complete rows",
 """The Euclidean, Manhattan, maximum, correlation and absolute-correlation distances of every pair of columns equal their definition over the rows where both are present, are symmetric and not negative.
 The data is not changed, data larger than reserved, unknown names and unknown types are rejected.""",
 "all values, missing patterns, distances and correlation methods within the bounds",
 "tests use one data set per distance",
 ["include/math/statistics/clustering.h", "src/ldt_statistics/clustering/distance.cpp", "src/ldt_statistics/correlation.cpp"], [("Distance::Calculate", "src/ldt_statistics/clustering/distance.cpp")], ["DistanceBase::Calculate", "DistanceBase::Result"])
prop("C02", "Hierarchical clustering merges the closest clusters until one is left",
 """Every variable and every merge is a node that is merged exactly once, the height of a merge is the linkage distance of its two clusters, heights never decrease toward the root, and without ties the merges are those of repeatedly joining the closest pair.
 Grouping gives the requested number of non-empty groups which partition the variables and are nodes of the tree; the R form lists the same merges sorted by height.
 Missing distances or a wrong number of distances are rejected and the given distances are not changed.""",
 "all distances (with every pattern of ties), all linkages and all numbers of groups within the bounds",
 "tests use one matrix and two linkages; the order of the distances decides the course of the algorithm",
 ["include/math/statistics/clustering.h", "src/ldt_statistics/clustering/hcluster.cpp"], [("HCluster::Calculate/Merge2/Group/MergeR", "src/ldt_statistics/clustering/hcluster.cpp")], ["HClusterBase::Calculate", "HClusterBase::Group", "HClusterBase::MergeR"])
prop("C03", "Grouping columns keeps or reports every variable",
 """Grouping the columns of data puts every variable in exactly one group or in the list of removed variables; without threshold nothing is removed.
 With a threshold the variables left in a group are at least that far apart, and a removed variable is closer than the threshold to an earlier one.
 Missing distances are reported, nothing of a previous call remains, and data larger than reserved is rejected.""",
 "all data, thresholds, numbers of groups and call histories within the bounds",
 "the only test uses no threshold",
 ["include/math/statistics/clustering.h", "src/ldt_statistics/clustering/group_data.cpp", "src/ldt_statistics/clustering/hcluster.cpp"], [("GroupData::Calculate", "src/ldt_statistics/clustering/group_data.cpp")], ["GroupDataBase::Calculate", "GroupDataBase::Groups", "GroupDataBase::Removed"], over=("inputs", "histories"))
# ---------------------------------------------------------------- polynomials
prop("P01", "Polynomial products, powers and inverses are algebraically exact",
 """The product, the power and the inverse of scalar and matrix polynomials have the coefficients given by the algebra, up to the requested length, and an inverse times its polynomial is one up to that length.
 A polynomial without a non-zero coefficient and a singular leading matrix are rejected, operands are not changed, objects can be used again, and nothing is written outside the reserved storage.""",
 "all coefficients, degrees, sizes and truncations within the bounds",
 "tests multiply a few fixed polynomials; every truncation and re-use has its own path",
 ["include/math/polynomial.h", "src/ldt_math/polynomials/polynomial.cpp", "src/ldt_math/polynomials/mpolynomial.cpp"], [("Polynomial*", "src/ldt_math/polynomials/polynomial.cpp"), ("PolynomialM*", "src/ldt_math/polynomials/mpolynomial.cpp")], ["PolynomialMultiply/PolynomialPower::Calculate", "PolynomialMMultiply/PolynomialMInvert::Calculate"], over=("inputs", "histories"))
prop("P02", "Numerical derivatives are exact for low-order polynomials",
 """The numerical gradient and Hessian of a quadratic function equal the analytic ones at every point, and so do those of cubic and quartic functions with enough refinements (exact arithmetic, where the scheme has no truncation error).
 The Hessian is symmetric, the point is not changed, and derivatives that were not requested or dimensions larger than reserved are rejected.""",
 "all points and all polynomial functions within the bounds",
 "tests differentiate two functions at one point",
 ["include/math/functionx.h", "src/ldt_math/derivative.cpp"], [("Derivative", "src/ldt_math/derivative.cpp")], ["Derivative::CalculateFirst", "Derivative::CalculateSecond"])
# ---------------------------------------------------------------- model search
prop("R01", "A model search estimates every model of the model set exactly once",
 """For every list of disjoint partitions, model size and number of fixed partitions, a search estimates exactly once every model made of one variable of each of that many different partitions and containing all the fixed ones, and nothing else; the announced count (plain and weighted by size) equals the number of estimated models.
 When empty models are to be skipped, a model is skipped exactly when none of its variables is a target, whatever the order of the partitions, and the variables of an estimated model start with a target.
 A failing model, by message or by any kind of exception, is counted once under its message and does not stop the search; after a cancel request no further model is estimated; inconsistent options and the reuse of a finished search are rejected.
 A model set, in any order of its searchers, reports the sum of the counts and failures.""",
 "all partition layouts, sizes, fixed counts, targets, failures and cancellation points within the bounds",
 "the repository's tests run one search and look at its best model",
 ["include/math/statistics/inference/searchers.h", "src/ldt_statistics/modeling/search/searcher.cpp", "src/ldt_statistics/modeling/search/modelset.cpp"], [("Searcher::Start/GetCount", "src/ldt_statistics/modeling/search/searcher.cpp"), ("ModelSet::Start/CombineInfo", "src/ldt_statistics/modeling/search/modelset.cpp")], ["Searcher::Start", "Searcher::GetCount", "Searcher::States", "ModelSet::CombineInfo"], over=("inputs", "histories"))
prop("R02", "Search results do not depend on how models are spread over searchers",
 """The combined results of a model set equal those of all its models taken together, however they are distributed over searchers and in whatever order they arrive: the best K models are the K best by the metric, in order, and no discarded model is better; every model is listed when all are requested; inclusion weights are the average weights of the models that contain a variable; extreme bounds are the least lower and greatest upper bound; mixture mean and variance and combined probabilities are the weighted ones.
 Results of other targets, metrics or coefficients do not leak in.
 A regression searcher gives the estimation the columns of its endogenous, weight and exogenous variables, saves a model and its coefficients under its own targets and metrics with the metric's weight, and reports missing metrics; the option objects derive orientations, positions and required checks from the requested metrics, also when updated again.""",
 "all metrics, weights, means and variances and all distributions over searchers within the bounds",
 "tests compare the R interface's results on a few data sets with all weights well scaled",
 ["include/math/statistics/inference/searchers.h", "src/ldt_statistics/modeling/search/summary.cpp", "src/ldt_statistics/modeling/search/modelset.cpp", "src/ldt_statistics/modeling/search/searcher_reg.cpp"], [("SearcherSummary::Push", "src/ldt_statistics/modeling/search/summary.cpp"), ("ModelSet::Combine*", "src/ldt_statistics/modeling/search/modelset.cpp"), ("SearcherReg::EstimateOne", "src/ldt_statistics/modeling/search/searcher_reg.cpp")], ["ModelSet::CombineBests/CombineAll/CombineInclusionWeights/CombineExtremeBounds/CombineMixture/CombineCdfAt", "SearcherReg summaries", "SearchMetricOptions::Update", "SearchModelChecks::Update"], over=("inputs", "histories"))
prop("R04", "A SUR search stores for every model what the estimation reports",
 """For every set of groups of endogenous variables, model sizes and regressors, a SUR search has exactly one model for every group with a target and every combination of regressors; the model is estimated from exactly the complete observations of its own variables and is given the requested limits, seed and, where data are transformed, the Box-Cox parameters of its own variables.
 Each requested in-sample and out-of-sample metric is stored in its own place, for each of the model's targets, with the value the estimation reports; coefficients and their variances are stored under their own regressor and target.
 A failing model is counted and leaves the others as they are; nothing is estimated after a cancel request; work arrays of the announced sizes are enough; exactly inconsistent options are rejected.""",
 "all groups, targets, sizes, missing cells, metric subsets, failure points and reported values within the bounds",
 "the repository's tests run one search on random data and compare the best model with a direct estimation",
 ["include/math/statistics/inference/models/sur.h", "include/math/statistics/inference/searchers.h", "src/ldt_statistics/modeling/linear/sur_modelset.cpp"], [("SurSearcher::EstimateOneReg", "src/ldt_statistics/modeling/linear/sur_modelset.cpp"), ("SurModelset::SurModelset", "src/ldt_statistics/modeling/linear/sur_modelset.cpp"), ("SearcherReg::EstimateOne", "src/ldt_statistics/modeling/search/searcher_reg.cpp")], ["SurModelset::Modelset", "ModelSet::CombineInfo", "ModelSet::CombineAll/CombineBests", "EstimationKeep"], over=("inputs", "configurations", "fault_sequences"))
prop("R03", "A discrete choice search stores for every model what the estimation reports",
 """For every number of outcomes, kind of model, sizes and regressors, a discrete choice search has exactly one model for every combination of regressors and kind; the model is estimated and simulated from exactly the complete observations of its own variables, with the weights and cost tables of the search, the requested limits and seed.
 Each requested in-sample and out-of-sample metric (AIC, SIC, Brier, AUC, cost) is stored in its own place with the value that follows from the estimation; coefficients and their variances are stored under their own regressor.
 A model that fails or violates a requested check is counted and leaves the others as they are; nothing is estimated after a cancel request; work arrays of the announced sizes are enough; exactly inconsistent options are rejected.""",
 "all outcomes, weights, missing cells, metric subsets, failure points, probabilities and reported values within the bounds",
 "the repository's tests run a few searches on fixed data and compare some metrics with a direct estimation",
 ["include/math/statistics/inference/models/discrete_choice.h", "include/math/statistics/inference/searchers.h", "src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp"], [("DiscreteChoiceSearcher::EstimateOne", "src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp"), ("DiscreteChoiceModelset::DiscreteChoiceModelset", "src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp")], ["DiscreteChoiceModelset::Modelset", "ModelSet::CombineInfo", "ModelSet::CombineAll/CombineBests", "EstimationKeep"], over=("inputs", "configurations", "fault_sequences"))
prop("R05", "A VARMA search stores for every model what the estimation reports",
 """For every partition of the endogenous variables, groups of exogenous variables and maximum orders, a VARMA search has exactly one model for every combination with a target and every order that does not exceed the maximum; the model is estimated, forecast and simulated over exactly the common range of its own variables, with its own orders, limits, horizons and, where data are transformed, the Box-Cox parameters of its own variables.
 Each requested in-sample and out-of-sample metric is stored in its own place, for each of the model's targets, with the value the estimation reports; forecasts and their variances are stored under their own target and horizon.
 A model that fails, or whose forecasts leave the requested bounds, is counted and leaves the others as they are; nothing is estimated after a cancel request; work arrays of the announced sizes are enough; exactly inconsistent options are rejected.""",
 "all partitions, ranges, orders, horizons, metric subsets, failure points, reported values and bounds within the bounds",
 "the repository's tests run a few searches on fixed data and compare some metrics with a direct estimation",
 ["include/math/statistics/inference/models/varma.h", "include/math/statistics/inference/searchers.h", "src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp"], [("VarmaSearcher::EstimateOneReg", "src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp"), ("VarmaModelset::VarmaModelset", "src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp")], ["VarmaModelset::Modelset", "ModelSet::CombineInfo", "ModelSet::CombineAll/CombineBests", "EstimationKeep"], over=("inputs", "configurations", "fault_sequences"))
# ---------------------------------------------------------------- time series models
prop("T01", "The orders of a VARMA model determine its lags, differences and sizes",
 """The lags of the autoregressive and moving average parts are exactly 1..p and the multiples of the number of seasons up to P times it (and q, Q), each once; the number of parameters, the names of the coefficients and the number of usable observations follow from them.
 The difference polynomial is (1-L)^d (1-L^s)^D; differencing applies it and integrating back from the first values recovers the series.
 Exactly the impossible orders are rejected, and recalculating gives the same.""",
 "all orders, seasons, numbers of observations and data within the bounds",
 "tests use a handful of orders",
 ["include/math/statistics/inference/models/varma.h", "src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp", "src/ldt_statistics/modeling/time_series/varma/varma.cpp"], [("VarmaSizes::Calculate", "src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp"), ("Varma::Difference/UnDiferences", "src/ldt_statistics/modeling/time_series/varma/varma.cpp")], ["VarmaSizes", "VarmaStorage::GetExpNames", "Varma::Difference", "Varma::UnDiferences"])
prop("T02", "VARMA coefficients give the lag polynomials, the MA form and restrictions",
 """The coefficient matrix of a VARMA model is read into its autoregressive and moving average lag polynomials, and the infinite moving average representation is their quotient (with the differences included), term by term.
 The final-form restriction leaves everything free except that the moving average matrices are multiples of the identity, and a general restriction makes exactly the listed coefficients zero.
 Coefficients of another model, missing restrictions and too few of them are rejected, and nothing is written outside the reserved storage.""",
 "all coefficients, orders and restrictions within the bounds",
 "tests compare one model with another program",
 ["include/math/statistics/inference/models/varma.h", "src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp", "src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp"], [("VarmaArma::Calculate", "src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp"), ("VarmaRestriction::Calculate", "src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp")], ["VarmaArma::Ar/Ma/MaInf", "VarmaRestriction::R"])
prop("T03", "A VAR estimate is the least squares estimate of its own observations",
 """For every data set, a VARMA model without moving average part is estimated by least squares on exactly the observations of its sample: the regressors of an observation are the lags of the differenced series and the exogenous variables of that period, observations kept out of the sample play no role, and the normal equations hold for every equation.
 The residuals, the estimated variance, the variance of the coefficients and the condition number are those of that estimate; restricted models satisfy the restriction and the normal equations of the free parameters.
 Samples that are too small, or whose regressors are singular, are rejected.""",
 "all data and sample lengths within the bounds",
 "tests compare a few estimated models with another program's rounded output",
 ["include/math/statistics/inference/models/varma.h", "src/ldt_statistics/modeling/time_series/varma/varma.cpp"], [("Varma::estimate_ols", "src/ldt_statistics/modeling/time_series/varma/varma.cpp"), ("Varma::EstimateOls", "src/ldt_statistics/modeling/time_series/varma/varma.cpp")], ["Varma::Result.gamma/resid/sigma2/gammavar/cn"])
prop("T04", "A VARMA estimate reports the likelihood and statistics of its own parameters",
 """Whatever point the optimiser stops at, the results describe that point: the coefficients are the restriction applied to it, the residuals follow recursively from those coefficients and the data, the variance is the mean square of the residuals, and the log-likelihood, AIC and SIC are those of that variance and of the number of observations in the sample.
 The objective the optimiser sees is the likelihood of the point it asks about, its bounds and iteration limit are the caller's, and a second estimation with another sample or data does not see the first.
 Standard errors, t-statistics and p-values follow from the coefficients' variance, and a singular Hessian is reported.""",
 "all data, optimiser points, bounds and sample lengths within the bounds, with the optimiser an arbitrary environment",
 "tests look at the optimum of well behaved data, to a tolerance",
 ["include/math/statistics/inference/models/varma.h", "src/ldt_statistics/modeling/time_series/varma/varma.cpp"], [("Varma::EstimateMl", "src/ldt_statistics/modeling/time_series/varma/varma.cpp"), ("Varma::Calculate", "src/ldt_statistics/modeling/time_series/varma/varma.cpp")], ["Varma::Result.gamma/resid/sigma2/LogLikelihood/Aic/Sic/coef"], over=("inputs", "histories"))
prop("T05", "VARMA forecasts are the model's own recursion, with its variances",
 """For every estimate and data set, the forecast of each horizon is the model's recursion: lags of the observed series and of earlier forecasts, future errors zero, past errors those of the estimation (and zero before the sample), the exogenous values of that period, with differencing undone.
 The variance of a forecast is the sum over the infinite moving average coefficients of that horizon times the error variance, including the differences.
 Forecasts start after the last observation of the sample; a sample shorter than the lags, missing exogenous values or variances asked without sizes are rejected.""",
 "all estimates, data, exogenous values and horizons within the bounds",
 "tests compare a few forecasts with another program's",
 ["include/math/statistics/inference/models/varma.h", "src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp"], [("VarmaForecast::Calculate", "src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp")], ["VarmaForecast::Forecast", "VarmaForecast::Variance"])
prop("T06", "Out-of-sample scores of a VARMA model average over its simulations",
 """Each simulation estimates without the last observations, forecasts the requested horizons and compares with the observations of those periods and no others; every reported score (MAE, RMSE, percentages, direction, sign, CRPS) is the mean of its rule over the valid simulations, per horizon and over all horizons, on the original scale when data are transformed.
 A failed simulation is counted and left out, more failures than allowed are an error, and cancelling stops at once.
 The extended model reports the scores of its own simulation, and infeasible counts of simulations are rejected.""",
 "all forecasts, variances, failure patterns and data within the bounds, with estimation an arbitrary environment",
 "tests run one simulation with no failures",
 ["include/math/statistics/inference/models/varma.h", "src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp"], [("VarmaSimulation::Calculate", "src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp")], ["VarmaSimulation::Result", "VarmaSimulation::ResultAggs", "VarmaSimulation::Errors"], over=("inputs", "fault_sequences"))
prop("U01", "SUR estimates are the feasible GLS estimates of the restricted model",
 """An unrestricted system has least squares coefficients, the mean cross products of the residuals as covariance and its Kronecker product with the inverse of the regressors' cross products as variance; a restricted system has the feasible generalised least squares coefficients, with the covariance of the unrestricted residuals as weight.
 Fitted values, residuals, log-likelihood, information criteria, coefficient of determination, standard errors, t-statistics, p-values and the condition number follow from those coefficients.
 The significance search keeps exactly the coefficients that were significant in the previous step, until all are significant or the steps are used up; when nothing is significant, or regressors, covariance or restrictions are singular or have the wrong size, the system is rejected.""",
 "all values of the symbolic cells and restrictions, search limits and significance outcomes within the bounds",
 "tests compare two or three systems with another program's rounded output",
 ["include/math/statistics/inference/models/sur.h", "src/ldt_statistics/modeling/linear/sur.cpp"], [("Sur::Calculate", "src/ldt_statistics/modeling/linear/sur.cpp"), ("Sur::estim_search", "src/ldt_statistics/modeling/linear/sur.cpp")], ["Sur::beta/gamma/gamma_var/resid_var", "Sur::logLikelihood/Aic/Sic/Hqic/r2", "Sur::e_beta_std/e_beta_t/e_beta_prob", "Sur::condition_number", "R after a significance search"])
prop("U02", "SUR projections and checks use the complete observations and the estimates",
 """Projections of new exogenous data are the fitted equations at those data, with the variance of the coefficients (through the restrictions) plus that of the errors.
 The extended model estimates from exactly the observations without missing values, in order, and reports the projections of that model; a model is rejected exactly when one of the requested checks (observations, degrees of freedom, AIC, SIC, R2) is violated.
 Data with the wrong number of rows or columns, and missing values when they are not announced, are rejected or flagged, and given data are never changed.""",
 "all estimates, new data and limits, and the symbolic cells of the data, within the bounds",
 "tests project one model and use no missing values",
 ["include/math/statistics/inference/models/sur.h", "src/ldt_statistics/modeling/linear/sur_projection.cpp", "src/ldt_statistics/modeling/linear/sur_extended.cpp"], [("SurProjection::Calculate", "src/ldt_statistics/modeling/linear/sur_projection.cpp"), ("SurExtended::Calculate", "src/ldt_statistics/modeling/linear/sur_extended.cpp")], ["SurProjection::Means/Variances/Covariance", "SurExtended::Y/X/Model"])
prop("U03", "Out-of-sample metrics of a SUR model are averages over the test samples",
 """Every simulation estimates from a random training sample of the requested size and projects the remaining observations; both together are the data, each observation once, and the given data are not changed.
 Every requested metric (MAE, MAPE, RMSE, RMSPE, sign, CRPS) is the average over the observations of the test samples of the valid simulations, on the original scale when data are Box-Cox transformed, with the root or percentage its name says.
 A simulation that fails, exceeds the condition limit or has missing variances or errors is excluded and counted by its reason; more of them than allowed are an error. Nothing is estimated after a cancel request, and arrays of the announced sizes are enough, also for fewer observations than announced.""",
 "all data, projections, variances, random samples, failure patterns and limits within the bounds",
 "tests run a simulation on random data and only look at one or two results",
 ["include/math/statistics/inference/models/sur.h", "src/ldt_statistics/modeling/linear/sur_simulation.cpp"], [("SurSimulation::SurSimulation", "src/ldt_statistics/modeling/linear/sur_simulation.cpp"), ("SurSimulation::Calculate", "src/ldt_statistics/modeling/linear/sur_simulation.cpp"), ("DataSplit::Shuffle", "src/ldt_statistics/data_split.cpp")], ["SurSimulation::Results", "SurSimulation::ValidIters/ValidCounts/Errors"], over=("inputs", "configurations", "fault_sequences"))
# ---------------------------------------------------------------- optimizers
prop("O01", "Nelder-Mead returns the best point it has evaluated",
 """For every objective function, starting point and bounds, the solution is a point at which the objective was evaluated, its reported value is the (penalised) objective there, and no evaluated point is better; the start is moved into the bounds, each step follows the rules of reflection, expansion, contraction and shrinking with the given coefficients, a failing evaluation counts as the worst value, and the search stops exactly when the spread of the simplex is below the tolerance or the limit is reached.
 The one-dimensional search never returns a point outside its bounds or one that is worse than an evaluated point inside them. Missing starting values and crossed bounds are rejected before anything is evaluated.""",
 "all objective functions, starts, bounds and coefficients within the bounds",
 "tests minimise a handful of functions",
 ["include/math/optimization.h", "src/ldt_math/optimization/nelder_mead.cpp"], [("NelderMead", "src/ldt_math/optimization/nelder_mead.cpp")], ["NelderMead::Minimize", "NelderMead::Minimize1"])
prop("O02", "Newton steps solve the Newton equations and never go uphill",
 """For every function, gradient and Hessian, each step of the Newton optimiser solves the Newton equations with the gradient and Hessian of the current point; with a line search the step is along that direction and meets the sufficient decrease and curvature conditions, so the function never increases.
 The reported value and gradient are those of the returned point, the search stops exactly by its tolerances or limit, a quadratic function needs one step, and a Hessian that is not positive definite or a size larger than declared is rejected.""",
 "all functions, gradients and Hessians within the bounds",
 "tests minimise a few functions with the line search",
 ["include/math/optimization.h", "src/ldt_math/optimization/newton.cpp"], [("Newton", "src/ldt_math/optimization/newton.cpp")], ["Newton::Minimize", "Newton::Minimize2"])
prop("O03", "The L-BFGS-B driver answers every request of the routine faithfully",
 """Whatever sequence of tasks and points the numerical routine asks for, the driver gives it the given bounds with the right kinds, tolerances and work spaces of the documented sizes, evaluates the function and the gradient exactly at the requested point, keeps the task and the point between calls, stops when the routine has finished or the limit is reached, and reports the last point, value and gradient.""",
 "all requests, points, values and bounds within the bounds",
 "tests minimise a few functions",
 ["include/math/optimization.h", "src/ldt_math/optimization/lmbfgsb.cpp"], [("LimitedMemoryBFGSB", "src/ldt_math/optimization/lmbfgsb.cpp")], ["LimitedMemoryBFGSB::Minimize"])

DH = "include/math/statistics/inference/models/discrete_choice.h"
DS = "src/ldt_statistics/modeling/discrete/"
prop("B01", "Discrete choice estimation maximises the weighted log-likelihood of the model",
 """For binary and ordered logit and probit models, the function given to the optimiser is minus the (weighted) sum of the logarithms of the probabilities that the model gives to the observed outcomes, and the gradient and the Hessian given to it are the first and second derivatives of that same function, at every point and for all outcomes, regressors and weights.""",
 "all data, weights and evaluation points within the bounds",
 "tests compare a few estimates with other software; a wrong second derivative only shows in the variances",
 [DH, DS + "discrete_choice.cpp"], [("DiscreteChoice::EstimateBinary", DS + "discrete_choice.cpp"), ("DiscreteChoice::EstimateOrdered", DS + "discrete_choice.cpp")], ["DiscreteChoice::Calculate"])
prop("B02", "Discrete choice results and probabilities describe the estimated model",
 """Given the point at which the optimiser ends, the log-likelihood, information criteria, variance matrix (the inverse of the negative Hessian of the log-likelihood at that point), standard errors, z statistics, p-values and the condition number follow from it; the predicted probabilities of every observation are the model's probabilities at the estimated coefficients, are not negative and add up to one; the outcome counts are those of the data; invalid arguments are rejected.""",
 "all data and final points within the bounds",
 "tests compare a few estimates with other software",
 [DH, DS + "discrete_choice.cpp"], [("DiscreteChoice::Calculate", DS + "discrete_choice.cpp"), ("DiscreteChoice::GetProbabilities", DS + "discrete_choice.cpp")], ["DiscreteChoice"])
prop("B03", "The discrete choice pipeline evaluates the observations it used, and only them",
 """Observations with a missing outcome, weight or regressor are removed and the model is estimated from exactly the others, in order, with their weights; the forecasts are the model's probabilities at the given regressors; the in-sample Brier score, AUC and average cost ratio are those of the used observations (weighted only if requested), nothing outside the used rows is read, and no data within the documented capacity is rejected.""",
 "all data, missing patterns, weights, costs and probabilities within the bounds",
 "tests have few missing values and one capacity",
 [DH, DS + "discrete_choice_extended.cpp"], [("DiscreteChoiceExtended::Calculate", DS + "discrete_choice_extended.cpp")], ["DiscreteChoiceExtended"])
prop("B04", "Out-of-sample evaluation of discrete choice models averages over the simulations",
 """In every simulation the observations are split into disjoint train and test samples that keep the requested sizes; the model is estimated from the train sample only; the reported Brier score and AUC are the averages over the valid simulations and the cost ratios the ratio of all costs to all (weighted) observations of the test samples; the frequency table counts the test observations; a failed simulation changes nothing except the count of valid ones, too many failures are an error, invalid settings are rejected, and a cancellation stops the work.""",
 "all splits, failures, data, weights and probabilities within the bounds",
 "tests use fixed seeds and never let an estimation fail",
 [DH, DS + "discrete_choice_sim.cpp", "src/ldt_statistics/data_split.cpp"], [("DiscreteChoiceSim::Calculate", DS + "discrete_choice_sim.cpp")], ["DiscreteChoiceSim"], over=("inputs", "fault_sequences"))

prop("X01", "Mixtures combine their components with normalised weights",
 """For any components and any positive weights (which need not sum to one), the distribution function and density of a mixture are the weighted averages of those of its components at the same point, its mean, variance, skewness and excess kurtosis are the moments of that mixture (also in the version for normal components), its range is the union of the components' ranges, the support of a discrete mixture lists every integer of that range within the requested limits once with its probability, also for negative ranges, a component is sampled with a probability in proportion to its weight, and exactly inconsistent or non-positive weights and densities of mixed types are rejected.""",
 "all weights, moments and values within the bounds",
 "tests use a few mixtures whose weights and supports are positive",
 ["include/math/statistics/distributions.h", "src/ldt_statistics/distributions/mixture.cpp"], [("DistributionMixture::GetMoments", "src/ldt_statistics/distributions/mixture.cpp"), ("DistributionMixture::GetPmfSupport", "src/ldt_statistics/distributions/mixture.cpp")], ["DistributionMixture"])
prop("X02", "Distributions given by quantiles interpolate between them",
 """For any increasing quantiles at the documented 103 probabilities, the distribution function and the quantile function are the straight lines between neighbouring points, in every interval including the narrow ones near both ends, for every point and probability; in the tails the distribution function continues monotonically and stays between 0 and 1, probabilities of zero and one have infinite quantiles, and rounding never selects another interval.
 The quantiles of a combination are, one after the other, the minimisers of the distance between their probability and the (weighted) average of the distribution functions, never below the previous one.""",
 "all quantiles, points and probabilities within the bounds",
 "tests use one normal distribution and a few points",
 ["include/math/statistics/distributions.h", "src/ldt_statistics/distributions/empirical103.cpp"], [("DistributionEmpirical103::GetCDFApprox", "src/ldt_statistics/distributions/empirical103.cpp"), ("DistributionEmpirical103::GetQuantileApprox", "src/ldt_statistics/distributions/empirical103.cpp"), ("DistributionEmpirical103::Combine", "src/ldt_statistics/distributions/empirical103.cpp")], ["DistributionEmpirical103"])
prop("X03", "Standard distributions are consistent",
 """For all valid parameters of the standard distributions (exactly invalid ones are rejected), the mean, variance, skewness and excess kurtosis are those of the distribution (missing or infinite exactly where they do not exist), the standard deviation is the root of the variance, every property is also available by its name, the distribution function and density are trivial outside the range and at infinity, the quantile function of a continuous distribution inverts its distribution function, the distribution function of a discrete distribution at any point is the sum of the probabilities up to it, its quantile is the smallest value with enough probability wherever the search for it starts, its support lists values and probabilities, and modes and medians are possible values, modes the most probable ones, and logarithms of densities agree with the densities.""",
 "all parameters, points and probabilities within the bounds",
 "tests compare a few values for single parameters",
 ["include/math/statistics/distributions.h", "src/ldt_statistics/distributions/distributions_uni.cpp"], [("Distribution::GetCdf", "src/ldt_statistics/distributions/distributions_uni.cpp"), ("Distribution::GetQuantile", "src/ldt_statistics/distributions/distributions_uni.cpp"), ("DistributionBase::GetProperty", "src/ldt_statistics/distributions/distributions_uni.cpp")], ["Distribution"])
prop("X04", "Histograms count every observation in its interval",
 """For all data that are not missing, and whether the range, the number of intervals or the length of an interval is given or chosen automatically, a histogram counts every observation exactly once and in the documented interval ((-inf,a0), [a0,a1), ..., [a(n-2),a(n-1)], (a(n-1),inf)) of its axis, also with an axis of varying intervals; the edges have equal distances over the range, there is at least one interval and the requested number if one is given, values that define the range are inside it, data are sorted, exactly empty data and empty ranges are rejected, the axis is kept and nothing is written behind the counts.""",
 "all data, ranges and lengths of intervals within the bounds",
 "no test uses histograms",
 ["include/math/statistics/distributions.h", "src/ldt_statistics/distributions/histogram.cpp"], [("Histogram::Compute", "src/ldt_statistics/distributions/histogram.cpp"), ("Histogram::ComputeV", "src/ldt_statistics/distributions/histogram.cpp")], ["Histogram"])
