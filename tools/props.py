T = 'Existing tests run a handful of fixed matrices; '
PROPS = [
dict(id='P01', title='Parallel loops cover every index exactly once before returning',
 statement='A parallel loop over N items with any requested number of threads hands out disjoint ranges inside [0,N) that together cover every index exactly once, and it returns only after all of that work is finished. This holds under every goroutine schedule and for any N, including zero and values near the integer limits.',
 over=['inputs','schedules','configurations'], all='all N in 0..2^62, thread counts and CPU counts within the bounds, all schedules with at most two preemptions',
 why=T+'they neither vary N against the thread count nor the schedule.', files=['base/parallel.go'], mech=[('Parallelize','base/parallel.go')], obs=['ranges passed to the callback','state after return'],
 note='All N as 64-bit symbols with up to 5 threads (8 in thorough); all N up to 6 with 4 threads and all CPU counts 1..3 executed fully, selected N up to 65 with up to 33 threads; schedules with 2 preemptions.'),
dict(id='P02', title='Matrix views and conversions read and write exactly the cells they denote',
 statement='Transposed, row-sliced, column-sliced and constant matrix views have the right dimensions and read the cell of the underlying matrix that they denote, out-of-range rows are rejected, and writing through a view changes exactly that cell. Converting to or from a dense matrix copies every cell, leaves the source unchanged and writes nothing outside the target, whatever the stride.',
 over=['inputs','configurations'], all='all cell values, all index combinations and strides for matrices up to 4 by 4',
 why=T+'strided views and boundary indices are not exercised.', files=['base/matrix.go'], mech=[('MatTranspose, MatRowSlice, MatDenseSlice, ToDense, FromDense','base/matrix.go')], obs=['At','Set','Dims'],
 note='All contents, all sub-ranges of matrices up to 3x3 (4 rows for row slices), contiguous and strided.'),
dict(id='P03', title='Gradient optimizers and activations follow their documented formulas',
 statement='For any sequence of gradients, each optimizer (SGD with momentum, Adagrad, RMSProp, Adadelta, Adam) moves the parameters in place by its documented update rule, counts its steps, leaves the gradient and all other memory alone, and clips an output\'s gradient to the configured norm without changing its direction. Each activation function returns its mathematical value, and its derivative expressed through that value is the true derivative.',
 over=['inputs','histories','configurations'], all='all gradients in [-10,10], two or three consecutive steps, every optimizer and constructor; thirty fixed steps of 5x3 parameters, one arbitrary',
 why=T+'optimizer tests only look at where a long run ends up.', files=['base/optimizers.go','base/activation.go'], mech=[('SGDOptimizer.GetUpdate','base/optimizers.go'),('Activation.F / Fprime','base/activation.go')], obs=['parameters after UpdateParams','GetUpdate output'],
 note='Two or three steps on 2 parameters with arbitrary gradients; exp and tanh are uninterpreted functions with bound and monotonicity axioms.'),
dict(id='P04', title='Regression metrics equal their weighted definitions',
 statement='Mean squared error, mean absolute error and R2 equal their textbook definitions for any targets, predictions and positive per-sample weights, per output or averaged over outputs as requested. Losses are never negative and are zero exactly for perfect predictions, R2 never exceeds one, and inputs are not modified.',
 over=['inputs','configurations'], all='all real targets, predictions and weights for up to 3 samples and 2 outputs, contiguous or strided, every averaging mode; 21 samples of 3 outputs, one value arbitrary',
 why=T+'weights are never passed to the loss functions.', files=['metrics/regression.go'], mech=[('R2Score, MeanSquaredError, MeanAbsoluteError','metrics/regression.go')], obs=['returned matrix'],
 note='Up to 3 samples and 2 outputs with arbitrary values and weights.'),
dict(id='P05', title='Classification metrics count exactly what they claim',
 statement='Accuracy, the confusion matrix, and precision, recall, F-beta and support (per class, macro, micro or weighted) equal their definitions as (weighted) counts of samples, for any labels, including predicted labels that never occur among the targets. The confusion matrix has one row and column per class found in targets or predictions, in ascending order.',
 over=['inputs','configurations'], all='all label assignments of 3 samples over 3 classes with arbitrary class values, all positive weights, every averaging mode; larger fixed problems with one arbitrary weight',
 why=T+'predictions always use the labels of the targets and weights are never varied.', files=['metrics/classification.go','preprocessing/label.go'], mech=[('PrecisionRecallFScoreSupport, ConfusionMatrix, AccuracyScore','metrics/classification.go')], obs=['returned values'],
 note='3 samples (4 in thorough) over 3 classes; class values and weights symbolic.'),
dict(id='P06', title='Ranking metrics equal their threshold and pair-counting definitions',
 statement='Every point of a ROC or precision-recall curve holds the rates of the samples scored at least the point\'s threshold, and thresholds are exactly the distinct scores in order. The ROC area equals the weighted fraction of positive/negative pairs ranked correctly with ties counted half, average precision is the precision summed over recall gains, and multilabel averages combine columns, samples or all entries as requested.',
 over=['inputs','configurations'], all='all real scores (with ties), labels and positive weights of 3 samples (4 in thorough), or 2x2 multilabel problems; larger fixed problems with one arbitrary score',
 why=T+'ties, weights and averaging modes are not covered.', files=['metrics/ranking.go','metrics/base.go'], mech=[('ROCCurve, AUC, ROCAUCScore, PrecisionRecallCurve, AveragePrecisionScore','metrics/ranking.go'),('averageBinaryScore','metrics/base.go')], obs=['returned curves and scores'],
 note='Every ordering and tie pattern of 3 scores (4 thorough), symbolic weights.'),
dict(id='P07', title='Scalers map data as documented and their inverse restores it',
 statement='Min-max, standard, max-abs and robust scalers transform seen and unseen data by the statistics of the data of their last fit only, including constant features, and their inverse transform restores the original values. Transforming leaves its input and the targets alone for any stride, and refitting a clone leaves the original scaler alone.',
 over=['inputs','histories','configurations'], all='all real data of 2 or 3 samples and 1 or 2 features, with and without constant features, fresh, refitted or cloned scalers; 11x5 fixed data with one arbitrary value',
 why=T+'refitting, cloning, strided inputs and constant features are not covered.', files=['preprocessing/data.go'], mech=[('MinMaxScaler, StandardScaler, MaxAbsScaler, RobustScaler','preprocessing/data.go')], obs=['Transform','InverseTransform'],
 note='2-3 samples, 1-2 features, arbitrary values; earlier fit on other data of another shape; clone refit.'),
dict(id='P08', title='Incremental fitting equals fitting once; column statistics are exact',
 statement='Feeding data in any batches to an incrementally fittable scaler, encoder or mean-and-variance accumulator gives the same statistics as fitting once on all of it, and fitting again starts over. Column means, variances and standard deviations equal their population definitions over the samples, whatever the matrix type or stride.',
 over=['inputs','histories','configurations'], all='all real data of 3 or 4 samples split into two or three batches at any point; 11x4 fixed data with one arbitrary value in up to ten batches',
 why=T+'no test compares batches with a single fit.', files=['preprocessing/data.go','preprocessing/label.go'], mech=[('IncrementalMeanAndVar and PartialFit methods','preprocessing/data.go')], obs=['fitted statistics'],
 note='Up to 4 samples, every batch split.'),
dict(id='P09', title='Label and one-hot encoders assign every value its class and decode it back',
 statement='Label encoding, binarizing, one-hot and multi-label encoding use exactly the distinct fitted values as classes, in ascending order per column (shared by all outputs for multi-label data), and encode each value as its class number or as the positive mark in its column alone. Decoding restores the encoded values, values that were not fitted encode as no class, and fitting again forgets the earlier classes.',
 over=['inputs','histories','configurations'], all='all real values (every order and tie pattern) of 3 samples and 1 or 2 columns, fresh or refitted encoders, contiguous or strided; 9x3 fixed data with one arbitrary value',
 why=T+'unseen values, refitting and several columns are not covered.', files=['preprocessing/label.go','preprocessing/data.go'], mech=[('LabelEncoder, LabelBinarizer, MultiLabelBinarizer','preprocessing/label.go'),('OneHotEncoder','preprocessing/encoders.go')], obs=['Transform','InverseTransform'],
 note='3 samples, 1-2 columns, symbolic values; string classes over three words.'),
dict(id='P10', title='Row-wise transforms compute their formula and restore what they can',
 statement='Polynomial features, binarizing, row or column normalising, the added column of ones, user functions and shuffling produce exactly the documented outputs for any data, in new storage, with targets passed through or moved along with their rows. Shuffling is a permutation applied equally to data and targets, and inverses restore the original data and targets.',
 over=['inputs','histories','configurations'], all='all real data up to 3 samples and 3 features, degrees up to 3, every norm and axis, every random draw of the shuffle; 7x5 fixed data with one arbitrary value, degree 4',
 why=T+'only the forward direction of one matrix each is tested.', files=['preprocessing/data.go','preprocessing/functiontransformer.go','preprocessing/itertools.go'], mech=[('PolynomialFeatures, Binarizer, Normalizer, Shuffler, FunctionTransformer','preprocessing/data.go')], obs=['Transform','InverseTransform'],
 note='Up to 3x3 symbolic matrices; the random source of the shuffle is symbolic.'),
dict(id='P11', title='Imputing, binning, quantile, kernel, power and PCA transforms are exact',
 statement='Missing cells and only those are replaced by their column\'s chosen statistic; values fall in the bin between its edges and decode to the bin centre; quantile outputs are the position of the value on the fitted quantile grid; kernel centring equals centring the features. Power transforms follow their formula for every power and PCA projects on orthonormal directions of decreasing variance, and their inverses restore the data (or its projection).',
 over=['inputs','histories','configurations'], all='all real data of 2 or 3 samples and 1 or 2 features and all query values, every strategy; powers and PCA inputs from small concrete sets with symbolic queries; 9 fixed samples of 2-3 features with one arbitrary value',
 why=T+'values outside the fitted range, ties, special powers and inverses are not covered.', files=['preprocessing/data.go','preprocessing/imputation.go','preprocessing/discretization.go','preprocessing/pca.go'], mech=[('Imputer, KBinsDiscretizer, QuantileTransformer, KernelCenterer, PowerTransformer, PCA','preprocessing')], obs=['Transform','InverseTransform'],
 note='2-3 samples, symbolic values; SVD and optimizer run natively on concrete data, everything after them is symbolic.'),
dict(id='P12', title='Neighbour searches return exactly the nearest samples',
 statement='A k-neighbour query by brute force or k-d tree returns, nearest first, k distinct samples with their true distances under the chosen metric, such that no sample left out is nearer; approximate queries are off by at most the requested factor. Radius and bounded queries return exactly the samples within the limit (missing ones are marked infinite), neighbour graphs have exactly these edges, and only the data of the last fit counts.',
 over=['inputs','histories','configurations'], all='all positions (with duplicates and ties) of 3 samples on a line, or 4 samples in fixed layouts in the plane with all query points on a line; every metric, algorithm, leaf size, k and limit; 40 fixed samples with an arbitrary query coordinate',
 why=T+'duplicated samples, bounds, refitting and most metrics are not covered.', files=['neighbors/kdtree.go','neighbors/unsupervised.go'], mech=[('KDTree.Query','neighbors/kdtree.go'),('KNeighbors, RadiusNeighbors, KNeighborsGraph','neighbors/unsupervised.go')], obs=['returned distances and indices'],
 note='3 symbolic samples on a line (4 thorough); 4 planar samples in 6 layouts, query coordinate symbolic (both thorough); p in 1, 2, infinity.'),
dict(id='P13', title='Nearest-neighbour and centroid predictors vote and average as documented',
 statement='K-nearest classification predicts the class with the largest (uniform or inverse-distance) weight among the K nearest samples, the smallest class on ties, and its probabilities are the normalised weights; regression predicts the weighted mean of the targets. Nearest-centroid classification predicts the class whose mean (median for the Manhattan metric) is nearest, and every prediction depends only on the last fit and is the same on every run.',
 over=['inputs','histories','configurations'], all='all queries, labels and targets over 3 samples, K in 1..3, every weighting, all map iteration orders; all data of 4 samples for centroids; larger fixed samples with one arbitrary value',
 why=T+'ties, absent classes, refits and the Manhattan metric are not covered.', files=['neighbors/classification.go','neighbors/regression.go','neighbors/nearest_centroid.go'], mech=[('KNeighborsClassifier','neighbors/classification.go'),('KNeighborsRegressor','neighbors/regression.go'),('NearestCentroid','neighbors/nearest_centroid.go')], obs=['Predict','PredictProba','Score'],
 note='3 samples, all labelings over 3 classes, symbolic query or symbolic targets; map iteration order is a choice.'),
dict(id='P14', title='Distances between points and boxes are exact for any vector layout',
 statement='Minkowski (any power, including infinity) and Euclidean distances equal their formula for vectors of any length and memory layout, and are metrics. The least and largest distances from a box to points and boxes, its volume and the two parts of a split are exact.',
 over=['inputs','configurations'], all='all vectors of length 1 to 3 in four layouts; all boxes in one and two dimensions; 11 fixed coordinates with one arbitrary',
 why=T+'one vector pair is tested.', files=['neighbors/distance.go','cluster/distance.go','neighbors/kdtree.go'], mech=[('MinkowskiDistance, EuclideanDistance','neighbors/distance.go'),('MinkowskiDistance, EuclideanDistance','cluster/distance.go'),('Rectangle','neighbors/kdtree.go')], obs=['returned distances'],
 note='Length 1-3, powers 1, 2, 3 and infinity, contiguous, row, column and plain vectors.'),
dict(id='P15', title='Train/test splits are partitions of the rows with the documented sizes',
 statement='Every split of a k-fold splitter, shuffled or not, whatever its random draws, divides the row numbers into disjoint training and test parts that cover every row once, with test sizes that differ by at most one and add up to the number of rows, and it yields exactly the announced number of splits. A train/test split keeps every row of the data together with its target, in exactly one part, with the requested test size, reproducibly for a seed; cloned splitters draw the same splits without disturbing the original.',
 over=['inputs','histories','configurations'], all='all random draws, 1 to 5 rows, 1 to 4 splits; all data values for train/test splits; up to 23 fixed rows',
 why=T+'only seeded draws on one data set are tested.', files=['model_selection/split.go'], mech=[('KFold','model_selection/split.go'),('TrainTestSplit','model_selection/split.go')], obs=['splits','returned matrices'],
 note='Random draws are explored choices for a harness random state; folds of different splits may overlap (each split reshuffles, pinned by ExampleKFold), so only each split on its own is claimed to be a partition.'),
dict(id='P16', title='Cross validation and grid search score candidates fairly and pick the best',
 statement='Each cross-validation score is the scorer\'s value for the test part of a split, predicted by a fresh clone fitted on that split\'s training part only, aligned with its estimator and independent of the number of jobs and the schedule; data and the given estimator stay unchanged. Grid search tries every combination of parameter values exactly once on the same splits and reports the candidate with the best mean score (in the requested direction), the same one on every run, with the estimator of its best split.',
 over=['inputs','schedules','histories','configurations'], all='all data of 4 rows over several split patterns, 1 to 3 jobs and all CPUs, all schedules with one preemption, all map iteration orders, every ordering of four candidates\' scores; eleven splits of 13 rows and sixteen candidates with one arbitrary value, up to 4 CPUs',
 why=T+'real estimators are scored, whose exact scores are unknown, and ties and schedules are not varied.', files=['model_selection/validation.go','model_selection/search.go'], mech=[('CrossValidate','model_selection/validation.go'),('GridSearchCV, ParameterGrid','model_selection/search.go')], obs=['CrossValidateResult','GridSearchCV results'],
 note='Harness estimators with a simple linear fit; grids up to 2x2x2 values.'),
dict(id='P17', title='A pipeline is exactly the composition of its steps',
 statement='Fitting a pipeline fits each step on the data (and targets) as transformed by the steps before it; predicting transforms the queries through the fitted steps, lets the last step predict, and undoes target transformations in reverse order, skipping steps that have no inverse. Score, kind, number of outputs and transform follow from the same composition, a clone has its own steps, and the data and queries passed in stay unchanged.',
 over=['inputs','histories','configurations'], all='all data of 2 or 3 rows, up to two transformers of every kind before an estimator, fresh, refitted or cloned; every transformer of the library as a step',
 why=T+'one pipeline whose steps never touch the targets is tested.', files=['pipeline/pipeline.go','preprocessing/data.go'], mech=[('Pipeline','pipeline/pipeline.go')], obs=['Predict','Score','Transform','GetNOutputs'],
 note='Harness steps learn from the data and targets they are fitted on, so any wrong data, order or omission changes the result.'),
dict(id='P18', title='K-means ends with every sample at its nearest centroid and centroids as means',
 statement='A k-means fit ends, for any data, with as many centroids as clusters, each being the mean of the samples nearest to it (a centroid no sample is nearest to stays among the samples), under the chosen distance and independent of earlier fits, the number of jobs and the schedule. Predicting gives every sample and query the number of its nearest centroid, the first one on ties, changes nothing, and refitting a clone leaves the original alone.',
 over=['inputs','schedules','histories','configurations'], all='all positions (with duplicates) of 3 samples on a line (5 in thorough), 4 planar samples with one free coordinate, all queries; 1 to 3 clusters; larger fixed samples with one arbitrary value',
 why=T+'the test only looks at well separated blobs.', files=['cluster/kmeans.go'], mech=[('KMeans','cluster/kmeans.go')], obs=['Centroids','Predict'],
 note='Every reassignment sequence is followed to its end; schedules with one preemption and race detection on 2 samples.'),
dict(id='P19', title='DBSCAN labels are the density-connected components',
 statement='A sample is a core sample exactly when the weights of the samples within Eps of it (itself included) add up to at least MinSamples; core samples share a label exactly when a chain of core samples within Eps connects them, other samples within reach of a core sample get the label of such a cluster and all others are noise. This holds for every metric, search algorithm and number of jobs, for the last fit only, and predicting returns exactly these labels.',
 over=['inputs','histories','configurations'], all='all positions (with duplicates) of 3 samples on a line (4 in thorough), planar samples with one free coordinate, all weights, every metric and algorithm, MinSamples 1 to 4 and default; 16 fixed samples with one arbitrary value',
 why=T+'the test only counts the clusters of three blobs.', files=['cluster/dbscan.go','neighbors/unsupervised.go'], mech=[('DBSCAN','cluster/dbscan.go')], obs=['Labels','CoreSampleIndices','Predict'],
 note='Oracle: transitive closure over the pairwise distances computed by the harness.'),
dict(id='P20', title='Interpolants pass through their points with the documented shape between',
 statement='Linear interpolation takes any query to the line through the two known points around it (the two outermost ones beyond the ends), in any order of the points and skipping missing inner values; bilinear interpolation does so in both directions of a grid. The cubic spline passes through its points with cubic pieces, continuous slope and curvature, and no curvature at the ends; an interpolant keeps its own points and leaves the given ones alone.',
 over=['inputs','configurations'], all='all positions, values and orders of 3 points and all queries; all values on 3x2 and 2x3 grids with queries free in one coordinate; all values on five sets of spline knots; 9 fixed points or knots and a 5x4 grid with one arbitrary value',
 why=T+'extrapolation above the range, reuse of the slices and the spline\'s shape are not tested.', files=['interpolate/interpolate.go','interpolate/cubic.go'], mech=[('Interp1d, Interp2d','interpolate/interpolate.go'),('CubicSpline','interpolate/cubic.go')], obs=['returned functions'],
 note='Knot positions of the spline are concrete, its values symbolic (tolerance 1e-6).'),
dict(id='P21', title='LinearRegression minimises the squared error; linear models predict XC+b',
 statement='After a fit no coefficients and intercept have a smaller squared error than LinearRegression\'s, also with constant or collinear features or few samples (where the smallest coefficients are returned), with or without intercept and normalisation. Centring and scaling are exact, reversible, free of races and leave the samples alone; a refit equals a fresh fit and refitting a clone leaves the original alone. Linear models predict X*Coef+Intercept into whatever matrix is passed and score it with R2.',
 over=['inputs','configurations','histories'], all='all targets of up to 5 samples and 2 outputs on nine sample matrices; all samples up to 3x2 for preprocessing; all samples and coefficients of 2x2 for prediction; 13-17 fixed samples of 4-5 features and 3-4 outputs with one arbitrary value',
 why=T+'degenerate samples, refits, clones and strided matrices are not tested.', files=['linear_model/Base.go','linear_model/coordinatedescent.go'], mech=[('LinearRegression.Fit','linear_model/Base.go'),('PreprocessData','linear_model/Base.go'),('LinearModel.DecisionFunction','linear_model/Base.go')], obs=['Coef, Intercept, Predict, Score'],
 note='The sample matrix of a fit is concrete (singular values by the real gonum code), targets symbolic; optimality is stated as the normal equations within 1e-5.'),
dict(id='P22', title='Losses and gradients agree, and regressions minimise the documented loss',
 statement='SquareLoss, LogLoss and CrossEntropyLoss return the documented loss plus the elastic-net penalty and, when asked, its exact gradient, for any activation, penalty, minibatch and first-feature exemption, without touching their inputs. SGDRegressor and RegularizedRegression hand exactly that objective and gradient to their optimizer, also when it evaluates several places at once, and keep what it returns (the ridge solution with an exact optimizer); one LinFit epoch sees every sample once and reports the loss of the parameters it returns.',
 over=['inputs','configurations','schedules'], all='all targets, parameters (and one-feature samples) of 2-3 samples, 1-2 features and outputs; nine penalties; all points an optimizer may probe; 11-13 fixed samples of 4 features and 3 outputs with one arbitrary value',
 why=T+'the derivative test samples one feature of ones without penalty; nothing checks SGDRegressor\'s or Ridge\'s gradient.', files=['linear_model/loss.go','linear_model/Base.go'], mech=[('SquareLoss, LogLoss, CrossEntropyLoss','linear_model/loss.go'),('SGDRegressor.Fit, LinFit, LinFitGOM','linear_model/Base.go')], obs=['J, grad, Coef, Intercept'],
 note='Samples are concrete for two features; log and exp are uninterpreted with axioms; the optimizer is the harness\'s own optimize.Method run by the real optimize.Minimize.'),
dict(id='P23', title='Elastic-net coordinate descent minimises its penalised objective',
 statement='Each coordinate-descent step of ElasticNet/Lasso minimises half the squared error plus the documented L1/L2 (row-group for several outputs) penalty over one coefficient exactly, over non-negative values with Positive, from any starting coefficients, with or without intercept and normalisation. The reported duality gap bounds the distance to the objective of any other coefficients, and the reported iterations are those made, at most MaxIter. EnetPath returns exactly the model of each alpha given, and its automatic alphas reach from the zero solution down to eps times that.',
 over=['inputs','configurations'], all='all targets (2-3 free values) on concrete samples of 1-2 features; all warm starts; all competing coefficients in [-2,2] for the gap; 2-4 penalties, both signs constraints; 13-16 fixed samples of 3-5 features, 1-4 outputs, one target arbitrary or none',
 why=T+'tests compare printed digits of three fits.', files=['linear_model/coordinatedescent.go','linear_model/cdfast.go'], mech=[('enetCoordinateDescent, enetCoordinateDescentMultiTask','linear_model/cdfast.go'),('ElasticNet.Fit, EnetPath','linear_model/coordinatedescent.go')], obs=['Coef, Intercept, CDResult'],
 note='One iteration per symbolic query (MaxIter=1); convergence over many iterations only on concrete data; samples concrete.'),
dict(id='P24', title='LogisticRegression minimises penalised log loss and predicts the likeliest class',
 statement='The objective LogisticRegression minimises is the mean log loss (binary or softmax) plus Alpha/2n times the squared coefficients, its gradient is exact at any parameters, and a fit keeps the best parameters it saw, where the gradient vanishes when it converged. With any coefficients the probabilities are positive, sum to one (also for huge scores) and Predict returns the label of the likeliest class, into any kind of matrix. A refit equals a fresh fit, a clone shares nothing, impossible parameters are refused.',
 over=['inputs','configurations','histories'], all='all parameters in [-3,3] for 2 samples, 1-2 features, 1-2 outputs and all labels; all scores of up to 3 classes; refits and optimality on four small data sets; 13 fixed samples of 4 features and 4 classes with one arbitrary intercept',
 why=T+'the one example fits iris; labels, strides, refits, tiny data sets and large scores are not tested.', files=['linear_model/logistic.go','base/matrix.go'], mech=[('LogisticRegression.Fit, backprop, fitLbfgs','linear_model/logistic.go'),('LogisticRegression.PredictProbas, Predict','linear_model/logistic.go')], obs=['Coef, Intercept, Loss, gradients, PredictProbas, Predict, Score'],
 note='Objective and gradient are evaluated at symbolic parameters through the real optimize.Minimize with MaxIter=1; complete fits only on concrete data; exp and log uninterpreted with axioms.'),
dict(id='P25', title='GaussianNB keeps exact class moments and predicts the likeliest class',
 statement='After Fit, or any sequence of PartialFit batches, GaussianNB holds exactly the weighted count, mean and smoothed variance of every class and feature of all the data seen, with empirical or given priors. PredictLogProbas is the joint Gaussian log likelihood normalised over classes, PredictProbas its exponential and Predict the class where it is largest, into any kind of matrix. A refit equals a first fit, a clone shares nothing, impossible priors and labels are refused.',
 over=['inputs','configurations','histories'], all='all reals in [-4,4] for 3 samples (4 thorough), 1-2 features, all labellings among 3 classes, weights or priors or none, two batches at every split; all means and points in [-3,3] for predictions; 17 fixed samples of 4 features with one arbitrary value in up to ten batches',
 why=T+'no labelling, weighting or split into batches is special, and the online update is only wrong when a class is in both batches.',
 files=['naive_bayes/naivebayes.go'], mech=[('GaussianNB.PartialFit','naive_bayes/naivebayes.go'),('GaussianNB.updateMeanVariance','naive_bayes/naivebayes.go'),('BaseNB.Predict','naive_bayes/naivebayes.go')],
 obs=['Classes, ClassCount, ClassPrior, Theta, Sigma, Epsilon','predictions and (log) probabilities'],
 note='log and exp are uninterpreted: probabilities are compared with the same formula, and on literal data with their sum.'),
dict(id='P26', title='SVC and SVR train feasible optimal multipliers and predict their expansion',
 statement='Training SVC or SVR with any kernel (named, function or interface) and any random draws ends with balanced multipliers inside the box of C, on the samples named as support, meeting the KKT margin (or the Epsilon tube) of every sample; also for one class, one sample, constant targets or contradictory samples. Predict returns the side of the kernel expansion (SVC, as 0 or 1) or its value (SVR), per output, into any kind of matrix. A refit equals a first fit and a clone stands on its own.',
 over=['inputs','configurations','random draws'], all='all pairs of samples in [-2,2] (SVC) and all pairs of targets (SVR); all labellings of 4 sets of 3-4 samples and all first 3 (6 thorough) partner draws; all multipliers, intercepts and query points in [-2,2] for predictions of 1-2 outputs; 12 fixed samples of 3 features and 3 outputs',
 why=T+'the random partner choice makes every run different, and the failing draws or degenerate labellings are rare.',
 files=['svm/svm.go','svm/svr.go','svm/cache.go','svm/kernels.go'], mech=[('svmTrain','svm/svm.go'),('svrTrain','svm/svr.go'),('cachedKernel','svm/cache.go'),('svmPredict','svm/svm.go'),('svrPredict','svm/svr.go')],
 obs=['Model, Support, SupportVectors','Predict, Score'],
 note='The training runs on literal positions use native floats; after the chosen draws a fixed sequence follows.'),
dict(id='P27', title='Multilayer perceptrons descend the gradient of their loss and predict the pass',
 statement='For any weights, data, activation, layer sizes and matrix layout, a training step of an MLP (MLPRegressor, MLPClassifier or the 32 and 64 bit base) moves its parameters by exactly what sgd, momentum, Nesterov or adam prescribe for the gradient of the mean loss plus the Alpha penalty of each mini-batch, every training row being used once per epoch and held-out rows never, and keeps the best parameters where promised (early stopping, lbfgs). Predict is the forward pass with the weights held: values, the more likely of 0/1, or the label of the most likely class. Fit leaves the caller\'s data and settings alone, refits start afresh unless WarmStart, clones share nothing, hyperparameters out of range are refused.',
 over=['inputs','configurations','histories','schedules'], all='all weights and data in [-2,2] of 1-2 samples, 1-2 features, hidden layers [],[1],[2],[2,1], 1-3 outputs, contiguous, strided or transposed; all batch sizes for 1-4 rows; 1-3 epochs; two concurrent fits with one preemption; 24 and 400 fixed samples of 4 features, hidden layers [3,4] and [5], 3 outputs, 3 epochs',
 why=T+'tests compare digits of a few long trainings, where a wrong gradient of one activation, a wrong stride or a wrong last batch goes unnoticed.',
 files=['neural_network/basemlp32.go','neural_network/basemlp64.go','neural_network/multilayer_perceptron.go','neural_network/general.go','neural_network/mathCompat.go','neural_network/indexedxy.go'], mech=[('backprop, computeLossGrad, forwardPass','neural_network/basemlp64.go'),('fitStochastic, fitLbfgs, updateNoImprovementCount','neural_network/basemlp64.go'),('SGDOptimizer64, AdamOptimizer64','neural_network/basemlp64.go'),('predict, LabelBinarizer64','neural_network/basemlp64.go'),('MLPRegressor, MLPClassifier','neural_network/multilayer_perceptron.go')],
 obs=['Coefs, Intercepts, Loss, LossCurve, ValidationScores','Predict, Score'],
 note='exp, tanh and log are uninterpreted with axioms; classifier steps have symbolic output layers only; lbfgs and initialisation on literal data; Unmarshal is not covered. Two defects whose repair changes golden test output are listed as known findings (short last batch, adam bias correction).'),
dict(id='P28', title='BayesianRidge ends with the posterior of its precisions and predicts from it',
  statement="BayesianRidge.Fit (more samples than features) leaves Coef the mean and Sigma the covariance of the posterior for the reported Alpha and Lambda on the data centred with FitIntercept and scaled with Normalize, Intercept making the mean prediction the mean target; the first Alpha is the inverse variance of the targets and the first Lambda 1, each iteration re-estimates Alpha as (n-gamma+2*Alpha1)/(RSS+2*Alpha2) and Lambda as (gamma+2*Lambda1)/(|w|^2+2*Lambda2), gamma the effective number of parameters, and a converged single-output fit is a fixed point. Predict returns X*Coef+Intercept and Predict2 also the standard deviation sqrt(1/Alpha + x' Sigma x) of each sample, in nil, empty, full or view destinations. Fit leaves X and Y alone, constant targets give finite coefficients that predict them, and a refit equals a first fit and leaves clones alone.",
  over=['inputs','histories'], all='all targets of small designs (full-rank, collinear, constant feature), intercept/normalize choices, all coefficients, queries and covariance factors; 13 fixed samples of 4 features and 3 outputs with one arbitrary query coordinate',
  why=T+'The evidence iteration mixes an SVD, rational updates and norms; errors in gamma or the squared error still converge to plausible coefficients.',
  files=['linear_model/bayes.go'], mech=[('HFirst, HSecond, HConverged','linear_model/bayes.go'),('HPredict','linear_model/bayes.go')],
  obs=['the posterior mean satisfies the normal equations with Lambda/Alpha; Sigma times its precision is the identity','the second Alpha and Lambda equal their closed forms','the fixed point equations hold after convergence','standard deviations equal their quadratic form'],
  note='Scores, n<=p (panics as unimplemented) and the multi-output fixed point are not claimed; Predict2 is as documented for centred data.'),
dict(id='P29', title='Seeded random sources are reproducible, clonable and safe to share',
 statement='Sources created with equal seeds yield equal streams, a clone continues the stream without disturbing the original, and reseeding restarts it. A locked source used by several goroutines hands out every value of its stream exactly once without data races, draws made under its lock are consecutive, and a panicking callback leaves it usable.',
 over=['schedules','inputs','histories'], all='all schedules of two goroutines with at most two preemptions; four seeds, up to 6 draws',
 why=T+'no test shares a source between goroutines.', files=['base/source.go'], mech=[('LockedSource','base/source.go')], obs=['values drawn'],
 note='Two goroutines, two draws each, schedules with 2 preemptions, vector-clock race detection on every access.'),
dict(id='P30', title='Gaussian processes evaluate exact kernels, likelihoods and posteriors',
 statement="Every kernel (Constant, White, RBF with one or a length scale by feature, DotProduct, and any Sum, Product or Exponentiation of them) evaluates its documented formula for all pairs of rows, Diag being the diagonal of k(X,X) and the gradient holding, for each hyperparameter whose bounds differ, the derivative with respect to its log; Theta and Bounds are the logs of those free hyperparameters in order, and CloneWithTheta(theta) is an independent kernel with them replaced (a plain clone for nil). A Regressor's LogMarginalLikelihood is the log density of the targets under the kernel plus Alpha on the diagonal, with its exact gradient; unfitted it predicts the prior, fitted the posterior mean, standard deviation or covariance at any points (targets centred with NormalizeY), and Score is the R2 score of those predictions without refitting. Tensors are row major, bounds checked and iterated entirely; neither kernels nor regressors write in the caller's data and clones share nothing.",
 over=['inputs','configurations','histories'], all='all rows, hyperparameters, fixed/free/missing bounds and layouts of 1-3 samples of 1-2 features; all targets of 1-3 training samples, 1-2 outputs, scalar or per-sample Alpha, three composite kernels; 9 fixed training samples with one arbitrary target',
 why=T+'tests compare a few digits of isotropic kernels with all hyperparameters free; anisotropic, fixed, composed or cloned kernels and the posterior are not exercised.',
 files=['gaussian_process/gpr.go','gaussian_process/kernels/kernels.go','gaussian_process/kernels/matutil.go','gaussian_process/tensor/tensor.go'],
 mech=[('kernel formulas, gradients and composition','gaussian_process/kernels/kernels.go'),('theta and clones','gaussian_process/kernels/kernels.go'),('likelihood and posterior','gaussian_process/gpr.go'),('tensors and function matrices','gaussian_process/tensor/tensor.go')],
 obs=['k(X,Y), k(X,X), Diag and gradient equal formulas written from the documentation','theta of clones, written clones and their originals','posterior mean, std, covariance and likelihood equal those from an explicit inverse'],
 note='hyperparameters are not optimised by Fit (the code has no optimizer); kernels of negative base to a fractional exponent are outside.'),
dict(id='P31', title='Generated datasets follow their documented model, reproducibly',
 statement="MakeRegression returns targets that are exactly the informative features times the returned coefficients plus the bias (a number, a slice or a matrix, by target), every feature and coefficient being a draw of its own. MakeBlobs puts every sample at the center its label names plus ClusterStd times noise, with as many features as the centers given (or as requested, centers being drawn inside CenterBox), shuffled or not, and leaves the given centers alone. Equal random states give equal data, whatever the number of processors and the schedule; a dataset's matrices hold exactly its data and targets.",
 over=['inputs','configurations','schedules'], all='all centers, biases and data values; 1-4 samples, 1-3 features, 1-3 centers or informative features, 1-2 targets, two seeds, one or two processors; 19-23 samples of up to 12 features',
 why=T+'tests only look at shapes of one configuration; given centers, biases, shuffling and reproducibility are not exercised.',
 files=['datasets/base.go','datasets/samples_generator.go'],
 mech=[('linear model of the targets','datasets/samples_generator.go'),('blobs and their labels','datasets/samples_generator.go'),('matrices of a dataset','datasets/base.go')],
 obs=['y equals X informative . Coef + bias','the same seed around other centers and with another spread gives the same noise and labels','GetXY equals Data and Target'],
 note='The distribution of the noise itself is not decided (random draws are concrete for each seed); loaders of files need the operating system and are not claimed.'),
dict(id='P32', title='Every estimator fits and predicts any kind of matrix without side effects',
 statement="Every estimator of the library (linear, neighbours, clustering, naive Bayes, support vector, neural network, Gaussian process, pipeline, grid search) fits samples and targets held in dense matrices, views into larger ones or any other mat.Matrix alike, and predicts the same values into nil, an empty matrix, a filled dense matrix, a view or any other mat.Mutable, returning them too, with a row for each query and GetNOutputs columns. Neither Fit, Predict nor Score writes in the samples, targets or queries nor around any view, and later changes of the samples by the caller do not matter. A query gets the same prediction alone or among others, again and again and with any number of processors; Score is the accuracy (classifiers) or mean R2 (regressors) of the predictions. A clone of a fitted estimator predicts as it does, one of an unfitted or fitted estimator fits as it would, and fitting it leaves the original alone; a refit equals a first fit.",
 over=['inputs','configurations','histories'], all='21 estimators on two data sets of 6 samples; all old contents of the destination, all values of one query coordinate (linear, piecewise linear and distance based estimators) and of one target scored; all combinations of kinds of matrices',
 why=T+'tests fit and predict contiguous dense matrices only, once; views, other matrix types, reused destinations, clones and refits are not exercised.',
 files=['base/matrix.go','linear_model/Base.go','linear_model/logistic.go','linear_model/bayes.go','linear_model/coordinatedescent.go','linear_model/ridge.go','neighbors/classification.go','neighbors/regression.go','neighbors/nearest_centroid.go','cluster/kmeans.go','cluster/dbscan.go','naive_bayes/naivebayes.go','svm/svm.go','svm/svr.go','neural_network/multilayer_perceptron.go','gaussian_process/gpr.go','pipeline/pipeline.go','model_selection/search.go'],
 mech=[('conversion to and from dense','base/matrix.go'),('destination of predictions','linear_model/Base.go'),('clones','pipeline/pipeline.go')],
 obs=['predictions of the same estimator through every kind of matrix are equal','cells around views keep their value','predictions before and after a clone was fitted'],
 note='data sets are concrete (what each estimator computes from its data is decided by the other properties); random draws restart with each estimator, so clones and refits of estimators that draw are only checked for leaving the original alone.'),
dict(id='P33', title='Every transformer treats any matrix alike and clones live their own life',
 statement="Every transformer of preprocessing (scalers, discretizers, encoders, imputer, normalizer, polynomial features, kernel centerer, quantile and power transformers, PCA, function transformer) fits and transforms samples and targets held in dense matrices, views into larger ones, transposes or any other mat.Matrix alike; FitTransform equals Fit then Transform; none of Fit, Transform, InverseTransform writes in what it is given nor around any view, and what Transform returned is not changed by a later Transform and (but for a function transformer) writing in it does not change the samples. Transformers of samples do without targets (nil). A row is transformed alone as among others (but where the transformer works by column or draws), again and again, whatever the caller does to the fitted samples afterwards. A clone of a fitted transformer transforms as it does, one of an unfitted transformer fits as it would, and neither Fit, FitTransform nor PartialFit of one changes the other; a refit, after data of the same or other shape, equals a first fit.",
 over=['inputs','configurations','histories'], all='22 transformers on two data sets of 5 samples and fixed ones of 23 samples by 6 features; all values of one sample coordinate (or label) in [-4,8] where the transformation is piecewise linear; all combinations of kinds of matrices; 1 to 3 processors',
 why=T+'tests fit and transform contiguous dense matrices once; views, other matrix types, clones that go on being fitted, and refits on data of another shape are not exercised.',
 files=['preprocessing/data.go','preprocessing/discretization.go','preprocessing/functiontransformer.go','preprocessing/imputation.go','preprocessing/label.go','preprocessing/pca.go','base/matrix.go'],
 mech=[('clones','preprocessing/data.go'),('refit of the decomposition','preprocessing/pca.go'),('conversion to dense','base/matrix.go')],
 obs=['results of the same transformer through every kind of matrix are equal','cells around views keep their value','results of a transformer before and after its clone was fitted further'],
 note='data sets are concrete but for one coordinate (what each transformer computes is decided by the other properties); Shuffler draws and is decided by its own property; NComponents of PCA is filled in by a fit and reset before a refit.'),
]
NA = []
