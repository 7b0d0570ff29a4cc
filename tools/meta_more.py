# The rest of the properties, run by meta.py.

prop("C13", "Forests survive being written to .sf files and read back",
     "A forest written to a .sf file and read back has the same target, intercept, trees in the same order, weights, splits, missing branches and predictions, and votes the same on any data. Any number of forests in a file come back as that many, by reading forests or tree by tree, and files of other programs in rf-ace's format, with unknown fields, other orders of fields and quoted names, are read too. What a file that was cut off holds completely is read; files put after each other read as all of their forests.",
     [IN, "crash_points"], "every forest with any names, labels, thresholds and shapes of trees, every place a file is cut at a line end, and every number of forests in a file",
     "Existing tests read two small forests with plain names and write none with missing branches, weights or odd names.",
     ["forestwriter.go", "forestreader.go", "forrest.go", "tree.go"],
     [("writing", "forestwriter.go WriteForest, WriteTreeHeader, WriteNodeAndChildren"), ("reading", "forestreader.go ReadForest, ReadTree, ParseRfAcePredictorLine"), ("building from paths", "tree.go AddNode")],
     "runtime monitor: round trips compared with the harness' model, written files parsed by the harness",
     COMMON + " Labels with colons, quotes or line breaks can't be expressed in the format and aren't decided.",
     observe=["text of written files, forests read"])

prop("C14", "Annotated feature matrices are read and written without loss",
     "Reading an annotated feature matrix, with features in rows or in columns, plain or zipped, gives exactly the features, names, types, case labels, values and categories the file holds; values spelled as missing in any of the documented ways, and numbers that aren't, are missing and nothing else is. Values put or appended one by one are read back, a feature knows whether it has missing values and every category has one number. Writing chosen cases and reading them again gives these cases in the order chosen.",
     [IN, HIS], "every table with any names, labels and spellings of values, orientation, packaging, list of cases and sequence of edits",
     "Existing tests parse two small files and compare a few values.",
     ["featurematrix.go", "densenumfeature.go", "densecatfeature.go", "catmap.go", "utils.go"],
     [("parsing of features by type prefix", "featurematrix.go ParseFeature, ParseAFM"), ("orientation", "featurematrix.go ParseAFM, LoadCases"),
      ("missing values", "densenumfeature.go Append, densecatfeature.go Append"), ("numbering of categories", "catmap.go CatToNum"), ("writing", "featurematrix.go WriteCases")],
     "runtime monitor: parsed and written tables compared with the harness' table", COMMON,
     observe=["features, names, values and labels of the parsed matrix, text written"])

prop("C19", "Gradient boosting steps by learning rate times the residuals",
     "After any sequence of boosting steps the residual of every case is its target minus the intercept and minus all it was predicted so far times the learning rate (for two classes, the target minus the logistic function of that sum), whatever partitions and predictions the steps had. The intercept is the mean (for classes half the log odds) of the known targets. Each tree of a boosted forest predicts the documented statistic of the residuals of the training cases it sends to a leaf, is written with the learning rate as its weight, and intercept plus weighted predictions of all trees is the sum of what the cases were predicted.",
     [IN, HIS], "every numerical or two class target with missing values, every learning rate and sequence of partitions, trees and forests",
     "Existing tests boost two small data sets and only compare the final error, which a wrong step merely worsens.",
     ["gradboosttarget.go", "gradboostclasstarget.go", "growforest/growforest.go"],
     [("residuals", "gradboosttarget.go Boost, gradboostclasstarget.go Boost"), ("leaves", "gradboostclasstarget.go FindPredicted, tree.go"), ("weights and intercept", "growforest/growforest.go")],
     "runtime monitor: ledger of predictions compared with residuals and recorded trees",
     COMMON + " Leaves for classes are decided while the sum of their variances is above 1e-6.",
     hook="growforest/verif_hook.go records each grown tree and its cases")

prop("C20", "Adaptive boosting reweights cases exactly and keeps weights a distribution",
     "Each boosting step gives the tree the documented weight for its weighted error and multiplies the weights of the cases by the documented factor of whether (or how far) their leaf predicts them wrongly, and scales them to sum to one; steps no better than chance or without an error leave the weights as they were. Weights never become negative or not a number, and cases missing the target always weigh nothing. Trees of boosted forests carry these weights in files and votes.",
     [IN, HIS], "every categorical target, with or without costs, or numerical target, with missing values, and every sequence of partitions, trees and forests",
     "Existing tests boost one small data set and only compare the final error.",
     ["adaboosttarget.go", "adacosttarget.go", "numadaboostingtarget.go", "growforest/growforest.go"],
     [("weights of cases and trees", "adaboosttarget.go Boost, adacosttarget.go Boost, numadaboostingtarget.go Boost"), ("initial weights", "adaboosttarget.go NewAdaBoostTarget, adacosttarget.go NewAdaCostTarget, numadaboostingtarget.go NewNumAdaBoostTarget"), ("weights of written trees", "growforest/growforest.go")],
     "runtime monitor: ledger of weights compared after every step", COMMON + " Where labels of a leaf tie either may count as the leaf's; steps within 1e-9 of an error of a half or none aren't decided.",
     hook="growforest/verif_hook.go records each grown tree and its cases")

prop("C15", "ARFF and libsvm files are read and written without loss",
     "Reading an ARFF or libsvm file gives exactly the features, types, names, values, labels and missing values it holds, whatever comments, blank lines, spelling of keywords, order of indices and line ends it has; what a sparse line leaves out is zero. Writing any chosen cases as ARFF gives a file that reads back as these cases, writing them as libsvm gives their targets and the non zero values of all other features, imputed and encoded as documented, in the order of the features. Writing never changes the data, and the converting tool does the same from and to all formats, leaving out excluded features.",
     [IN, CFG], "every table, list of cases, target, exclusion list and layout of a file",
     "Existing tests parse one small file per format and write none.",
     ["arff.go", "libsvm.go", "utils/toafm/main.go", "featurematrix.go"],
     [("arff", "arff.go ParseARFF, WriteArffCases"), ("libsvm", "libsvm.go ParseLibSVM, WriteLibSvm, WriteLibSvmCases"), ("conversion", "utils/toafm/main.go")],
     "runtime monitor: parsed and written files compared with the harness' table", COMMON + " Names and labels are ones the formats can express.")

prop("C16", "Sorting cases by value sorts both lists together",
     "Sorting a list of cases by an accompanying list of values leaves the values in increasing order, each still next to a case it accompanied before, for every length and arrangement of values including ties, infinities, signed zeros and arrangements made to defeat quick sort. Values beyond the cases stay where they are. Loading values for cases gives each case its own value and doesn't change the data.",
     [IN], "every list of values that are numbers, up to 1200 long, with any cases",
     "Existing tests sort a few short lists; long lists, where median selection, partitioning of ties and the fall back to heap sort work, aren't sorted.",
     ["sortby/sortby.go", "sortablefeature.go"],
     [("partitioning", "sortby/sortby.go quickSort, doPivot"), ("fall back", "sortby/sortby.go heapSort, siftDown"), ("loading", "sortablefeature.go Load")],
     "runtime monitor: order and conservation of pairs, with inputs made by an adversary", COMMON)

prop("C17", "Samplers draw what they should with the documented probability",
     "Balanced sampling draws every class present equally often and cases of a class equally often, balanced sampling within categories keeps the rate of each category and balances the classes within it, and no sampler ever draws a case without a known class. Sampling with replacement draws every case with the same probability independently of other draws. Drawing the first candidates from a deck draws distinct ones, every one with the same probability, keeps the deck's cards and leaves constant ones at its end.",
     [IN, HIS], "every target, feature to balance by, deck, number of constants and draws, and every sequence of draws",
     "Existing tests sample two features with two classes and compare counts loosely.",
     ["sampeling.go"],
     [("balanced", "sampeling.go BalancedSampler"), ("balanced within categories", "sampeling.go SecondaryBalancedSampler"), ("partial shuffle", "sampeling.go SampleFirstN"), ("with replacement", "sampeling.go SampleWithReplacment")],
     "runtime monitor: every draw checked, frequencies compared by a Chernoff bound", COMMON + " Frequencies are only decided where a deviation has a probability below 1e-13.")

prop("C18", "Copies are independent, shuffles permute and imputing fills the gaps",
     "A copy of a feature, or a feature copied into another, has the same values, missing values and labels, and changing one never changes the other. Shuffling a feature, chosen cases of it or making contrasts gives a uniformly random permutation of values and missing values (of the chosen cases only), leaves originals as they were, and contrasts are named after, and found by the name of, the features they were made from. Imputing replaces exactly the missing values by the mean or the most common label.",
     [IN, HIS], "every feature and table, every list of cases, and every sequence of changes after copying",
     "Existing tests check one imputed feature and that contrasts increase the number of features.",
     ["densenumfeature.go", "densecatfeature.go", "featurematrix.go"],
     [("copies", "densenumfeature.go Copy, CopyInTo, densecatfeature.go Copy, CopyInTo"), ("shuffling", "Shuffle, ShuffleCases, ShuffledCopy of both kinds of features"),
      ("contrasts", "featurematrix.go AddContrasts, ContrastAll"), ("imputing", "featurematrix.go ImputeMissing")],
     "runtime monitor: model of the table compared after every step, frequencies of permutations", COMMON)

prop("C22", "The t test reports Welch's statistic and its tail probability",
     "For any two samples the statistic, the degrees of freedom and the mean reported are Welch's, whatever the sizes, scales and offset of the samples. The p value is the probability of Student's distribution beyond the statistic, accurate also where it is tiny, and swapping the samples turns it into its complement. The samples aren't changed.",
     [IN], "every two samples of 2 to 80 values with up to 200 degrees of freedom, scales over twelve orders of magnitude and offsets up to a million spreads",
     "An existing test compares two samples of equal size with one table value.",
     ["stats/stats.go"],
     [("moments", "stats/stats.go MeanAndVar"), ("statistic", "stats/stats.go Ttest"), ("tail", "stats/stats.go regularizedIncompleteBeta")],
     "runtime monitor: numerical integration as oracle", COMMON)

prop("C23", "Folds partition the cases and every file holds exactly its cases",
     "The tool making folds for cross validation puts no case into two test sets, puts as many cases into every one (of every class, when stratified) as can be shared out equally, and each fold trains on exactly the cases tested in the other folds. Which fold a case ends up in is uniformly random. Every file, in every format, holds exactly the values of its cases, imputed, encoded and without excluded features as asked for.",
     [IN, CFG], "every table, target, number of folds and combination of options",
     "The tool has no tests.",
     ["utils/nfold/main.go", "featurematrix.go", "arff.go", "libsvm.go"],
     [("folds", "utils/nfold/main.go main"), ("shuffling", "sampeling.go SampleFirstN"), ("writing", "featurematrix.go WriteCases, arff.go WriteArffCases, libsvm.go WriteLibSvmCases")],
     "end to end monitor: cases identified in all files written, conservation and frequencies", COMMON)

prop("C24", "Leaf co-occurrence counts are exact for any number of threads",
     "The number reported for two cases is the number of leaves of all trees of all forests given that both reach, the number for a case and a feature is the number of nodes splitting on it the case passes, and the splits listed for a feature are all of those its nodes have. Nothing that is zero is listed, nothing twice. This holds for any number of forests and threads, without data races.",
     [IN, SCH], "every table, set of forests with missing branches, number of files and threads",
     "The tool has no tests.",
     ["leafcount/leafcount.go", "tree.go", "utils.go"],
     [("leaves and branches", "tree.go GetLeaves"), ("counts", "utils.go SparseCounter"), ("threads", "leafcount/leafcount.go main")],
     "end to end monitor under the race detector: outputs compared with cases routed by the harness", COMMON)

prop("C29", "Encoding and anonymizing keep the information and nothing else",
     "Encoding as numbers gives one number per category code for up to two categories and one indicator per category above, one hot encoding one true or false feature per category, both in order, named after feature and category, missing where the original is, and findable by name. Anonymizing puts the target first, numbers features, cases and labels and keeps types, values and which labels are equal, and doing it again changes nothing. Encoding never changes the original, and changing encoded features doesn't either.",
     [IN], "every table with any names, labels and missing values",
     "Existing tests encode one small table.",
     ["densecatfeature.go", "featurematrix.go", "catmap.go"],
     [("encoding", "densecatfeature.go EncodeToNum, OneHot, featurematrix.go EncodeToNum, OneHot"), ("anonymizing", "featurematrix.go StripStrings")],
     "runtime monitor: tables encoded by the harness as oracle", COMMON)

prop("C30", "Trees exported in scikit learn's layout route cases the same way",
     "The exported layout lists all nodes with each node before its left and then its right subtree, children by their position, leaves without children, and features and thresholds of the splits. Node count, capacity and depth are those of the tree. Following the layout, also after a round trip through json, sends every case to the leaf the tree sends it to, as long as the case has the values it is asked for; branches for missing values are left out. The file growforest exports holds exactly the trees it grew, on any number of cores.",
     [IN, SCH], "every tree on numerical features, generated or grown, with or without branches for missing values, all cases and any number of cores",
     "Existing tests don't export a tree.",
     ["sklearn_tree.go", "growforest/growforest.go"],
     [("export", "sklearn_tree.go BuildScikitTree"), ("collecting trees", "growforest/growforest.go")],
     "runtime monitor: interpreter of the layout compared with the tree", COMMON,
     hook="growforest/verif_hook.go records each grown tree and its cases")

prop("C27", "Imputing, permuting, shuffling and contrasts change data as documented",
     "Training is done on the data read, changed as the options say and not otherwise. Imputing fills exactly the missing values, numbers with the mean and categories with a most common label of the feature; permuting the target and shuffling matched features reorders the (imputed) values of those columns alone, each on its own and differently, and reports how many features were shuffled. Contrasts are reordered copies of the features named, as many as asked for or one for every feature, and are renewed between the forests of a contrast analysis. All trees, bags and leaves follow this data.",
     [IN, CFG], "every table and combination of imputing, permuting, shuffling, contrasts, forests, targets, sampling and growing options",
     "Existing tests use none of these options.",
     ["growforest/growforest.go", "featurematrix.go", "densenumfeature.go", "densecatfeature.go"],
     [("order of changes", "growforest/growforest.go main"), ("contrasts", "featurematrix.go AddContrasts, ContrastAll"), ("values", "densenumfeature.go, densecatfeature.go Shuffle, ShuffledCopy, ImputeMissing")],
     "runtime monitor: data recorded before every forest compared with the harness' own, trees checked against it", COMMON + " Reordering is recognized in columns of at least 15 different values.",
     hook="growforest/verif_hook.go records the data of every forest and each grown tree and its cases")

prop("C32", "Contrast analysis tests each feature's importances against its contrast's",
     "A contrast analysis (ACE) over a number of forests reports for every feature the mean over the forests of its importance per tree and the p value of Welch's test of these importances against those of its shuffled copy in the same forests. Every forest counts, with its own trees only. With a cutoff one more forest, whose trees are the only ones written, is grown on exactly the features that weren't excluded, have a p value below it and a positive mean importance, with the number of candidates per split taken from how many those are.",
     [IN, CFG], "every table, target, number of forests and threads, exclusion, number of candidates and cutoff",
     "Existing tests don't perform this analysis.",
     ["growforest/growforest.go", "stats/stats.go", "featurematrix.go", "utils.go"],
     [("importances per forest", "growforest/growforest.go aceImps"), ("test", "stats/stats.go Ttest"), ("selection", "growforest/growforest.go cutoff"), ("contrasts", "featurematrix.go ContrastAll")],
     "runtime monitor: importances recalculated from recorded trees and data, and tested by the harness", COMMON + " p values are compared where the spread of the importances exceeds rounding.",
     hook="growforest/verif_hook.go records the data of every forest and each grown tree and its cases")

prop("C33", "Tools report inputs and outputs they can't read or write in full",
     "growforest, applyforest, leafcount, nfold and toafm only exit with status 0 if they could open and read to the end everything they were given and wrote everything they were asked for. They exit with another status if a data file, forest or blacklist is missing or can't be read, if a row of the data has another number of cells than the rest (as in a file that was cut off), stray quotes, or comes from a damaged zip file, if a forest is empty, starts with something else, has nodes outside of trees or damaged thresholds, weights or intercepts, if the target or the feature to balance by isn't in the data, no target value is known, or an expression or list of costs can't be parsed, and if any output can't be created or is cut off at any byte by a full disk or a limit on file sizes. The functions that write data (tables, arff, libsvm) and forests return an error if the writer fails at any byte, and reading a forest does if the reader fails.",
     [IN, CFG, FLT], "every input file, combination of outputs and formats, and every byte at which reading or writing fails",
     "Existing tests write to and read from memory, which doesn't fail.",
     ["growforest/growforest.go", "applyforest/applyforest.go", "leafcount/leafcount.go", "utils/nfold/main.go", "utils/toafm/main.go", "featurematrix.go", "arff.go", "libsvm.go", "forestreader.go", "forestwriter.go"],
     [("reading data", "featurematrix.go LoadAFM, ParseAFM, LoadCases"), ("reading forests", "forestreader.go ReadForest, ReadTree"), ("writing", "featurematrix.go WriteCases, arff.go WriteArffCases, libsvm.go WriteLibSvmCases, forestwriter.go"), ("outputs", "growforest/growforest.go, applyforest/applyforest.go, leafcount/leafcount.go, utils/nfold/main.go, utils/toafm/main.go")],
     "runtime monitor: faults injected into inputs and outputs of the tools and into readers and writers, exit status and errors checked", COMMON + " Errors that only appear when a file is closed are not injected.")
