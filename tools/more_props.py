prop("C04", "Parallel conversion of images gives every image once, with its own label",
 "Converting a folder of grey images (one subfolder per class) to a data file in parallel gives a file with exactly one row per image, holding that image's pixels and its own class, whatever the schedule of the conversion's jobs, the order of the directory and the number of processors. When an image or the output cannot be opened, read, or written to the end, or an image is damaged (pixels missing, too many, not numbers or above the maximum, or a header cut off), the call fails loudly and never returns normally with rows missing, doubled or mixed up. The image files are left unchanged, no more of them are being read at once than there are processors, and no file stays open after success.",
 ["schedules", "fault_sequences", "inputs"], "every schedule of the reading and writing jobs, every set of images and classes, every disk fault at every operation",
 "No test converts images; rows lost or mixed between jobs need a particular schedule, and faults cannot be provoked from a test.",
 ["io/pgm.go", "io/input.go"], [("BufferedPGMFToData: jobs read the images, results are collected and written", "io/pgm.go")],
 ["the data file written", "the return of the call"],
 "A panic counts as failing loudly: it is how this code reports I/O errors. Rows may come in any order within what the folder determines.")

prop("C05", "Image jobs each write their own complete and correct result",
 "Completing images with several jobs writes, for each image and each half, one picture that shows the image's own given half and the most probable completion by the network learned without the image's class, exactly as with one job; no job's picture is lost, mixed with or overwritten by another's; a picture that cannot be written to the end is reported (a message naming the file, or a panic), and the other pictures stay complete. No more jobs run at once than were asked for, every job is finished when the call returns, and no file stays open. Splitting a dataset for classification trains on and tests every instance exactly once, and the counts reported are those of the predictions.",
 ["schedules", "inputs", "configurations", "fault_sequences"], "every schedule of the jobs, every dataset, number of jobs and processors, outcome of the random split",
 "The applications are not tested, and pictures written over each other need two jobs at the same point.",
 ["app/image.go", "io/pgm.go", "io/pbm.go", "io/images.go", "learn/dennis/dennis.go", "sys/rand.go"], [("ImgCompletion, ImgTestParallel: jobs started as goroutines and counted", "app/image.go"), ("ImgCmplToPGM, ImgCmplToPPM", "io/pgm.go"), ("ImgClassify", "app/image.go")],
 ["picture files", "reported counts"],
 "Half-image completions use stub networks with a known most probable completion; learned structures are run as well.")

prop("C09", "Weight learning is isolated, keeps distributions and changes only weights",
 "Networks whose weights are learned at the same time, from one dataset and with shared or default parameters, get the weights that learning each alone gives. Whatever the data (instances with missing values or labels, impossible instances), learning ends, leaves finite, non-negative weights that add up to one where normalisation is asked for, and changes nothing but weights: not the structure, the leaves, the dataset or the parameters. In every iteration every instance counts exactly once, at the weights in force when its batch starts, and the last, incomplete batch is applied too. Hard, soft, generative, discriminative, batched and plain updates all satisfy this. Normalising a network afterwards makes every weight non-negative and each sum's weights add up to one, in the same order, negative ones included; weights that are all equal become equal shares.",
 ["schedules", "inputs", "configurations", "histories"], "every interleaving of learners, every network, dataset, parameter setting and tie break",
 "The learning tests check fixed hand-made networks with one goroutine.",
 ["learn/generative.go", "learn/discriminative.go", "learn/derive.go", "learn/parameters/parameters.go", "spn/utils.go"],
 [("gradient and update passes over a per-call storer", "learn/*.go"), ("bound parameters", "learn/parameters/parameters.go")],
 ["weights, leaves, dataset and parameters after learning"],
 "Tie breaks draw from a shared generator, so equality with learning alone is judged with tie breaks pinned to one choice.")

prop("C16", "Most probable explanations are true maxima and break ties at random",
 "For any network and partial evidence, every function that answers with a most probable explanation gives one that keeps the evidence, gives every unobserved variable a possible value, and follows at every sum a branch that is really maximal, with the maximal value reported; this holds when several goroutines ask, share the random generator and draw other numbers at the same time. When several explanations are equally good, each of them is given some of the time.",
 ["inputs", "schedules", "histories"], "every network with and without ties, every evidence, every outcome of the random tie breaks and every interleaving of callers",
 "Ties are broken by an unseeded generator; the tests compare single fixed answers.",
 ["spn/utils.go", "spn/sum.go", "spn/product.go", "sys/rand.go"], [("StoreMAP / TraceMAP: top-down pass with random tie break", "spn/utils.go"), ("ArgMax", "spn/sum.go")],
 ["states and values returned"],
 "Explanations are judged against a dynamic-programming reference of the max-product network; fairness only asks that every tied choice comes up in 120 draws.")

prop("C17", "Every structure learner yields a valid network over its own data",
 "Whatever the data, settings and random choices, each structure learner ends and returns a network that is acyclic, complete and decomposable over exactly the dataset's variables, has no sum or product without children, and has finite non-negative weights and valid leaves. With nothing observed its probability is one once weights are normalised, and the dataset's own rows are not impossible under it. The dataset and its scope are unchanged afterwards, also when learners share them.",
 ["inputs", "configurations", "schedules", "histories"], "every small dataset and setting, every outcome of the random initialisations and every map order, learners sharing a dataset",
 "No test learns a structure; clusters that come out empty or single depend on random initialisation and on map order.",
 ["learn/gens/gens.go", "learn/dennis/dennis.go", "learn/dennis/graph.go", "learn/dennis/region.go", "learn/dennis/partition.go", "learn/dennis/scope.go", "learn/poon/poon.go", "utils/cluster/kmeans.go", "utils/cluster/dbscan.go", "utils/stats.go", "spn/gaussian.go"],
 [("region graphs and their translation", "learn/dennis"), ("regions by resolution", "learn/poon"), ("clustering and quantiles", "utils")],
 ["the returned network", "dataset and scope after the call"],
 "Rows impossible under discrete leaves are judged only where the learner smooths or uses gaussian leaves.")

prop("C18", "Converters and result files are complete, or the call fails loudly",
 "Converting images or ARFF files to data and evidence files, one after another, writes exactly the sources' pixels, values and labels in a form the matching parser reads back unchanged, in an order in which every row and label stays with its own source; saving a score writes the complete score. When a source or the output cannot be opened, read, written, synced or closed to the end, or a source is damaged (values or pixels missing or too many, values its declaration does not allow, a header cut off), the call fails loudly (an error or a panic) and never returns normally with something missing. Source files are unchanged and no file stays open after success.",
 ["fault_sequences", "inputs"], "every source content and directory order, every disk fault at every operation, all ways reads and writes come up short",
 "No test converts anything; the faults cannot be provoked from a unit test.",
 ["io/pgm.go", "io/pbm.go", "io/arff.go", "score/score.go"], [("PGMFToData, PBMFToData, PBMToData, PGMFToEvidence, PBMFToEvidence", "io/pgm.go, io/pbm.go"), ("ARFFToData", "io/arff.go"), ("Score.Save", "score/score.go")],
 ["files written", "what the parsers read back"],
 "A write acknowledged by the disk counts as written; the property does not ask for synced output.")

prop("C19", "Log messages are whole, once each, and stay in the log file in force",
 "Messages printed by any number of goroutines while output is enabled each appear exactly once, whole and in each goroutine's own order, in the log file set last (the standard output when none or an empty name is set), and none appear while it is disabled. Measured times are those that passed. Setting a log file that cannot be created reports the error and leaves the log file in force as it was.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of printing goroutines and every history of log-file changes, with every open failure",
 "No test prints or sets a log file.",
 ["sys/print.go", "sys/vars.go"], [("SetLogFile, Printf, Println", "sys/print.go")],
 ["contents of the log files"],
 "Time is simulated: it passes only when no goroutine can run.")

prop("C23", "Clustering ends and puts every instance in exactly one, fitting cluster",
 "Whatever the instances (repeated ones included), the random starting points and the order of maps, every clustering function ends and puts every instance in exactly one cluster under its own number and with its own values; k-means, k-modes and k-medoids give at most k clusters, and refuse loudly, rather than never end, when they cannot give k. Own k-means (OldKMeansF), k-modes (KMode, OldKMeans) and k-medoids end only when no instance is nearer to another cluster's mean, mode or medoid. Clustering by density (DBSCAN) gives the groups linked by pairs within reach of which one has at least the given number of others within reach, each other instance alone; OPTICS puts dense instances within reach of each other in one cluster, links every cluster through dense instances, and leaves only instances that are not dense in the first group, noise. The data are unchanged and any number of goroutines can cluster the same data at once.",
 ["inputs", "schedules", "histories", "configurations"], "every small dataset, number of clusters, reach and density, every outcome of the random starts, every map order, callers sharing the data and the generator",
 "No test clusters anything; which instances start a cluster is drawn at random, and lost instances, wrong centres and endless rounds show only for some draws and some repetitions in the data.",
 ["utils/cluster/kmeans.go", "utils/cluster/kmode.go", "utils/cluster/kmedoid.go", "utils/cluster/dbscan.go", "utils/cluster/optics.go", "utils/cluster/cluster.go", "utils/unionfind.go", "utils/cluster/metrics/euclid.go", "utils/cluster/metrics/hamming.go", "common/queue.go"],
 [("random starting instances, rounds until nothing changes", "utils/cluster/kmeans.go, kmode.go, kmedoid.go"), ("neighbourhoods merged by union-find", "utils/cluster/dbscan.go"), ("priority queue by reachability", "utils/cluster/optics.go")],
 ["the clusters returned", "the data after the call"],
 "Convergence of the k-means of the RenatoGeh/kmeans module is not claimed (it stops after 96 rounds); values are non-negative integers or finite numbers, the density at least one.", technique=RNG)

prop("C24", "Pictures and drawings hold every pixel, node and edge, or the failure is told",
 "Writing a state as a bitmap, grey or colour picture, or the given and the completed half of an image as a picture, gives a file that reads back as a picture of the right size with every pixel in its place, the halves told apart and the red line between them. Drawing a network for Graphviz or graph-tool, or printing it as text, gives a file with every node, edge and weight below the root, the leaves with their variable (drawings) or their distribution's mean and standard deviation (text). When the file cannot be created, written or closed to the end, the call panics or prints a message naming the file, and is never silent about a missing or cut-off file. States and networks are unchanged, writers of different files do not disturb each other, and no file stays open.",
 ["fault_sequences", "inputs", "schedules"], "every picture and network, every map order, every disk fault at every operation, every interleaving of writers",
 "The only test prints one network and does not look at it; the faults cannot be provoked from a unit test.",
 ["io/output.go", "io/pgm.go", "io/pbm.go", "io/ppm.go", "io/input.go", "spn/print.go", "common/color.go", "spn/multinom.go"],
 [("VarSetToPBM, VarSetToPGM, VarSetToPPM, ImgCmplToPPM, ImgCmplToPGM", "io/pbm.go, io/pgm.go, io/ppm.go"), ("DrawGraph, DrawGraphTools", "io/output.go"), ("PrintSPN", "spn/print.go")],
 ["files written", "messages and panics"],
 "Drawings are compared as trees, so that nodes drawn once or once per parent are both right. States cover the pixels 0..w*h-1.", technique=FLT)

prop("C25", "Independence graphs group exactly the variables that dependence links",
 "Both constructions of the independence graph put every variable in exactly one group, and two variables in the same group exactly when they are linked, directly or through others, by pairs that the G test at the given significance finds dependent, whatever the variables' numbers and the order of the columns. The columns are unchanged, and any number of goroutines can build graphs from the same columns at once and get the same groups.",
 ["inputs", "schedules", "configurations"], "every small set of columns in every order, every significance level, callers sharing the columns",
 "No test builds an independence graph; groups that are merged by several paths, or lose a variable, need particular chains of dependence and orders of columns, which come from map iteration.",
 ["utils/indep/indgraph.go", "utils/indep/gtest.go", "utils/indep/chisq.go", "utils/unionfind.go", "learn/variable.go"],
 [("NewIndepGraph, NewUFIndepGraph", "utils/indep/indgraph.go"), ("union-find", "utils/unionfind.go"), ("DataToVarData", "learn/variable.go")],
 ["groups of variables", "the columns after the call"],
 "Columns whose test is within 1e-9 of the significance level are not judged.", technique=RNG)

prop("C26", "Leaves are the distributions of what they are made from, ties broken at random",
 "A leaf made from probabilities, counts (smoothed by one per value), values or the one value it indicates, and the means and deviations of counts and of a column's parts, are those of what they are made from: its probabilities, mean and deviation, value and most probable value with its probability all agree. The most probable value of a discrete leaf is always one of the most probable ones, and when a leaf made from probabilities or from one variable's counts has several of them, each is chosen some of the time. Goroutines may make leaves from the same counts at the same time, sharing the random generator, and the counts are unchanged.",
 ["inputs", "schedules", "histories"], "every short list of counts, every outcome of the random choices, callers sharing counts and generator",
 "The tests make leaves from given probabilities only; the most probable value of a tie is drawn from a shared generator.",
 ["spn/multinom.go", "spn/gaussian.go", "utils/stats.go", "learn/variable.go", "sys/rand.go"],
 [("NewMultinomial, NewCountingMultinomial, NewScopedCountingMultinomial, NewEmptyMultinomial", "spn/multinom.go"), ("NewGaussian, NewGaussianMode, NewGaussianFit, NewGaussianRaw", "spn/gaussian.go"), ("Mean, StdDev, MuSigma, PartitionQuantiles", "utils/stats.go")],
 ["the leaves' probabilities, parameters, values and explanations"],
 "Counts are not all zero. Only NewMultinomial and NewCountingMultinomial choose among ties at random; fairness only asks that every tied value comes up in 120 draws.", technique=RNG)

na("C20", "Independence tests decide as their statistics define",
 "For any two discrete variables' counts, the chi-square and G tests report dependence exactly when the statistic exceeds the critical value for the degrees of freedom and significance given.",
 ["inputs"], "every contingency table and significance level",
 "The tests compare a few tables.",
 ["utils/indep/chisq.go", "utils/indep/gtest.go"], [("ChiSquareTest, GTest", "utils/indep")],
 "A pure function of its arguments: no schedule, clock, I/O, randomness or second party for a simulator to control. The G test's decisions are judged where learning and independence graphs use them (C03, C25).")

na("C21", "Log-space sums and products are numerically stable",
 "Adding and multiplying numbers in log-space gives the true result within rounding for every magnitude, including zero.",
 ["inputs"], "every list of log-space numbers",
 "The tests sum a few lists.",
 ["utils/log.go"], [("LogSum, LogSumExp, LogProd", "utils/log.go")],
 "A pure function of its arguments: nothing for deterministic simulation to schedule or fault. Observed only indirectly through C08's values.")

na("C22", "The generic containers keep their order and contents",
 "Queues and stacks give back what was put in, in the order their kind promises, for every sequence of operations by one goroutine.",
 ["histories"], "every sequence of operations",
 "The tests run one sequence each.",
 ["common/queue.go", "common/stack.go"], [("Queue, Stack", "common")],
 "Sequential data structures with no concurrency, time, I/O or randomness; generating operation sequences for them is plain property testing, not simulation.")
