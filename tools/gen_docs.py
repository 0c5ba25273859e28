#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []  # claimed properties
N = []  # properties that are not claimed

def prop(id, title, statement, over, quant, why, files, mech, observe, note, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, note=note, technique=technique))

def na(id, title, statement, over, quant, why, files, mech, reason):
    N.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=[], reason=reason))

SIM = "deterministic simulation: seeded schedules"
FLT = "deterministic simulation with fault injection"
RNG = "deterministic simulation: seeded schedules, random streams and map orders"

prop("C01", "The job queue bounds parallelism and runs every job exactly once",
 "For any number of goroutines submitting jobs to a queue of width n, at most n jobs run at the same time and n jobs really can; every submitted job runs exactly once with the identifier it was submitted with. Waiting on the queue returns only after every job submitted before it has finished, with the jobs' effects visible to the waiter, and the queue can be used again afterwards. No submitter or waiter is left blocked once the jobs that run can finish.",
 ["schedules", "histories", "configurations"], "every interleaving of submitters, jobs and waiters, every width (including the default of one job per processor) and every number of rounds",
 "No test touches the queue; a test run sees the one schedule the Go runtime happens to choose, and lost wake-ups, off-by-one slots or a job counted twice need a particular one.",
 ["conc/queue.go"], [("SingleQueue.Run / SingleQueue.Wait: condition variable and counters under one mutex", "conc/queue.go")],
 ["return of Run and Wait", "the jobs' own start and end"],
 "Seeded search over schedules; a second engine runs the same schedules under the race detector to judge visibility.")

prop("C02", "Every instance is scored exactly once, however the work is divided",
 "Evaluating a classifier over a dataset registers each instance exactly once, with its own label and with a class that is most probable under the network given the instance's other variables, for every number of concurrent jobs (none, one, more than there are instances or processors), exactly as the sequential evaluation does. Hits, misses, totals and the confusion matrix agree with each other; adding or merging scores gives the sum of their counts and changes none of the scores added, and a cleared score is empty. Evaluation never changes the dataset or the labels, and evaluations may share network and dataset.",
 ["schedules", "inputs", "configurations"], "every schedule of the evaluation's jobs, every network, dataset, label assignment, number of jobs and number of processors",
 "There is no test of the score package at all; how instances are divided and merged depends on instance count, job count, processor count and on the schedule of the jobs.",
 ["score/score.go", "data/manipulate.go", "conc/queue.go", "spn/utils.go"], [("EvaluatePosteriorConc divides rows over jobs and merges their scores under a mutex", "score/score.go"), ("Divide keeps instances and labels paired", "data/manipulate.go"), ("Score.Merge, Add", "score/score.go")],
 ["counts and confusion matrices returned to the caller"],
 "Reference model: brute-force evaluation of the generated network per class. Ties are accepted as any of the tied classes.")

prop("C03", "Concurrent structure learning gives the sequential network",
 "Learning a structure with several jobs gives, on the same data and random choices, the network that sequential learning gives, for every number of jobs and processors. Variables are split exactly into the groups that dependence (the G test at the given significance) does not link, and where it links all of them the instances are clustered. Every instance and every group of dependent variables ends up in the network exactly once: sums' weights are the exact shares of the instances, leaves are fitted to exactly the instances that reach them, and the network is complete, decomposable and normalised over exactly the dataset's variables. The dataset and its scope are left unchanged, and several learners may share them.",
 ["schedules", "inputs", "configurations"], "every schedule of the learner's jobs, every dataset, clustering, significance level and number of jobs",
 "No test learns a structure with more than one job; a child attached to the wrong parent, or attached twice, or lost, depends on which job finishes when.",
 ["learn/gens/gens.go", "conc/queue.go", "utils/indep/indgraph.go", "utils/cluster/kmeans.go", "utils/cluster/dbscan.go", "utils/cluster/cluster.go", "learn/variable.go"],
 [("LearnConcurrent / LearnGaussConcurrent: task queue with a mutex for attaching children", "learn/gens/gens.go"), ("independence graph and union-find", "utils/indep/indgraph.go"), ("clustering", "utils/cluster")],
 ["the returned network", "dataset and scope after the call"],
 "Oracle: structural validity, conservation of instance counts down to the leaves, equality with the sequential learner and with an executable model of it on the same per-task random stream (clusters are the repository's own, judged by C23). Data races are judged by the race detector on the simulated schedules.")

prop("C06", "The shared random generator behaves as one sequential generator",
 "Concurrent draws (integers, uniform and normal numbers, random combinations), reseeds and reads of the seed behave as if they happened one after another in some order consistent with real time: the values drawn are exactly the standard generator's stream for the current seed, no value is handed out twice or skipped, and a reseed takes effect as a whole. A random combination is a set of distinct cells of the grid of the requested size. A draw with an invalid bound fails without disturbing later draws.",
 ["schedules", "histories"], "every interleaving and history of draws, reseeds and seed reads by any number of goroutines",
 "The generator is not tested, and its unprotected use would show only under an interleaving inside the generator's own update.",
 ["sys/rand.go"], [("mutex around the package's generator", "sys/rand.go"), ("RefreshRandom replaces the generator", "sys/rand.go")],
 ["values returned by the draw functions"],
 "Linearizability against the standard generator; histories of at most nine calls.")

prop("C07", "Parameter bindings are atomic and one per node",
 "Binding, unbinding, looking up and reading the learning parameters of network nodes from several goroutines behaves as if the calls happened one after another: a node has at most one binding, a look-up returns the parameters most recently bound, and callers that find none all get one and the same object with the documented defaults. What a node itself reports as its parameters agrees with the binding, for every kind of node.",
 ["schedules", "histories"], "every interleaving and history of bind, unbind, exists, retrieve and read calls on any set of nodes",
 "The binding table is used by the learning tests from one goroutine only.",
 ["learn/parameters/parameters.go", "learn/bind.go", "spn/node.go"], [("bindings table under a read-write mutex", "learn/parameters/parameters.go"), ("Node.Parameters", "spn/node.go")],
 ["pointers returned by Retrieve, Exists and the nodes"],
 "Linearizability against a map of node to parameters.")

prop("C08", "Concurrent queries on a shared network are independent and exact",
 "Any number of goroutines may query one network at the same time: each query (value, stored values of every node, derivatives (soft, hard, and summed over a batch), most probable explanation and its value, traces, counts, scope, whether it is complete and decomposable, height, searches, dependency orders, marshalled copy) returns what the network's definition gives for it alone. Queries never change the network, the evidence given, or another goroutine's stored values. What is stored under one ticket does not show under another, and a ticket used again holds the new values. Partial, complete, empty and impossible evidence (values outside a variable's categories included) are all answered, and a single leaf is a network like any other.",
 ["schedules", "inputs"], "every interleaving of queries, every network (shared sub-networks, edges that skip levels, zero weights, gaussian leaves) and every evidence",
 "The tests query a few hand-made trees from one goroutine.",
 ["spn/utils.go", "spn/topo.go", "spn/sum.go", "spn/product.go", "spn/multinom.go", "spn/gaussian.go", "spn/indicator.go", "spn/node.go", "spn/storer.go", "spn/serial.go"],
 [("bottom-up and top-down passes over a per-call storer", "spn/utils.go"), ("topological sorts", "spn/topo.go"), ("per-node Value, Max, ArgMax", "spn/*.go")],
 ["returned values and states"],
 "Reference model: direct evaluation of the generated network. Numbers agree within 1e-9 relative.")

prop("C10", "Saving a network never destroys or damages what was saved",
 "When saving a network to a file reports success, loading the file gives the same distribution; when it reports an error, the process dies or power fails at any point of it, the file holds either the complete previous network or the complete new one, or is still absent if it never existed. A concurrent reader sees only complete networks, and concurrent savers leave one of the networks saved. A save that returns, with an error or not, leaves no other file behind and no file open.",
 ["crash_points", "fault_sequences", "schedules", "histories"], "every disk-operation at which the process can die or the disk can fail (errors, short writes, failing close, sync or rename), every set of unsynced effects lost at power failure, every interleaving of savers and readers",
 "No test saves a network; faults and crashes cannot be provoked from a unit test.",
 ["io/spn.go", "spn/serial.go"], [("SaveSPN writes a temporary file, syncs it and renames it", "io/spn.go"), ("Marshal", "spn/serial.go")],
 ["result of the save", "result of a later load"],
 "Disk model: in-memory file system with a durable and a volatile image. Power loss may undo an acknowledged save (the directory entry is not synced), never leave half a file.")

prop("C11", "Loading a network gives the saved network or an error",
 "Loading a network from a file gives exactly the distribution that was saved when the file is intact and readable. When the file is missing or cut off at any byte, or the disk fails or answers with short reads, the caller gets either the whole network or an error: never a crash, and never a network with nodes, edges or weights missing.",
 ["fault_sequences", "inputs", "crash_points"], "every network, every length to which the file can be cut, every read fault and every way reads can come up short",
 "No test loads a network.",
 ["io/spn.go", "spn/serial.go"], [("LoadSPN reads the whole file", "io/spn.go"), ("Unmarshal checks both streams", "spn/serial.go")],
 ["network and error returned"],
 "Corruption other than truncation (flipped bits) is outside the property: the format has no checksum.")

prop("C12", "A cached dataset is complete, and failed downloads leave no trace",
 "Asking for a published dataset returns the dataset as published, downloading it only when it is not cached; when the download or the disk fails at any point the caller is told (an error, or no data) and never gets part of a dataset. Whatever fails, and wherever the process dies, the cache file afterwards is absent, as it was, or complete, so that later calls never take a damaged file for the dataset. An existing file is overwritten only when asked to, and a download that fails leaves no other file behind.",
 ["fault_sequences", "crash_points", "histories"], "every network fault (refused, reset, error status, cut-off or slow body), every disk fault and crash point, over histories of calls",
 "The functions need the network; no test covers them, and the faults cannot be provoked from one.",
 ["io/http.go", "data/datasets.go", "io/input.go"], [("DownloadFromURL writes to a temporary file and renames it", "io/http.go"), ("getDataset, pullMNIST", "data/datasets.go")],
 ["returned dataset and error", "cache file"],
 "Network: a stub transport under the real http client, with planned replies.")

prop("C13", "Dataset files are read completely or not at all, and never changed",
 "Parsing a data, labelled-data, evidence or ARFF file gives every variable, instance and label in it, in order and with the right values. When the file cannot be opened or read to the end (read errors, short reads, overlong lines), or a row has a value missing or one that is not a number, the call fails loudly: it never returns part of the file as if it were all of it. Reading never changes the file and leaves no file open.",
 ["fault_sequences", "inputs", "schedules"], "every file content in the formats, every read fault and split of reads, concurrent readers of the same files",
 "The tests parse a few fixed files from a healthy disk.",
 ["io/input.go", "io/arff.go"], [("scanner loops and their error checks", "io/input.go"), ("ParseArff", "io/arff.go")],
 ["returned scope, data and labels", "file contents", "open files"],
 "A panic counts as failing loudly: it is how this code reports I/O errors.")

prop("C14", "An array reader hands out the file's instances in order, or an error",
 "Reading from a numpy array file hands out the array's rows in order, each once per pass, with every value and label as stored, whatever the integer type and byte order; a balanced read takes exactly the rows that keep the classes balanced. Asking for more than the file holds, from a file that was cut off, that cannot be read, or that does not hold a two-dimensional row-ordered integer array gives an error, never rows that are not in the file, and never an endless loop. A reset starts again from the first row, and no file stays open after an error on opening.",
 ["fault_sequences", "histories", "inputs"], "every array, every history of reads, balanced reads and resets, every cut-off point, every read fault and short read",
 "No test reads an array file.",
 ["io/npy.go"], [("NpyReader over npyio with exact reads", "io/npy.go")],
 ["rows, labels and errors returned"],
 "After a disk fault a panic of the array library is accepted as loud.")

prop("C15", "Rearranging a dataset keeps every instance, its values and its label",
 "Shuffling, partitioning at random (plainly, by labels, or a data file into training and test sets), splitting, dividing, joining, copying, merging labels, taking labels, classes or variables out, and turning a dataset into a matrix or columns and back keep every instance exactly once, with its own values and its own label, for every outcome of the random choices; parts have the sizes asked for, to within rounding, and classes keep their proportions exactly where that is possible. Except for the in-place shuffle, the given dataset is unchanged, results share no storage with it, and goroutines may work on one dataset at the same time. A partition made with a seed depends on the seed and not on earlier calls with other seeds.",
 ["histories", "inputs", "schedules"], "every sequence of operations, every outcome of the random generator (including extreme draws), every interleaving of goroutines sharing a dataset",
 "The random choices are unseeded, so a test sees one outcome; none of the functions is tested.",
 ["data/manipulate.go", "io/input.go", "learn/variable.go"], [("Partition, PartitionByLabels, Shuffle, Divide, Split, Join", "data/manipulate.go"), ("ParsePartitionedData", "io/input.go")],
 ["returned datasets and labels"],
 "Random draws come from the simulator, half of the runs with mostly extreme values.")

exec(open(os.path.join(ROOT, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "more_props.py")) else None

def line(p):
    return dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
        anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))

for p in P + N:
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in sorted(P + N, key=lambda p: p["id"]):
        f.write(json.dumps(line(p)) + "\n")

FAULTY = {"C04", "C05", "C10", "C11", "C12", "C13", "C14", "C18", "C19", "C20"}
RANDOM = {"C03", "C15", "C16", "C17", "C21"}
checks = []
for p in sorted(P, key=lambda p: p["id"]):
    checks.append(dict(property=p["id"], quick_cmd="bash run.sh check %s quick" % p["id"], thorough_cmd="bash run.sh check %s thorough" % p["id"],
        technique=p["technique"] or (FLT if p["id"] in FAULTY else RNG if p["id"] in RANDOM else SIM), level="exploration",
        level_note="Seeded search over simulated runs of the real code, one seed one execution, failures shrunk to a replay file. " + p["note"]))
m = dict(version=1, setup_cmd="bash run.sh setup", checks=checks,
    not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in sorted(N, key=lambda p: p["id"])],
    notes="No hooks in /repo: the checks copy /repo's working tree to a scratch directory, instrument the copy (scheduling points, seams for sync, rand, os, net, map order) and run it under the simulator. See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
