package main

// prop is how one property is run and reported.
type prop struct {
	quick, quickRace int
	thorough         float64 // seconds
	race             bool
	rule             string
	real, stub       []string
	assume           []string
}

var commonAssumptions = []string{
	"Preemption happens between statements and inside read-modify-write statements on shared memory; finer interleavings within one expression are covered only by the race detector's engine.",
	"The Go memory model's weaker behaviours are judged through the race detector (happens-before), not simulated.",
	"Exploration is seeded sampling, not exhaustive.",
}

var stubs = []string{
	"goroutine scheduling (seeded cooperative scheduler)", "sync (mutex, condition, wait group over that scheduler)",
	"runtime.NumCPU (knob)", "clock (testing/synctest bubble)", "math/rand global functions and sources (same streams, interruptible)",
	"map iteration order (seeded)",
}

var ioStubs = append([]string{"os, io/ioutil, path/filepath (in-memory disk with a durable and a volatile image and a fault plan)"}, stubs...)

var props = map[string]*prop{
	"C01": {quick: 200000, quickRace: 48000, race: true,
		rule: "A run draws a queue width (including the processor-count default), up to three rounds of up to three concurrent submitters with up to five jobs each, job lengths, rendezvous jobs and concurrent waiters, and a schedule; it is non-trivial when more jobs are submitted than the queue is wide, and distinct by workload and interleaving.",
		real: []string{"conc"}, stub: stubs},
	"C02": {quick: 40000, quickRace: 12000, race: true,
		rule: "A run draws a network, up to 23 rows (some partial, some without the class), labels, one or two concurrent evaluations (concurrent, sequential or MAP) with a number of jobs from none to more than the rows, the number of processors, and a schedule; it is non-trivial when there is more than one row, and distinct by workload and interleaving.",
		real: []string{"score", "conc", "data.Divide", "spn inference and MAP"}, stub: stubs},
	"C03": {quick: 75000, quickRace: 20000, race: true,
		rule: "A run draws up to 24 rows over up to five variables with dependent and independent columns, the clustering (k-means or density), test and leaf settings, the number of jobs and processors, one or two learners sharing the rows, the random numbers, the map order and a schedule; half of the runs are compared with the sequential learner and with a model of it on the same random numbers. It is non-trivial when the learned root has more than one child, and distinct by workload and interleaving.",
		real: []string{"learn/gens", "conc", "utils/indep", "utils/cluster", "spn", "RenatoGeh/kmeans", "muesli/clusters"}, stub: stubs},
	"C06": {quick: 200000, quickRace: 48000, race: true,
		rule: "A run draws a starting seed, two to four concurrent callers with up to three calls each (integer, uniform and normal draws, random combinations, reseeds, reads of the seed, draws with an invalid bound) and a schedule; it is non-trivial when there are more than two calls, and distinct by workload and interleaving.",
		real: []string{"sys"}, stub: stubs},
	"C07": {quick: 200000, quickRace: 48000, race: true,
		rule: "A run draws one to three nodes of any kind, two to four concurrent callers with up to four calls each (bind, unbind, exists, retrieve, read a node's parameters) and a schedule; it is non-trivial when there are more than two calls, and distinct by workload and interleaving.",
		real: []string{"learn/parameters", "spn"}, stub: stubs},
	"C08": {quick: 100000, quickRace: 24000, race: true,
		rule: "A run draws a network (shared sub-networks, edges that skip levels, zero weights, gaussian leaves), two to four concurrent callers with up to three queries each out of twenty-one kinds (values, stored values, most probable explanations, derivatives, traces, counts, scope, height, orders, searches, copies, tickets, histories of stored values; whether a second network, valid or not, is complete and decomposable), evidence that is sometimes shared between callers, map order, tie breaks and a schedule; every run is non-trivial whose network has a sum and whose callers overlap, and runs are distinct by workload and interleaving.",
		real: []string{"spn"}, stub: stubs},
	"C10": {quick: 180000, race: false,
		rule: "A run draws up to three networks and one or two files, a history of saves with disk faults (open, write, sync, close, rename and remove errors, short writes, full disk), crashes at a drawn disk operation, power losses that keep a drawn subset of the unsynced effects, and rounds of concurrent savers and readers; it is non-trivial when at least one network is saved, and distinct by workload, faults and interleaving.",
		real: []string{"io (SaveSPN, LoadSPN)", "spn (Marshal, Unmarshal)", "encoding/gob"}, stub: ioStubs},
	"C11": {quick: 180000, race: false,
		rule: "A run draws a network, one to three concurrent loads of its file, the length the file is cut to (often at the ends), read faults and the sizes short reads come up with; every run is non-trivial, distinct by network, cut, faults and interleaving.",
		real: []string{"io (LoadSPN)", "spn (Unmarshal)", "encoding/gob"}, stub: ioStubs},
	"C12": {quick: 320000, race: false,
		rule: "A run draws a history of up to four calls (downloads with and without overwriting, one or two at once, dataset requests), what the server answers (refusal, reset, error status, bodies cut off or in pieces), disk faults, and a crash or power loss at a drawn disk operation; every run is non-trivial, distinct by history, faults and interleaving.",
		real: []string{"io (DownloadFromURL, ParseData)", "data (dataset functions)", "net/http client"}, stub: append([]string{"network (http transport with planned replies)"}, ioStubs...)},
	"C13": {quick: 320000, race: false,
		rule: "A run draws up to three concurrent reads of generated data, labelled data, evidence, ARFF or plain files (some with lines longer than the scanner's limit), read faults and the sizes short reads come up with; every run is non-trivial, distinct by files, faults and interleaving.",
		real: []string{"io (ParseData, ParseDataNL, ParseEvidence, ParseArff, ReadFromFile)"}, stub: ioStubs},
	"C14": {quick: 320000, race: false,
		rule: "A run draws up to two array files (integer types, byte orders, shapes; some not datasets, some cut off), one or two concurrent readers with a history of up to six reads, balanced reads and resets each, and read faults; every run is non-trivial, distinct by files, history and faults.",
		real: []string{"io (NpyReader)", "sbinet/npyio"}, stub: ioStubs},
	"C15": {quick: 60000, quickRace: 16000, race: true,
		rule: "A run draws a labelled dataset, one to three concurrent callers with up to four operations each out of eleven kinds, the random draws (half of the runs mostly extreme ones) and a schedule, or a data file and a partition of it; it is non-trivial with more than one instance, and distinct by workload and interleaving.",
		real: []string{"data (dataset operations)", "io (ParsePartitionedData)"}, stub: ioStubs},
	"C09": {quick: 30000, quickRace: 8000, race: true,
		rule: "A run draws two or three concurrent learners (generative or discriminative gradient descent, soft or hard, batched or not, with and without normalisation, with default parameters or ones shared between them), their networks, one shared dataset with missing values, random numbers, map order and a schedule; runs whose tie breaks are fixed are compared with each learner working alone. It is non-trivial when weights changed, and distinct by workload and interleaving.",
		real: []string{"learn (generative and discriminative)", "learn/parameters", "spn", "sys"}, stub: stubs},
	"C16": {quick: 90000, quickRace: 24000, race: true,
		rule: "A run draws a network with ties, up to three concurrent callers with partial evidence, random numbers, map order and a schedule, or a tie of known width asked often enough to judge its fairness; it is non-trivial when the network has ties, and distinct by workload and interleaving.",
		real: []string{"spn (most probable explanations)", "sys"}, stub: stubs},
	"C17": {quick: 90000, quickRace: 24000, race: true,
		rule: "A run draws a learner (clustered variables, regions of images, images by resolution), its dataset and settings, one or two learners sharing it, random numbers, map order and a schedule; it is non-trivial when the learned structure has more than one child or region, and distinct by workload and interleaving.",
		real: []string{"learn/gens", "learn/dennis", "learn/poon", "utils/cluster", "spn", "sys", "RenatoGeh/kmeans", "muesli/clusters"}, stub: ioStubs},
	"C04": {quick: 90000, quickRace: 24000, race: true,
		rule: "A run draws up to eight grey images of several classes (some unreadable), the number of image jobs, the number of processors, disk faults (open, read, write, sync and close errors, full disk, short reads and writes) and a schedule of the conversion's jobs; it is non-trivial with more than one image, and distinct by workload, faults and interleaving.",
		real: []string{"io (BufferedPGMFToData, ParseDataNL)"}, stub: ioStubs},
	"C18": {quick: 320000, race: false,
		rule: "A run draws a converter, its source images or ARFF file (or a score to save), disk faults (open, read, write, sync, close errors, full disk, short reads and writes) and directory order; it is non-trivial with more than one image or row, and distinct by workload and faults.",
		real: []string{"io (image and ARFF converters, parsers)", "score (Save)"}, stub: ioStubs},
	"C05": {quick: 60000, quickRace: 16000, race: true,
		rule: "A run draws an image dataset, the application (half-image completion with many jobs, completion with learned structures, classification), the number of jobs and processors, training proportion, random numbers, map order, faults of the disk the pictures are written to and a schedule; it is non-trivial when there is more than one instance to work on, and distinct by workload and interleaving.",
		real: []string{"app", "learn/dennis", "learn (weights)", "io (parsers, image files)", "spn", "sys", "utils/cluster"}, stub: ioStubs},
	"C19": {quick: 90000, quickRace: 24000, race: true,
		rule: "A run draws up to four rounds, each of which may change the log file (to one that cannot be created, too) with open faults, then has up to three goroutines print up to four messages each at the same time; it is non-trivial when goroutines print to a file at once, and distinct by workload and interleaving.",
		real: []string{"sys (log and timers)"}, stub: ioStubs},
	"C23": {quick: 140000, quickRace: 12000, race: true,
		rule: "A run draws up to 12 (now and then 72) rows over up to four columns with repeated rows, one or two concurrent callers sharing them, each with one of fifteen clustering functions, a number of clusters (now and then more than there are instances), reach and density, the random numbers, the map order and a schedule; it is non-trivial when there is more than one cluster, and distinct by workload and interleaving.",
		real: []string{"utils/cluster", "utils (union-find)", "common (queue)", "learn (DataToMatrix)", "sys (random)", "RenatoGeh/kmeans", "muesli/clusters"}, stub: stubs},
	"C24": {quick: 120000, quickRace: 16000, race: true,
		rule: "A run draws one to three concurrent writers, each of a picture (bitmap, grey or colour state, completion by halves, now and then larger than a write buffer) or of a drawing of a network (Graphviz, graph-tool, text), over a file that sometimes exists, and disk faults (open, write and close errors, short writes); it is non-trivial when a file is written without a failure being told, and distinct by workload, faults and interleaving.",
		real: []string{"io (VarSetTo*, ImgCmplTo*, DrawGraph, DrawGraphTools)", "spn (PrintSPN)", "common (colours, queue)"}, stub: ioStubs},
	"C25": {quick: 90000, quickRace: 20000, race: true,
		rule: "A run draws up to fifteen columns of up to 40 values, copied from each other with more or less noise, their numbers and order, the significance level, and one to three concurrent constructions of the graph from the same columns by either function; it is non-trivial with more than one variable, and distinct by workload and interleaving.",
		real: []string{"utils/indep", "utils (union-find)", "learn (DataToVarData)", "sys (printing)"}, stub: stubs},
	"C26": {quick: 120000, quickRace: 24000, race: true,
		rule: "A run draws two lists of counts, one to three concurrent callers that make up to four leaves or statistics each out of ten kinds from the same lists, and a seed of the shared generator, or a tie of known width asked often enough to judge its fairness; every run is non-trivial, distinct by workload and interleaving.",
		real: []string{"spn (leaves)", "utils (statistics)", "learn (ExtractInstance)", "sys", "gonum distuv"}, stub: stubs},
}
