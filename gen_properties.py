"""Writes properties.jsonl (kept as the readable source of that file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["src/diffpy/srmise/" + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))

NOTEST = "The stable tests only construct DataClusters and check the version; "

p("C01", "A saved extraction loads back as what was saved",
  "Saving a peak extraction (plain or PDF) to a .srmise file and loading it, into a new or an already used object, "
  "restores every extraction variable, the data, the initial peaks and the extracted model: parameters, functions and "
  "fixed/removable/static flags exactly, sampled numbers to six significant digits, and nothing of the loading object's "
  "earlier state remains. So does a model written by itself, and a PDF summary lists the extracted peaks, baseline, functions and settings as they are. This holds for every history of setting variables, fitting, extracting, estimating, adding peaks, "
  "saving and loading, whether variables are still unset, and however the disk splits the transfers. Saving does not change "
  "the object, and saving what was loaded gives the same content again apart from the header lines with time and user.",
  ["histories", "configurations", "fault_sequences"],
  "all operation histories on an extraction object interleaved with saves, loads into fresh or dirty objects, short and interrupted reads/writes, clock jumps and user changes",
  NOTEST + "no test saves or loads anything, and one sample could not cover the histories and configurations.",
  ["peakextraction.py", "pdfpeakextraction.py", "modelcluster.py", "basefunction.py", "modelparts.py", "peaks/base.py", "baselines/base.py"],
  [("serialisation", "PeakExtraction.writestr / ModelCluster.writestr / ModelPart.writestr / BaseFunction.writestr"),
   ("parsing", "PeakExtraction.readstr / ModelCluster.factory / BaseFunction.factory / Peak.factory / Baseline.factory"),
   ("PDF variables", "PDFPeakExtraction.writemetadata / readmetadata")],
  [("extraction variables", "what to extract and how", "PeakExtraction.extractvars, PDFPeakExtraction members"),
   ("extracted", "result model", "ModelCluster")],
  ["write/read round trip through the simulated disk", "attributes of the loaded object"])

p("C02", "A failed save is reported and costs nothing else",
  "When any step of saving a .srmise file, PDF summary, PDF data file, peak stability results, AIC table or trace fails - "
  "producing the content, opening, writing, flushing or closing - the call raises, the object in memory is unchanged, nothing is "
  "written to the file by the abandoned attempt after the call (unless an asynchronous interrupt struck right after opening), and repeating the save once the fault is gone produces the "
  "complete file. A save which returns normally has handed the complete content to the operating system. If the content cannot be "
  "produced or the file cannot be opened, a file saved earlier under that name is left intact.",
  ["fault_sequences", "crash_points", "histories"],
  "every kind of save, every position of ENOSPC/EIO/short write/interrupted call/open/close failure and serialisation failure, and every sequence of saves, failures and retries",
  NOTEST + "no test writes a file and none injects an I/O fault.",
  ["peakextraction.py", "pdfpeakextraction.py", "pdfdataset.py", "peakstability.py", "multimodelselection.py", "srmiselog.py"],
  [("writers", "PeakExtraction.write, PDFPeakExtraction.writepwa, PDFDataSet.write, PeakStability.save, MultimodelSelection.makeaics, TracePeaks.write")],
  [("file", "previous or new content", "file system")],
  ["exception of the call", "bytes on the simulated disk", "later writes by abandoned handles"])

p("C03", "Damaged or half-saved extraction files are reported, never misread",
  "Loading a .srmise or trace file which a crash, a full or failing disk, a lost, torn or zeroed block, missing or repeated "
  "lines or a flipped bit has damaged raises the documented file error (from a string, the data format error; the system's error "
  "if it cannot be read), or gives an object whose arrays have equal lengths. A file cut short anywhere is either reported, or - if only "
  "the end of its last number or white space is missing - loads like the original but for that number. After a failed load the "
  "extraction object is empty (as it was, if the file could not be read at all), and loading an intact file into it works as into a new object.",
  ["crash_points", "fault_sequences", "histories"],
  "every truncation point, every set of lost/torn/zeroed blocks of a save interrupted by a crash, line losses and duplications, bit flips, read errors, and the loads that follow",
  NOTEST + "the space of crash points and damages cannot be sampled by hand-written files, and there are none.",
  ["peakextraction.py", "pdfpeakextraction.py", "modelcluster.py", "basefunction.py", "srmiselog.py"],
  [("error conversion and cleanup", "PeakExtraction.read / readstr, TracePeaks.read / readstr"),
   ("consistency checks", "PeakExtraction._readstr, ModelCluster.factory")],
  [], ["exception type", "state of the loading object"])

p("C04", "PDF data files survive writing, reading, damage and read faults",
  "Writing PDF data to a file and reading it back restores the columns and parameters to six significant digits (qmax to two "
  "decimals), the scattering type and numeric metadata, whatever the clock, user or earlier content of the reading object, and "
  "reading what was read and written again changes nothing more. A file cut short gives an error or columns of equal lengths which "
  "are a prefix of the original rows (only the last one possibly damaged, uncertainties possibly dropped); other damage gives the documented error or columns of equal lengths. Files of bare columns or with headers as other programs "
  "write them give their columns and parameters, with no uncertainties if any of these is missing or not positive. Read errors "
  "reach the caller, loading a PDF or a baseline sequence never leaves its file open, and a peak extraction loaded from the file has exactly its columns and qmax.",
  ["histories", "fault_sequences", "crash_points"],
  "all data sets and histories of read/write/copy/load on PDF data, truncations and damages, EIO/short reads/crashed writes",
  NOTEST + "no test reads or writes PDF data.",
  ["pdfdataset.py", "pdfpeakextraction.py", "baselines/fromsequence.py"],
  [("PDF data I/O", "PDFDataSet.read/readStr/write/writeStr/copy"), ("loading", "PDFPeakExtraction.loadpdf"), ("sequences", "FromSequence.readxy")],
  [], ["attributes of the data set", "exceptions", "open handles on the simulated disk"])

p("C05", "A failing optimizer never corrupts a model or stops an extraction",
  "When the least-squares optimizer fails - raises, does not converge, reports success for a worse solution, or is stopped by an "
  "error in a model function during any evaluation - the fit reports no change and leaves peaks and baseline exactly as they were when the optimizer was called. "
  "A singular solution leaves the covariance undefined rather than stale; a defined one is symmetric and gives fixed parameters no uncertainty. An extraction or fit of a whole data set in which any number of optimizer calls fail "
  "still completes with a usable, position-sorted model of finite parameters on the full data range.",
  ["fault_sequences", "histories", "configurations"],
  "every subset of optimizer calls failing in every way, including in the middle of a residual or Jacobian evaluation, in every fit history",
  NOTEST + "nothing makes an optimizer call fail; failures depend on the call's place in a long nested computation.",
  ["modelparts.py", "modelcluster.py", "peakextraction.py", "pdfpeakextraction.py"],
  [("reverting fits", "ModelCluster.fit"), ("error conversion", "ModelParts.fit"), ("undefined covariance", "ModelCovariance")],
  [("model, baseline", "current peaks and baseline of a cluster", "ModelCluster")], ["peaks, baseline and covariance after each call"])

p("C06", "Fitting, pruning and augmenting never make a model worse",
  "Whatever optimizer calls inside them fail, stop early or go astray, fitting the peaks of a non-empty cluster, pruning them and augmenting "
  "them with those of another never leave a model which the model evaluator rates worse than the one before, and pruning never adds peaks. Once the optimizer works "
  "again, fitting data generated without noise by the model's own functions from nearby parameters recovers peaks and baseline. "
  "The evaluator reported by a successful fit is that of the model it leaves. "
  "However the extent of a cluster grows and shrinks, it is passed over as insignificant only while none of its points rises above its uncertainty.",
  ["fault_sequences", "histories", "configurations"],
  "every sequence of fit/prune/augment operations under every pattern of optimizer failures",
  NOTEST + "no test fits anything.",
  ["modelcluster.py", "modelparts.py", "peaks/gaussian.py", "peaks/gaussianoverr.py", "peaks/terminationripples.py", "baselines/polynomial.py", "baselines/nanospherical.py", "modelevaluators/aic.py", "modelevaluators/aicc.py"],
  [("accept or revert", "ModelCluster.fit, prune, augment"), ("comparison", "ModelEvaluator")],
  [], ["quality before and after each operation", "recovered parameters"])

p("C07", "Fixed parameters, protected peaks and static owners are preserved",
  "No history of fits, prunings, augmentations, extractions, saves and loads, with or without optimizer failures, changes a parameter marked as "
  "fixed (beyond rounding), removes or changes the flags of a peak marked as not removable, or changes the function of a part whose owner is static. "
  "Explicit requests to remove a protected peak or change a static owner are refused without any effect. "
  "Extractions keep such initial peaks, with their flags, in the extracted model.",
  ["histories", "fault_sequences", "configurations"],
  "every history of model-changing operations and every assignment of free/removable/static flags, with optimizer failures",
  NOTEST + "no test uses fixed parameters or protected peaks.",
  ["modelparts.py", "modelcluster.py", "peakextraction.py", "pdfpeakextraction.py", "peaks/base.py"],
  [("free mask", "ModelPart.update/compress"), ("removable checks", "ModelCluster.replacepeaks/deletepeak/cleanfit/prune"), ("static owner", "ModelPart.changeowner")],
  [], ["parameters and flags after each operation"])

p("C08", "An interrupted operation leaves its inputs intact and can be repeated",
  "If an extraction, fit, estimation or multi-model run of an extraction object is stopped at any instant by an interrupt, lack of memory or any other exception, the data, "
  "peak functions, baseline, initial peaks and other objects the user supplied are unchanged. Afterwards the same object, and any other object, "
  "gives the same result as if the stopped operation had never been started. "
  "Only complete results become visible: the object holds either a result with its type or none. "
  "Where an exception is taken for a failure of the optimizer, the result is another complete one; the peak an interrupted estimation was asked to add may have been added.",
  ["crash_points", "histories"],
  "every instant (executed line or optimizer evaluation) at which the exception strikes, every operation and every retry",
  NOTEST + "the number of instants in one extraction is in the hundred thousands.",
  ["peakextraction.py", "pdfpeakextraction.py", "modelcluster.py", "modelparts.py", "dataclusters.py", "peakstability.py"],
  [("private copies", "PeakExtraction.extract_single / fit_single"), ("late publication of results", "PDFPeakExtraction.extract / fit")],
  [], ["inputs and object state after the exception", "result of the retry"])

p("C09", "Concurrent use from several threads gives the serial results",
  "Threads of one process which extract, fit, estimate, evaluate, save and load through separate objects - sharing "
  "peak functions, baseline functions, evaluator classes and data arrays - each get exactly the results they get when running alone, "
  "under every interleaving. Shared functions and data arrays are not changed.",
  ["schedules", "configurations"],
  "every interleaving (switches between any two executed lines) of up to four caller threads",
  NOTEST + "no test uses threads, and a real scheduler neither explores nor repeats interleavings.",
  ["basefunction.py", "modelparts.py", "modelcluster.py", "peakextraction.py", "pdfpeakextraction.py", "dataclusters.py", "peaks/terminationripples.py", "peaks/gaussianoverr.py", "peaks/gaussian.py", "modelevaluators/aic.py", "srmiselog.py"],
  [("functions without mutable state", "BaseFunction subclasses"), ("per-object state", "PeakExtraction, ModelCluster, ModelEvaluator")],
  [], ["results per thread compared with a run alone"])

p("C10", "Results depend on the inputs only",
  "An extraction, fit or saved file depends only on data and extraction variables: not on hash seeds or object addresses, the clock, user, working directory, "
  "random generator state, number print options or floating-point error settings (short of raising) of the process, nor on what the process or the object computed before. "
  "Repeating an operation gives the same peaks in the same order, the same function indices and the same file content apart from the header lines with time and user.",
  ["configurations", "histories", "schedules"],
  "every ambient environment and every prior history of the process, including several peak functions",
  NOTEST + "hash order and memory layout vary between processes, which a test run cannot choose.",
  ["peakextraction.py", "pdfpeakextraction.py", "modelcluster.py", "basefunction.py", "dataclusters.py"],
  [("order-preserving collections", "PeakExtraction.writestr, ModelCluster.join_adjacent, BaseFunction.safefunctionlist")],
  [], ["digest of results and files per environment"])

p("C11", "Clustering covers every point exactly once, in any iteration history",
  "Whatever the history of stepping, abandoning, restarting, combining and querying a clustering, its clusters are non-empty, sorted, disjoint ranges of the data. "
  "It starts with the point of greatest value; each step takes the greatest value not yet in a cluster and assigns it, with any points between, to the nearest cluster if that is "
  "within the resolution, or else to a new one, reports that point and cluster, and reassigns no other points. Iteration ends with all points covered, after fewer steps than there are points; "
  "restarting repeats it identically. Nearest-cluster, adjacency, fullness, slice and boundary queries agree with the clusters, and neither they nor refused combinations change them; "
  "interrupted steps lose no points. In an extraction the models belong to exactly these clusters at every step.",
  ["histories", "crash_points", "configurations"],
  "every history of iteration, reset, new data, combination and queries on every data set, with interruptions",
  NOTEST + "they construct objects and reject bad arguments but never iterate.",
  ["dataclusters.py", "peakextraction.py"],
  [("iteration", "DataClusters.__iter__/__next__/makeclusters"), ("combination", "DataClusters.combine_clusters/find_adjacent_clusters"), ("queries", "DataClusters.find_nearest_cluster/find_nearest_cluster2/cut")],
  [], ["clusters after each operation against a reference model"])

p("C12", "Multi-model results stay complete, independent and correctly ranked",
  "After every history of running, saving, loading, testing, classifying, viewing and selecting models, each stored model remains what its "
  "own extraction with its uncertainty produced, and loading saved results or AICs restores them. "
  "Selecting, plotting or animating models or editing the currently selected one never changes stored results. "
  "For each tested uncertainty the probabilities of models and of classes are non-negative, sum to one and rank models as their AICs do, every model is in exactly one class, "
  "the reported best models and classes are those of greatest probability, and plots and animations of models and classes show just these probabilities and models.",
  ["histories", "configurations", "fault_sequences"],
  "every history of the multi-model operations with failures inside runs and saves",
  NOTEST + "no test touches the multi-model code.",
  ["peakstability.py", "multimodelselection.py", "modelevaluators/aic.py", "modelevaluators/aicc.py"],
  [("runs", "PeakStability.run"), ("selection", "PeakStability.setcurrent, MultimodelSelection.animate_*"), ("ranking", "MultimodelSelection.makeaics/makesortedprobs/classify")],
  [("results", "list of uncertainty, model, baseline, sampling", "PeakStability.results")], ["stored results, probabilities and ranking after each operation"])

p("C13", "Logging and tracing observe an extraction without affecting it",
  "Log levels, log files - even on a failing disk - and tracing with any filter do not change the result of an extraction or fit. "
  "Traces are numbered consecutively from zero for each top-level operation, carry their recursion level, and a trace written to a file reads back as the trace that was made; "
  "traces kept in memory do not change when the extraction goes on. Numbering and recursion level start afresh for "
  "the next operation even if a traced operation failed or a trace could not be written.",
  ["histories", "fault_sequences", "configurations"],
  "every logging/tracing configuration, every failure of the log or trace disk, every history of traced and failing operations",
  NOTEST + "no test traces or logs.",
  ["srmiselog.py", "peakextraction.py", "pdfpeakextraction.py", "modelcluster.py"],
  [("tracer", "TracePeaks"), ("logger", "srmiselog.setlevel/addfilelog/setfilelevel")],
  [("tracer state", "call, counter, recursion", "TracePeaks")], ["extraction results", "trace files and stored traces"])

p("C14", "The command line gives the API's results and saves what it can",
  "The srmise command with any combination of its documented options gives the same extraction, saved file and summary as the same settings made through the API, from a PDF "
  "or a saved .srmise file, and options left out keep the file's or the default values. "
  "If one of the requested outputs cannot be saved, the failure is reported and the other output and the printed result are still produced. "
  "Input which is neither readable as .srmise nor as PDF is reported as an error and produces no output file.",
  ["configurations", "fault_sequences", "histories"],
  "every option combination and every failing output, with chains of commands working on earlier outputs",
  NOTEST + "no test runs the command.",
  ["applications/extract.py", "peakextraction.py", "pdfpeakextraction.py"],
  [("option handling", "extract.main"), ("output handling", "extract.main (--save, --pwa)")],
  [], ["saved files, printed output and exit of the command"])

p("C15", "Copies and returned results are snapshots",
  "A copy of a model, peak, baseline, cluster or data set equals its original, and later operations on either - parameter changes, flags, fits, scaling, sorting, additions, "
  "removals, slices, failed or interrupted fits - never show in the other. "
  "A covariance, extracted model or loaded object once returned is not changed by later extractions, fits, saves, loads or variable changes of the object it came from. "
  "Joining or augmenting clusters leaves the other operands as they were.",
  ["histories", "fault_sequences"],
  "every history of copies and mutations over a pool of related objects, with optimizer failures and interrupts",
  NOTEST + "aliasing only shows in histories where two related objects are both used afterwards.",
  ["modelparts.py", "modelcluster.py", "pdfdataset.py", "peakextraction.py", "peaks/base.py", "baselines/base.py"],
  [("copies", "ModelParts.copy, ModelPart.copy, ModelCluster(copy), PDFDataSet.copy, ModelCovariance.setcovariance"), ("join", "ModelCluster.join_adjacent")],
  [], ["all objects of the pool against recorded snapshots"])

p("C16", "Extraction variables are as set or defaulted, and govern the whole extraction",
  "After any history of loading data, setting, clearing and defaulting extraction variables, estimates, fits and extractions (with failing optimizers, "
  "failing baseline estimates or interrupts), looks, saves and loads, every extraction variable of a plain or PDF extraction is what was last set or, if unset, "
  "the documented default for the present data and variables; partially given values (ranges with None, scalar uncertainties, baseline functions, automatic qmax) are "
  "completed likewise. A refused setting leaves all variables as they were; an interrupted one leaves each as before or as asked, and can be repeated. "
  "All clusterings, model comparisons and peak functions of an extraction, fit or estimate, at every level of recursion, are those its variables name, on data within its range, "
  "sampled and with uncertainties as qmax, nyquist, supersample and scale say.",
  ["histories", "fault_sequences", "configurations"],
  "every history of setting, clearing, failing and extracting; recursion levels depend on the data",
  NOTEST + "defaults depend on the order in which variables and data were set.",
  ["peakextraction.py", "pdfpeakextraction.py"],
  [("setting", "PeakExtraction.setvars, PDFPeakExtraction.setvars"), ("defaults", "PeakExtraction.defaultvars, PDFPeakExtraction.defaultvars"), ("recursion", "PeakExtraction.extract_single")],
  [("variables", "extraction variables", "PeakExtraction")], ["all variables after each operation", "evaluators, clusterings, functions and grids used"])

p("C17", "Looking at an object changes neither it nor what comes after",
  "Describing, writing, plotting, rating, evaluating, copying, converting, resampling and querying - including estimating a peak without adding it - leave extractions, models, "
  "parts, functions, covariances, PDF data and the arrays given as they were, whether the look ends, fails or is interrupted at any point, and give the same answer when repeated. "
  "A history of settings, fits, extractions and estimates gives the same results with any number of looks between its operations, and with looks at all clusters, parts and functions "
  "at any moment in the middle of an operation.",
  ["histories", "schedules", "crash_points", "fault_sequences"],
  "every history with any looks between and within its operations, and an interrupt at any line of a look",
  NOTEST + "whether a look disturbs depends on when it happens and on what is done later.",
  ["modelcluster.py", "modelparts.py", "basefunction.py", "peakextraction.py", "pdfpeakextraction.py", "peaks/gaussian.py", "peaks/gaussianoverr.py", "peaks/terminationripples.py", "baselines/polynomial.py", "modelevaluators/aic.py"],
  [("queries", "ModelCluster.quality/value/plottable/writestr, ModelPart.value/jacobian, BaseFunction.transform_parameters, PeakExtraction.estimate_peak(add=False), PDFPeakExtraction.resampledata")],
  [], ["all objects and given arrays before and after each look; results with and without looks"])

p("C18", "Plots and the plot command show the model chosen",
  "After any sequence of plots in one process - by the command, by makeplot with its options or by the plot methods, some of them interrupted, on unreadable files or unable to write - "
  "a figure shows the present data, fit, single peaks, residual, range, peak positions, distances to compare with, uncertainty and all results of a series, of the model chosen and nothing else, scaled as asked, "
  "within its panels and in the figure given. What is shown is not changed by showing it. "
  "The plot command shows extraction files and PeakStability files, of those the model asked for or else the first; it reports files which are neither, "
  "models it ignores, distances it cannot read and output it cannot write, and writes nothing but the output asked for, whole.",
  ["histories", "fault_sequences", "crash_points", "configurations"],
  "every sequence of plots, options, damaged files and faults; figures and module state persist between plots of a process",
  NOTEST + "what a figure shows can depend on what it showed before.",
  ["applications/plot.py", "peakstability.py", "modelcluster.py", "peakextraction.py"],
  [("figure", "plot.makeplot, plot.comparepositions, plot.dgseries, plot.on_draw"), ("command", "plot.main, plot.readcompare"), ("methods", "PeakStability.plot/plotseries/animate, PeakExtraction.plot, ModelCluster.plottable")],
  [("figures", "artists of the figures drawn", "matplotlib")], ["artists of each figure", "object shown before and after", "files before and after"])

PURE = "Pure function of its arguments."
p("N01", "Parameter formats convert into each other without loss",
  "Converting peak or baseline parameters between any two supported formats and back gives the original parameters, and all formats describe the same function.",
  ["inputs"], "all parameters and formats", PURE, ["peaks/gaussian.py", "peaks/gaussianoverr.py", "baselines/nanospherical.py"],
  [("transform_parameters", "each function class")])
p("N02", "Analytic derivatives agree with the functions",
  "The Jacobian of each peak and baseline function is the derivative of its value with respect to each free parameter.",
  ["inputs"], "all parameters and grids", PURE, ["peaks", "baselines"], [("_jacobianraw", "each function class")])
p("N03", "Resampling and termination ripples are band-limited and faithful",
  "Resampling a sufficiently sampled band-limited signal reproduces it, and termination ripples contain no frequencies above qmax.",
  ["inputs"], "all signals and grids", PURE, ["pdfpeakextraction.py", "peaks/terminationripples.py"], [("resample", "pdfpeakextraction.resample"), ("cut_freq", "TerminationRipples")])
p("N04", "Model evaluators compute their published formulas",
  "AIC, AICc, Akaike weights and probabilities and the required numbers of points follow their definitions for every chi-square, number of parameters and data points.",
  ["inputs"], "all statistics", PURE, ["modelevaluators"], [("evaluate", "AIC, AICc")])
p("N05", "Covariances propagate through parameter transformations",
  "Transforming a covariance matrix between parameter formats gives the matrix linear error propagation prescribes.",
  ["inputs"], "all matrices and formats", PURE, ["modelcluster.py"], [("transform", "ModelCovariance")])
p("N06", "Qmax determination and peak estimates are accurate",
  "The qmax determined from a PDF and the parameters estimated for an isolated peak or a baseline agree with those the data were generated with.",
  ["inputs"], "all generated data", PURE, ["pdfpeakextraction.py", "peaks", "baselines"], [("find_qmax", "pdfpeakextraction"), ("estimate_parameters", "each function class")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
