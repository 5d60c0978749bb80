#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

ELM, HP, SL, SP = "hpelm/elm.py", "hpelm/hp_elm.py", "hpelm/nnets/slfn.py", "hpelm/nnets/slfn_python.py"
H5, MR, MR2, RB = "hpelm/modules/hdf5_tools.py", "hpelm/modules/mrsr.py", "hpelm/modules/mrsr2.py", "hpelm/modules/rbf_param.py"
V, CV, LOO = "hpelm/mss_v.py", "hpelm/mss_cv.py", "hpelm/mss_loo.py"

p("C01", "Accumulated training state depends only on the rows fed since the reset",
  "After any history of add-data and train calls, the accumulated matrices equal the sum over the rows fed since the last reset, each row exactly once and with its class weight, plus the L2 norm on the diagonal exactly once. The result does not depend on how rows are split into batches or calls, on their order, on a sample range being given as istart/icount, or on whether the data come from an array or an HDF5 file.",
  ["histories", "inputs", "configurations"],
  "every sequence of add_data/train/reset calls, batch size, row range, data source and solver, up to floating-point rounding",
  "Tests make at most two add_data calls on 3-6 rows and only assert that nothing raises; no test compares accumulated matrices across splits, ranges or sources.",
  [ELM, HP, SL, SP],
  [("batch split", "ELM.add_data"), ("row range loop", "HPELM.add_data"), ("rank-k update", "SLFNPython.add_batch, SLFN.add_batch"), ("reset", "SLFN.reset")],
  ["nnet.get_corr() after every call"], [("HH", "sum of w*h*h^T plus norm*I", "SLFN.HH"), ("HT", "sum of w*h*t^T", "SLFN.HT")])

p("C02", "Solved output weights are the ridge solution of the accumulated data",
  "Whenever a model is solved (by train, by solving accumulated data, or from stored or explicitly set matrices) its output weights B satisfy HH*B = HT for exactly those matrices, the norm included, with every solver and also when HH is rank deficient. Predictions are the hidden-layer representation of the input multiplied by B.",
  ["inputs", "histories", "configurations"],
  "every accumulated state, solver (default, basic), route to a solution, and full-rank or singular HH",
  "Tests check that B exists or that errors are below loose thresholds; a wrong but plausible B, or the rarely taken rank-deficient route, passes them.",
  [SL, SP, ELM, HP],
  [("Cholesky with SVD fallback", "SLFNPython.solve_corr"), ("pseudo-inverse", "SLFN.solve_corr"), ("stored matrices", "HPELM.solve_corr, SLFN.set_corr"), ("prediction", "SLFN._predict")],
  ["nnet.get_B()", "nnet.get_corr()", "predict()"], [("B", "output weights", "SLFN.B")])

p("C03", "Solutions and accumulated data never outlive what they were computed for",
  "Adding neurons discards the solution and the accumulated data; reset discards only the accumulated data, and a trained model keeps predicting; train starts from scratch, so its result does not depend on anything trained, accumulated or configured for classification before. Predicting without a solution, training without neurons and solving without data are refused, and a refused call changes neither the neurons nor an existing solution.",
  ["histories"],
  "every history of add_neurons, add_data, reset, solve, set_B/set_corr, train, predict, load on one or several models",
  "Each test builds a fresh model and calls one or two methods; nothing exercises histories in which an earlier state could leak into a later result.",
  [ELM, HP, SL, SP],
  [("invalidate on new neurons", "SLFN.add_neurons"), ("reset", "SLFN.reset"), ("train from scratch", "ELM._train_parse_args"), ("guards", "SLFN._predict, HPELM.predict, ELM._train_parse_args")],
  ["nnet.get_neurons()/get_corr()/get_B() after every call", "exceptions"], [("neurons", "hidden neurons by type", "SLFN.neurons"), ("L", "number of neurons", "SLFN.L")])

p("C04", "The hidden layer is every neuron's own function, in a stable column order",
  "Projecting N samples gives N rows and one column per neuron: types in order of first addition, neurons of one type in order of addition, each column being that neuron's documented function (lin, sigm, tanh, rbf_l1/l2/linf, or a given numpy ufunc) of its own weights and bias. Explicit weights are used as given; without weights, linear neurons copy the leading inputs with zero bias and are limited to the number of inputs, and RBF widths are positive.",
  ["inputs", "histories"],
  "every sequence of add_neurons calls with any mixture of types, explicit or default weights, any number of inputs, and any data",
  "Tests check types and counts, and one projection of one tanh neuron; order after merging, RBF metrics and custom functions are never evaluated.",
  [SL, ELM],
  [("transformation functions", "SLFN.func"), ("merging by type", "SLFN.add_neurons"), ("projection", "SLFN._project"), ("default weights", "ELM.add_neurons")],
  ["project()", "nnet.get_neurons()"], [("neurons", "list of (count, type, W, B)", "SLFN.neurons")])

p("C05", "Prediction and projection over a row range map row i to output row i-istart",
  "HPELM predict and project with istart and icount produce exactly min(icount, N-istart) output rows, where output row r is the result for input row istart+r, for every batch size. Returned arrays, caller-supplied arrays and HDF5 output files all receive the same rows, and HPELM gives the same values as ELM on the same model.",
  ["inputs", "configurations"],
  "every N, batch, istart < N, icount, input source and output destination",
  "Tests call predict and project once with the defaults (one batch, istart=0) and check only that a file was written.",
  [HP, ELM],
  [("range clamp and batch loop", "HPELM.predict, HPELM.project"), ("output file", "make_hdf5 shape tuple"), ("caller array", "HPELM.predict fY, HPELM.project fH")],
  ["returned arrays, caller arrays and output HDF5 files"])

p("C06", "error() is the documented measure, for every mode, batch size and range",
  "error() returns the mean squared error for regression, the fraction of rows whose arg-max class is wrong for 'c', the class-weighted mean of per-class error rates (sum of w*e over sum of w; a class without samples contributes zero) for 'wc', and the fraction of label entries on the wrong side of 0.5 for 'ml'. ELM and HPELM agree, and HPELM's value is that of the selected rows [istart, istart+icount) whatever the batch size.",
  ["inputs", "configurations"],
  "every T and Y, mode, weights, batch size, row range and data source",
  "One example per mode with three rows in one batch; batch boundaries, uneven last batches, ranges and missing classes are never tried.",
  [ELM, HP], [("in-memory error", "ELM._error"), ("batched error", "HPELM._error")], ["return value of error()"])

p("C07", "The confusion matrix counts every sample exactly once",
  "For 'c' and 'wc', entry (i,j) of confusion() is the number of samples whose true arg-max class is i and predicted arg-max class is j; for 'ml' it is the number of samples having true label i and predicted label j (above 0.5). The result does not depend on the batch size, and regression models are refused.",
  ["inputs", "configurations"],
  "every T, Y, number of classes, batch size and mode, for ELM and HPELM, arrays and HDF5 files",
  "Two 4-row examples with exact values in one batch; the multi-batch tests only check that the sum is positive.",
  [ELM], [("batched counting", "ELM.confusion")], ["return value of confusion()"])

p("C08", "A saved model loads as the same model, whatever the loading object held before",
  "Saving (to file or bytes) and loading in any model object, at any point of any history, restores inputs, outputs, all neurons with their weights, output weights, norm, classification mode and class weights, so that projections and predictions are the same. The loading object keeps its own precision, batch size and solver, keeps nothing else of its former content, and can be trained further; saving never changes the saved model.",
  ["histories", "configurations"],
  "every model state (empty, with neurons, trained, pruned, loaded), every receiving object (other sizes, already trained, other precision or solver), file and bytes",
  "One test saves one trained model and loads it in a fresh default object; none loads over existing content, in another solver, or continues training.",
  [ELM, SL],
  [("snapshot", "ELM._get_output_format"), ("restore", "ELM._update_from_output"), ("file and bytes", "ELM.save/load/dumps/loads")],
  ["observable model state after load", "predict() of both models"])

p("C09", "Parallel accumulation into shared files loses and duplicates nothing",
  "When any number of processes accumulate parts of the data into the same HH and HT files, starting with or without existing files, then under every interleaving all calls succeed and afterwards both files contain the contribution of every call exactly once, on top of what was there, with the norm included exactly once. No interleaving deadlocks.",
  ["schedules"],
  "every interleaving of the file operations of any number of add_data calls on the same pair of files, with the files initially present or absent",
  "The only 'parallel' test runs two add_data calls one after the other in one process.",
  [H5, HP],
  [("inter-process lock around read-modify-write", "_write_fHH"), ("creation of the files", "_prepare_fHH"), ("norm subtraction", "HPELM.add_data")],
  ["contents of the HH and HT files", "lock files", "exceptions"],
  [("fHH/fHT", "matrices on disk", "_prepare_fHH, _write_fHH")], None)

p("C10", "A contributor killed or failing at any point cannot harm the others",
  "If a process accumulating into shared HH and HT files is killed or fails before or after any of its file operations, the locks it held are released, the other processes complete, and in the end both files contain every completed contribution exactly once. The interrupted contribution is contained entirely or not at all, and in both files or in neither.",
  ["crash_points", "schedules"],
  "every point at which an accumulating process can be killed or a file operation can fail, combined with other contributors before, during and after",
  "No test interrupts anything.",
  [H5, HP],
  [("kernel-released lock", "fasteners.InterProcessLock in _write_fHH"), ("write after compute", "HPELM.add_data"), ("re-use of existing files", "_prepare_fHH")],
  ["contents of the HH and HT files after a kill", "progress of the other processes"])

p("C11", "Asynchronous I/O gives the synchronous result and terminates, also on faults",
  "train_async, add_data_async and predict_async process every row of the selected range exactly once and in order, giving the same model or output file as their synchronous versions for every batch size and range, under every interleaving with the reader and writer processes. They terminate without deadlock, leave no process behind, and never hold more than a few batches in flight. When a reader or writer process dies or its reading or writing fails, or a step of the main process fails, the call raises instead of hanging or returning an incomplete result, leaves no process behind, and changes neither the solution nor matrices accumulated on disk before.",
  ["schedules", "crash_points", "configurations", "inputs"],
  "every interleaving of main, reader and writer steps, every point of failure of one of the processes, N, batch, istart, icount, and 'wc' or not",
  "Tests call each once on 3-6 rows in one batch and check nothing of the result.",
  [HP, H5],
  [("prefetch loop and termination request", "HPELM.add_data_async, HPELM.predict_async"), ("bounded queues", "mp.Queue(1)"), ("reader and writer", "_ireader, _iwriter"), ("output flushed before return", "writer.join()")],
  ["order of queue operations, reads and writes", "resulting matrices, predictions and files", "termination, also after a failure"])

p("C12", "Structure selection returns a subset of the neurons, trained on all the data",
  "After training with 'V', 'CV' or 'LOO', with or without 'OP', the model consists of a non-empty selection of its former neurons with unchanged types, weights and biases, never more than kmax of them when kmax is given with 'OP'. Its output weights are those that training exactly these neurons on the whole training set gives, class weights included.",
  ["inputs", "configurations"],
  "every data set, neuron mixture, selection method, ranking, kmax and classification mode",
  "Tests compare error thresholds averaged over benchmark data; which neurons survive and whether the final weights match them is not examined.",
  [V, CV, LOO, ELM, SL],
  [("selection of neurons", "SLFN._prune"), ("final training", "train_v, train_cv, train_loo"), ("limit", "ELM._ranking kmax_op")],
  ["nnet.get_neurons()", "nnet.get_B()"])

p("C13", "Structure selection decides by the held-out criterion",
  "The number of neurons is chosen by an interval search for the smallest held-out error plus a 1% complexity penalty: error on the given validation set for 'V' (trained on the training set only), leave-one-out (PRESS) error for 'LOO', mean validation error over the folds for 'CV'; the chosen model is never worse by this criterion than the largest allowed candidate. 'CV' returns the mean error of the chosen neurons on the test parts when trained on the remaining training parts only.",
  ["inputs", "configurations"],
  "every error curve over the number of neurons, every ranking, kmax and classification mode",
  "Tests only check that errors on benchmark data stay below a threshold or that more than one neuron can be selected.",
  [V, CV, LOO, ELM],
  [("interval halving", "train_v, train_cv, train_loo"), ("penalty", "train_v, train_cv, train_loo"), ("PRESS", "train_loo, ELM._error"), ("folds", "train_cv")],
  ["number and identity of selected neurons", "return value of train(..., 'CV')"])

p("C14", "Feature ranking returns distinct best-first features",
  "mrsr and mrsr2 return min(kmax, number of features) distinct valid feature indexes, starting with the feature most correlated with the targets; a smaller kmax gives a prefix of the ranking for a larger one. Features are added in the order of the least-angle path: the estimation moves towards the least-squares estimation of the chosen features until another feature is equally correlated with the residual, which is the next one; so mutually orthogonal features come by decreasing correlation. Duplicated features do not break the ranking, and the given matrices are not modified.",
  ["inputs"],
  "every feature and target matrix with at least as many samples as features, any number of targets, any kmax including 1 and one single feature",
  "Two smoke tests run 'LOO'+'OP' once and check nothing of the ranking.",
  [MR, MR2, ELM],
  [("LARS-type selection", "mrsr"), ("linear-cost variant", "mrsr2"), ("dispatch by outputs", "ELM._ranking")],
  ["return values of mrsr and mrsr2"])

p("C15", "Class weights act as sample weights",
  "In weighted classification every training sample counts with the weight of its class: accumulated matrices and solution equal those of a training set in which the samples of class c are repeated w[c] times. When no weights are given, the weight of a class is the number of samples used for training divided by the number of samples of that class within the selected range, whatever the batch size.",
  ["inputs", "configurations"],
  "every one-hot training set, weight vector, batch size, row range and route (ELM, HPELM, asynchronous, structure selection)",
  "One test uses weights (1, 0.1) on six rows and compares two outputs; automatic weights are only run, and never in several batches or ranges.",
  [ELM, HP, SL, SP, V, CV, LOO],
  [("automatic weights", "ELM.add_data, HPELM.add_data, HPELM.add_data_async"), ("weights by sample", "add_data"), ("square-root scaling", "SLFN.add_batch, SLFNPython.add_batch")],
  ["nnet.get_corr()", "model.wc"])

p("C16", "make_hdf5 stores exactly the given matrix",
  "make_hdf5 creates a file holding one two-dimensional array equal, row by row and column by column, to the given data: an array, a .npy file, a .txt/.csv file or a .gz/.bz2 compressed text file with the given delimiter after skipping skiprows lines; one-dimensional data become one column, and a shape tuple gives an array of zeros of that shape. The element type is the requested one, and compression never changes the contents.",
  ["inputs", "configurations"],
  "every matrix shape (one row, one column, many rows), source kind, delimiter, skiprows, dtype and compression level",
  "Tests only pass small arrays with default settings; text, compressed, npy and skiprows routes are never run.",
  [H5], [("source dispatch", "make_hdf5"), ("iterative text loader", "make_hdf5 fill='iter'")], ["contents, shape and dtype of the created file"])

p("C17", "normalize_hdf5 normalizes a file exactly once",
  "The first call without parameters leaves every column with zero mean and unit standard deviation (constant columns become zero) and returns the mean and standard deviation of the original data; further calls without parameters return the same statistics and leave the data unchanged. With explicit mean and std exactly (x-mean)/std is applied, a zero std counting as one; the result does not depend on the batch size and the caller's vectors are not modified.",
  ["inputs", "histories", "configurations"],
  "every file of floating-point numbers, batch size and history of normalize_hdf5 calls with and without parameters",
  "No test calls normalize_hdf5.",
  [H5], [("normalized marker", "normalize_hdf5 node.attrs"), ("batched statistics", "normalize_hdf5")], ["file contents", "return values"])

p("C18", "validation_corr reports true errors and keeps the best size",
  "validation_corr returns strictly increasing candidate sizes within the number of neurons, the last being all of them (or exactly the given vector of sizes), and for each size the validation error and, for classification, the confusion matrix of the model made of the first that many neurons solved from the stored matrices, whatever the batch size. The model is left with the first size of lowest reported error, its neurons a prefix of the former ones and its output weights the corresponding solution.",
  ["inputs", "configurations"],
  "every pair of stored matrices, validation set, steps (a number of at least two, or a vector), batch size, number of neurons and classification mode",
  "Two tests check that the first error exceeds the last and that a confusion matrix is non-zero.",
  [HP, ELM], [("candidate sizes", "HPELM.validation_corr"), ("batched errors", "HPELM.validation_corr"), ("selection", "SLFN._prune, SLFN.set_B")],
  ["return values and resulting model"])

p("C19", "Malformed data are refused; equivalent data forms give the same result",
  "Training, predicting, projecting and evaluating with data of the wrong number of columns or dimensions, of unequal numbers of rows, of non-numeric type, or from an unreadable or missing file raise an error and never produce a result or alter neurons or solution. Equivalent forms (one-dimensional for a single column, integer, boolean, single or double precision, any memory layout, array or HDF5 file) give the same result, as do upper and lower case mode names.",
  ["inputs", "histories"],
  "every shape, dtype, memory layout and source accepted or refused, at any point of a history",
  "Tests cover one example of each refusal on a fresh untrained model and never compare equivalent forms.",
  [ELM, HP, SL], [("checks", "ELM._checkdata"), ("mode parsing", "ELM._train_parse_args"), ("matrix checks", "HPELM._checkcorr, SLFN.set_B, SLFN.set_corr")],
  ["exceptions", "observable model state after a refused call"])

p("C20", "Caller data are never modified and models share no state",
  "No operation changes the arrays or input files passed to it, and a model keeps no live reference to arrays passed as data, weights or biases: changing them afterwards does not change the model. Operations on one model never change another one, also when one was loaded from the other.",
  ["histories", "inputs"],
  "every operation, argument dtype and memory layout, every history over several models",
  "No test looks at its inputs after a call, or keeps two models alive.",
  [ELM, HP, SL, SP], [("copies on entry", "ELM.add_neurons astype, SLFN.add_batch T.astype, SLFN.set_B/set_corr astype"), ("independent snapshot", "ELM.save/dumps")],
  ["input arrays and files after each call", "state of all models after each call"])

p("C21", "Accumulating to disk and resuming equals training in memory",
  "After any sequence of add_data calls (synchronous or asynchronous, by one or several models with the same neurons) into one pair of files, the files hold the sums over all rows fed with the norm exactly once; solving from the files gives the solution of one training on all rows. Files that do not fit the model are refused unchanged.",
  ["histories", "configurations"],
  "every partition of the data into calls, order, mixture of synchronous and asynchronous calls, batch size, norm and solver",
  "Tests run up to two such calls and check only that B is not None or that the error is below 1.",
  [HP, H5], [("file creation with norm", "_prepare_fHH"), ("norm subtracted from each part", "HPELM.add_data, add_data_async"), ("increment", "_write_fHH"), ("solution", "HPELM.solve_corr")],
  ["contents of the files", "B after solve_corr"])

p("C22", "The requested precision is used for all model parameters",
  "Weights, biases, accumulated matrices, output weights and output files of a model have exactly the precision requested at its creation (single or double, double for unknown requests), through every operation including loading a model saved in another precision. The default norm is 50 times the machine epsilon of that precision, an explicit norm is kept.",
  ["configurations", "histories"],
  "every way of requesting a precision, input dtype, solver and history of operations",
  "One test checks the attribute at creation and one after load; no test checks the matrices.",
  [ELM, SL, SP, HP], [("precision choice", "ELM.__init__"), ("casts", "SLFN.add_batch, set_B, set_corr, ELM._update_from_output"), ("BLAS by precision", "SLFNPython.__init__")],
  ["dtype of W, B, HH, HT and output weights after every call"])

p("C23", "RBF parameters are data points and positive widths",
  "rbf_param returns a centroid matrix of one column per neuron, every column being one of the data rows, and one positive width per neuron lying within one standard deviation of the mean distance between sampled pairs of rows; the kind selects the distance. It accepts arrays and HDF5 files alike and can be passed directly to add_neurons.",
  ["inputs", "configurations"],
  "every data matrix with distinct rows, k, distance kind and source",
  "No test calls rbf_param.",
  [RB], [("sampled distances", "rbf_param"), ("centroids", "rbf_param")], ["return values"])

p("C24", "HPELM never loads more than one batch of rows at a time",
  "Training, predicting, projecting, errors, confusion matrices and validation on HDF5 files read and write the files in pieces of at most batch rows, cover exactly the selected rows, and read no row of the selected range more than twice; so does normalize_hdf5, apart from one more row. So memory use is bounded by the batch size and not by the size of the data.",
  ["configurations", "inputs"],
  "every N, batch, istart, icount, mode and operation of HPELM on HDF5 files",
  "Test files are smaller than one batch, so loading everything is indistinguishable.",
  [HP, H5], [("batch loops", "HPELM.add_data, predict, project, _error, validation_corr, ELM.confusion")], ["HDF5 reads and writes with their row ranges"])

p("C25", "GPU solver agrees with the CPU solvers",
  "With accelerator 'GPU' every operation gives the result of the default solver up to rounding.",
  ["configurations", "inputs"], "every operation and input on a machine with an NVIDIA GPU",
  "No test covers the GPU solver; it is never imported by the tests.",
  ["hpelm/nnets/slfn_skcuda.py"], [("GPU kernels", "SLFNSkCUDA")], ["results of all operations"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
