#!/usr/bin/env python3
# Writes properties.jsonl. One place to edit the statements; the jsonl is what counts.
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "A saved model loads back identical",
 "After saving a finalized model to a file or buffer reports success, loading it - in the same process or after a restart - gives a model with the same layers, bit-identical weights and biases, slopes and dropout rates, loss, accuracy settings and optimizer hyperparameters, which predicts bit for bit the same. This holds for every model the API can build, whatever the file held before, in whatever order the environment enumerates maps, and however many times it is repeated. A model that cannot be represented is refused with an error instead of being saved wrongly.",
 ["inputs","configurations","histories","schedules"],
 "every finalized model (layer kinds, shapes, counts, special float values, losses, optimizers), every history of saves and loads over a set of paths, every map iteration order, restart at any point between operations",
 "Two tests save one 3-layer model each and only compute a loss on the loaded copy without comparing anything; other layer kinds, optimizers, special values, deep models, overwrites of longer files and restarts are never sampled.",
 ["model_data.go","layer_data.go"],
 [("NewSavedModelData/Serialize","model_data.go"),("LoadModel/loadModelBuffer","model_data.go"),("SerializeLayer/LoadLayer","layer_data.go"),("SaveFile/LoadFile","model_data.go")],
 [("model file","serialized model at a path","model_data.go SaveFile")], ["loaded Model's exported fields","Model.Predict"])

prop("P02", "A failed or interrupted save never damages the model already stored",
 "If a save over an existing model file fails for any reason, or the process is killed or the machine loses power at any instant during it, a later load of that path gives exactly the previously saved model or exactly the new one, complete - never an error, a mixture or anything else. A save that reports an error because the model itself cannot be saved leaves the stored model as it was. When no model was stored before, an interrupted save leaves either no loadable model or exactly the new one.",
 ["crash_points","fault_sequences","histories"],
 "every instant of a save (statement or I/O step) at which a kill, power loss or I/O error (create, write, short write, full disk, sync, close, rename) may strike, every subset of unsynced writes that reaches the disk, every previous content",
 "No test injects a fault, overwrites an existing model file or crashes; all saves in the tests succeed on a fresh path.",
 ["model_data.go"], [("SaveFile","model_data.go"),("Serialize validation","model_data.go, layer_data.go SerializeLayer")],
 [("stored model","content reachable at the path","file system")], ["LoadFile after the crash or failure"])

prop("P03", "An acknowledged save is durable",
 "Once a save has reported success, the saved model is what a load of that path returns after the process is killed or the machine loses power at any later moment, until another save to that path starts. A save whose bytes could not all be stored - full disk, I/O error, error reported only when the data is flushed or the file closed - does not report success.",
 ["crash_points","fault_sequences","histories"],
 "every history of saves with kills and power losses after (or between) acknowledgements, every subset of unsynced data and metadata lost, every storage error including deferred ones",
 "The tests never restart, lose unsynced data or make storage fail; the page cache hides a missing flush and an ignored close error.",
 ["model_data.go"], [("SaveFile write/flush/close error handling","model_data.go")],
 [("acknowledged save","save that returned no error","SaveFile return value")], ["SaveFile return value","LoadFile after restart"])

prop("P04", "Concurrent saves and loads of a model file are linearizable",
 "When several threads save different models to, and load models from, the same paths at once, every load returns exactly one model that was saved completely, and all results are consistent with some order of the operations that respects real time. A load never sees a partly written file, and a save that succeeded is not undone or blended with another.",
 ["schedules","histories","fault_sequences"],
 "every statement-level interleaving of concurrent saves and loads on shared paths, with and without storage faults in some of them",
 "All tests are single threaded; no test reads a file while another writer is active.",
 ["model_data.go"], [("SaveFile publication of the new file","model_data.go"),("LoadFile","model_data.go")],
 None, ["SaveFile/LoadFile call and return order and results"])

prop("P05", "Reading faults never produce a wrong model",
 "A load from a file either returns exactly the model stored there or an error, whatever the storage does while it reads: short reads, read errors at any offset, early end of file, failures of open or of querying the file. Reads that legally return fewer bytes than asked for do not make the load fail.",
 ["fault_sequences","inputs"],
 "every split of the file into partial reads, every position and kind of read fault, every model",
 "Tests read small local files where the first read happens to return everything; no read fault or partial read is ever produced.",
 ["model_data.go"], [("LoadFile reading loop and error checks","model_data.go")],
 None, ["LoadFile result"])

prop("P06", "Damaged model data is refused or harmless, never fatal",
 "Loading a model or a layer from arbitrarily damaged bytes returns an error or a consistent, usable model; it never panics, hangs, or allocates memory out of proportion to the size of the data. Data that is cut short, has wrong magic bytes, names an unknown layer, loss or optimizer kind, or declares non-positive or mismatching dimensions is refused with an error.",
 ["inputs","fault_sequences"],
 "every corruption of a stored file: truncation at any byte, flipped, zeroed, duplicated or transposed bytes, extreme header fields, with or without logging initialised",
 "No test loads damaged data; the readers see only what the writer just produced.",
 ["model_data.go","layer_data.go"], [("magic, length and size checks in loadModelBuffer","model_data.go"),("loadLayerBuffer size checks","layer_data.go"),("AddLayer/Finalize consistency checks","model.go")],
 None, ["LoadModel/LoadLayer/LoadFile result, allocations"])

prop("P07", "The stored format is the documented one and stays readable",
 "Saved models and layers are laid out exactly as the format documents describe (little endian, fixed field order and widths, optimizer values as named pairs), so an independent reader decodes every save completely, and every file laid out that way loads with the values it holds, in any order of the optimizer pairs. Loading consumes exactly one model, so that models written one after another are read back one after another. A file written by another library version still loads, also with optimizer pairs this one does not know, with a warning and no failure, even when logging was never set up.",
 ["inputs","configurations","histories"],
 "every model, every order of map enumeration when writing and of pairs when reading, every version string of the format's width, files written by earlier processes",
 "Tests only ever read what the same build just wrote, so a change made to writer and reader alike would pass and orphan every stored model.",
 ["model_data.go","layer_data.go","ModelData.md","LayerData.md"], [("Serialize field order","model_data.go"),("SerializeLayer field order","layer_data.go"),("version check","model_data.go loadModelBuffer")],
 None, ["bytes produced by Serialize/SerializeLayer/SaveFile","LoadModel/LoadFile result","WarningLogger"])

prop("P08", "Saving and loading leave nothing behind",
 "When a save or load returns, successfully or with any error, every file it opened is closed again and no temporary or partial file of its making remains beside the target. A save changes no file other than its target, and a load changes none. However many calls a process makes, goroutines they leave running do not accumulate.",
 ["fault_sequences","histories"],
 "every history of saves and loads with a storage fault at any I/O step (other than a crash, or a failure of the clean-up itself)",
 "Tests check neither handles nor directory contents and never take an error path.",
 ["model_data.go"], [("deferred Close","model_data.go SaveFile/LoadFile"),("clean-up on error","model_data.go SaveFile")],
 [("open handles","files not yet closed","os")], ["open handle count and directory listing after each call"])

prop("P09", "Saving replaces the content of a file and nothing else about it",
 "A save to a name that leads to a file through symbolic links, however chained, stores the model in that file and leaves the links as they are. The permissions of an existing file are the same at every instant during the save, after it and after a crash, and meanwhile the model is in no other file that more users can access; a file without write permission is left alone and the save fails. Devices and pipes stay what they are and receive the whole model. A name that cannot hold a model (a directory, a full device, links in a circle, a missing directory) makes the save fail. Once faults stop, a save succeeds whatever interrupted saves before it left behind.",
 ["configurations","crash_points","fault_sequences","histories"],
 "every layout of links (relative, absolute, chained, dangling, circular, across directories and file systems), permission bits, process file creation mask and kind of file under the name, every kill, power loss or I/O error during the save, every history of saves before it",
 "The tests save to plain new names in the current directory; none saves through a link, over a file with permissions of its own, to a device, or after an interrupted save.",
 ["model_data.go"], [("resolution of links","model_data.go replaceFile"),("permissions of the temporary file","model_data.go replaceFile"),("devices and pipes written directly","model_data.go replaceFile")],
 [("file kind and permissions","type and mode bits of the directory entries involved","file system")], ["directory entries and modes before every I/O operation, after SaveFile, after restart"])

prop("T01", "Models trained in different threads do not influence each other",
 "Separate models trained, evaluated, saved and loaded by different threads at the same time end up with exactly the parameters and results each would have had alone given the same random draws, even when they share the same data matrices. No interleaving makes any of them fail, hang or alter the shared data.",
 ["schedules","configurations"],
 "every statement-level interleaving of two to four caller threads each using its own model, every mix of layer kinds, losses, optimizers, batch sizes and logging",
 "All tests run one model in one thread; hidden state shared between models, or data modified in place, is invisible to them.",
 ["model.go","network.go","optimizers.go","loss.go","matrix.go","activation.go"], [("per-layer and per-optimizer state only","network.go, optimizers.go"),("fresh result matrices","matrix.go")],
 [("cached activations","per-layer state from the last forward pass","network.go")], ["final weights, biases, predictions, losses of every model; shared X and Y"])

prop("T02", "Concurrent inference on one trained model is safe",
 "Any number of threads may predict, and compute loss and accuracy, on one shared model that is not being trained; each call returns exactly what it would have returned alone. Results handed out earlier, the model's parameters and the input matrices are never changed by later or concurrent calls.",
 ["schedules","histories","inputs"],
 "every statement-level interleaving of inference calls by two to four threads on a shared model, with different batch sizes and inputs",
 "No test calls a model from two threads or looks at a result again after another call.",
 ["model.go","network.go","loss.go","accuracy.go","misc.go"], [("Forward returns newly allocated outputs","network.go"),("Predict/CalculateLoss/CalculateAccuracy","model.go")],
 [("layer caches","written by every forward pass","network.go")], ["return values of Predict, CalculateLoss, CalculateAccuracy, Forward"])

prop("T03", "Observing a model never changes it or its training",
 "Predicting, scoring, validating, logging and saving at any points between training calls, including calls that fail, leave the model's parameters unchanged and do not alter the outcome of any later training by a single bit. Training, evaluation and prediction never modify the matrices the caller passes in.",
 ["histories","configurations","fault_sequences"],
 "every placement of observation calls and of reporting or validation settings in a training history, including saves and logging that hit storage faults, every kind of model and data",
 "No test compares a training run with and without evaluation, or checks inputs after a call.",
 ["model.go","network.go","misc.go","loss.go"], [("inference path of Forward (training=false)","model.go"),("Fit reporting block","model.go")],
 None, ["weights, biases after training; X, Y, validation matrices after each call"])

prop("T04", "Training can be split, and resumed from a checkpoint after a crash",
 "Training for n epochs gives exactly the same parameters whether done in one call or split into several calls. A model loaded from a checkpoint continues training exactly as a newly built model with those parameters and hyperparameters would, so a plain-SGD training job that is killed at any instant and restarted from its last checkpoint, any number of times, ends with exactly the parameters of an uninterrupted run.",
 ["crash_points","histories","fault_sequences","configurations"],
 "every split of the epochs, every instant of a kill or power loss during training or checkpointing, every number of restarts, every model and optimizer",
 "No test trains in more than one call or continues training a loaded model.",
 ["model.go","model_data.go","optimizers.go"], [("optimizer state kept across Fit calls","model.go, optimizers.go"),("LoadModel -> Finalize rebuilds optimizers","model_data.go")],
 [("optimizer state","momenta, caches, iteration count","optimizers.go"),("checkpoint","last acknowledged save","file system")], ["weights and biases after the last epoch"])

prop("T05", "Training does exactly one correct step per batch, and stops at a failure",
 "Each epoch of training uses every sample exactly once, in data order, in consecutive batches of the requested size (the last one may be shorter, size zero means all samples at once), with one forward pass, one backward pass and one update of every layer from that batch's gradients. If a layer, the loss or the optimizer fails at any step, training stops at once and returns that error, with no later step performed and no update from a failed forward or backward pass.",
 ["fault_sequences","configurations","inputs"],
 "every number of samples, batch size and epochs, every layer stack, a failure of any component at any call",
 "Tests train with one batch size that divides the data, compare nothing afterwards, and no component ever fails.",
 ["model.go"], [("batch loop in Fit","model.go"),("gradient order in Backward/Fit","model.go"),("error returns in Forward/Backward/Fit","model.go")],
 None, ["weights and biases after Fit, Fit's error, calls seen by layers, loss and optimizers"])

prop("T06", "What a model does depends on its layers and settings, not on its past",
 "A finalized model evaluates, is stored and trains exactly like one newly built from the same layers, parameters and settings that has done only the same training steps since its last Finalize. Nothing else in its past leaves a trace: earlier trainings and settings, failed calls, evaluations, saves, layers added later or shared with other models, parameters set by hand, optimizer and loss objects that were used before. AddLayer and Finalize calls that are refused change nothing.",
 ["histories","fault_sequences","configurations"],
 "every history of building, finalizing, training, failing, saving and loading, over one or more models that may share layers, losses and optimizers",
 "Tests finalize each model once, train it once from new, and never call anything that is refused before using the model further.",
 ["model.go","optimizers.go"], [("AddLayer, Finalize","model.go"),("NewOptimizerFromType, getValues/setValues","optimizers.go"),("Fit, Backward","model.go")],
 [("optimizer state","momenta, caches, iteration count since the last Finalize","optimizers.go"),("layers","parameters, possibly of several models","network.go")], ["settings, evaluations and parameters after each training"])

prop("T07", "Calculating with shared matrices is pure",
 "Any number of threads may calculate with the same matrices at once: create, read, compare, add, subtract, negate, scale, raise, multiply, transpose and sum them, convert them (RowMax, SparseToOneHot), take losses of them and use them as gradients. Each call gives exactly what it gives alone, whatever was calculated before or is calculated meanwhile: the defined result, or an error for operands that do not fit. Operands are never changed. Results are the caller's own: they never change afterwards, and overwriting one changes neither operands nor any other result, earlier or later.",
 ["schedules","histories","inputs"],
 "every sequence and interleaving of matrix operations and losses over shared operands of every shape and content, including results that their owners overwrite",
 "Tests call each operation once on one small matrix in one thread and look at the result at once.",
 ["matrix.go","misc.go","loss.go","optimizers.go"], [("Matrix methods, NewMatrix","matrix.go"),("RowMax, SparseToOneHot","misc.go"),("loss Forward and Backward","loss.go"),("Update","optimizers.go")],
 [("matrices","rows shared between threads and results","matrix.go")], ["results at once and later, operands at the end"])

prop("R01", "Shuffling a dataset permutes it and keeps every pair together",
 "Shuffling returns the same sample/target pairs, each exactly once and unaltered, in an order in which every permutation is equally likely. This holds whatever the clock shows - standing still, going backwards, at extreme values - and whatever other threads are shuffling.",
 ["schedules","inputs","fault_sequences"],
 "every dataset shape, random stream, clock behaviour and interleaving with other threads' shuffles",
 "The only test shuffles one dataset and checks nothing, and the clock seeds each run differently.",
 ["misc.go"], [("ShuffleDataset","misc.go")], None, ["returned matrices"])

prop("R02", "Initialisation gives every layer its own properly scaled weights",
 "Initialising a layer of any kind sets every weight to an independent normal draw with mean zero and variance two divided by the number of inputs, and changes nothing else. Different layers and successive initialisations never get copies of the same weights, even if the clock stands still, is coarse, or jumps backwards between them.",
 ["schedules","configurations","fault_sequences"],
 "every layer kind and shape, every clock behaviour during initialisation",
 "Tests initialise but never look at the weights, and on the test machine the clock always advances between layers.",
 ["network.go","model.go"], [("Init of each layer kind","network.go"),("InitLayers","model.go")], None, ["weights and biases after Init/InitLayers"])

prop("R03", "Dropout drops at random in training only, and consistently in both passes",
 "In a training pass each activation is independently either zero, with the configured probability, or the plain activation divided by the probability of keeping it, for every rate from 0 to 1 and with fresh choices in every pass. The backward pass is the exact derivative of that forward pass, with the same units dropped and the same scaling. Outside training nothing is dropped or scaled.",
 ["schedules","inputs","configurations"],
 "every random stream, rate, shape, input and interleaving of passes over several layers and threads",
 "The only test runs one pass with the unseeded stream and logs the numbers; the mask is never compared between passes.",
 ["network.go","binomial.go","model.go"], [("DropoutLayer.Forward/ForwardNoDropout/Backward","network.go"),("binomial.Rand","binomial.go"),("training flag in Model.Forward","model.go")],
 [("mask","units kept in the last training pass","network.go DropoutLayer")], ["outputs and gradients of dropout layers"])

prop("R04", "Apart from initialisation, shuffling and dropout, nothing is random",
 "Given the same parameters and data, prediction, evaluation, and training of models without dropout give bit-identical results whatever the clock, the random generators and map enumeration do, and whatever other models the process has built, trained, saved or loaded before. Prediction and evaluation are deterministic for models with dropout as well. Saving such equal models gives files with equal content, apart from the order of the optimizer pairs.",
 ["schedules","histories","configurations"],
 "every clock behaviour, random stream, map order and prior history of the process",
 "Every test runs under one clock and random stream and compares nothing between runs.",
 ["model.go","network.go","optimizers.go","loss.go","model_data.go"], [("training=false path avoids dropout","model.go"),("no package-level state in training code","model.go, network.go, optimizers.go")], None, ["weights, predictions, losses, saved files"])

prop("L01", "The training log records every reported epoch once, in order",
 "With file logging, every reporting epoch (each multiple of the reporting interval) adds one whole line with the epoch number and the model's loss and accuracy on the training data at the end of that epoch, followed by one for the validation data when given, in order and exactly once; with interval zero nothing is added. Lines are appended to what the file already held, also after logging is set up again or the process restarts, and lines of concurrent trainings never run into each other. Quiet logging prints nothing and console logging prints the same lines.",
 ["histories","schedules","configurations","crash_points"],
 "every reporting interval, epoch count and validation setting, every sequence of logger set-ups and restarts, every interleaving of concurrent trainings, a kill at any instant",
 "Tests write logs but never read them; one test run's log is deleted before the next.",
 ["nn.go","model.go"], [("InitLogger append mode","nn.go"),("Fit reporting block","model.go")], [("log file","appended lines","file system")], ["log file and standard output content"])

prop("L02", "Logging trouble never disturbs the work",
 "Training, evaluation, saving and loading give the same results and errors whether logging is set up or not and whether or not log writes succeed: full disk, failing device or partial writes never make them fail, crash or compute anything else. Setting up logging with a file that cannot be opened returns an error and leaves the previous logging working.",
 ["fault_sequences","configurations","histories"],
 "every storage fault on the log file at any write, every logger state including never initialised, during training, failing training, and loading of foreign-version files",
 "Every test that logs first initialises the loggers on a healthy disk.",
 ["nn.go","model.go","model_data.go"], [("package-level loggers","nn.go"),("InitLogger error path","nn.go"),("ErrorLogger/WarningLogger uses","model.go, model_data.go")], None, ["Fit/LoadModel results and errors, log content"])

# ---- pure properties: stated, not claimed (see not_applicable in MANIFEST.json) ----
prop("N01", "Matrix operations compute the mathematical result",
 "Addition, subtraction, scaling, powers, products, transposes, sums, equality and element, row and column access return the mathematically defined result for all shapes and values and never modify their operands.",
 ["inputs"], "all matrices", "Tests use a handful of tiny matrices.", ["matrix.go"], [("Matrix methods","matrix.go")])
prop("N02", "Backward passes compute the gradient of the loss",
 "For every layer kind, loss and stack of layers, the gradients produced by the backward pass are the derivatives of the loss with respect to weights, biases and inputs.",
 ["inputs","configurations"], "all models, inputs and targets away from kinks", "Tests print gradients and compare none.", ["network.go","loss.go","activation.go"], [("Backward methods","network.go, loss.go")])
prop("N03", "Losses report the average over the whole batch",
 "Each loss returns the documented mean over all samples and outputs of the batch, finite for all valid probabilities including exactly 0 and 1.",
 ["inputs"], "all predictions and targets", "Tests print losses and compare none.", ["loss.go","matrix.go"], [("Forward of each loss","loss.go"),("Clip","matrix.go")])
prop("N04", "Optimizers follow their published update rules",
 "SGD with decay and momentum and Adam with bias correction update parameters by their published formulas at every iteration.",
 ["inputs","histories"], "all hyperparameters and gradient sequences", "Tests train but compare no update.", ["optimizers.go"], [("Update methods","optimizers.go")])
prop("N05", "Predicted classes and accuracies are the defined ones",
 "Class prediction returns the index of the largest output of each row, binary prediction thresholds at one half, and accuracies are the fraction of matching samples, for all outputs including negative ones.",
 ["inputs"], "all outputs and targets", "Tests use positive values only.", ["misc.go","accuracy.go","model.go"], [("RowMax, OutputBinaryValues","misc.go"),("accuracy functions","accuracy.go")])
prop("N06", "Invalid dimensions and indices are reported as errors",
 "Constructors, layers, losses and matrix accessors given invalid sizes, indices or mismatching shapes return an error and never panic or compute a result.",
 ["inputs"], "all argument values", "No test passes an invalid argument.", ["matrix.go","network.go","loss.go","model.go","misc.go"], [("dimension checks","all files")])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
