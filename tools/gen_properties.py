#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files,
                          state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=list(observe), hook_needed=None))
    P.append(d)

prop("C01", "Forward prediction equals the network definition",
 """For every network (any depth, any layer widths, any parameters, built-in or user-supplied activations) and
 every input vector, prediction returns what the definition says: layer by layer, activation(bias + input x weights),
 up to floating-point rounding. This holds for every width, including widths that are not a multiple of a vector
 register, for special input values such as 0 and 1, and on every instruction-set level the library can be built for.
 Exactly the network's number of outputs is written, and neither the input nor the network is modified.""",
 ["inputs", "configurations"],
 "all weights, biases, inputs; all layer-size tuples; SSE-only, AVX, AVX2+FMA, AVX-512 and BLAS builds",
 """Tests predict with a handful of fixed networks, one build, one set of weights; vector tails, the input==0 and
 input==1 shortcuts and multi-layer buffer offsets depend on size and value combinations they do not reach.""",
 ["src/neuralnet.c", "src/matrix_operations.c", "src/simd.h"],
 [("layer loop and work memory offsets", "src/neuralnet.c neuralnet_predict"),
  ("bias copy, zero/one shortcuts, SIMD main loops and tails", "src/matrix_operations.c vector_matrix_multiply")],
 observe=["neuralnet_predict output buffer"])

prop("C02", "Compute kernels never touch memory they do not own and never misalign",
 """Prediction, gradient calculation, parameter update and training read and write only inside the buffers they are
 given (at their documented lengths) or own, never use uninitialised values, and never fault on alignment. This holds
 for any layer widths, depth, batch size and sample count, and for prediction and evaluation data at any float
 address; the gradient buffer handed to the gradient function is the only one that must be SIMD-aligned.""",
 ["inputs", "configurations"],
 "all layer-size tuples, sample counts, caller buffer alignments, instruction-set levels",
 """A test only touches the sizes it was written for, and an overrun of a few floats or an aligned access to an
 address that happens to be aligned goes unnoticed; alignment of internal sub-buffers is a function of all layer sizes.""",
 ["src/neuralnet.c", "src/matrix_operations.c", "src/activation.c", "src/optimizer.c", "src/evaluate.c", "src/SGD.c",
  "src/RMSprop.c", "src/adagrad.c", "src/adam.c"],
 [("padded work memory", "src/neuralnet.c neuralnet_predict / neuralnet_backpropagation"),
  ("loop bounds of SIMD kernels", "src/matrix_operations.c"), ("batch gradient buffer", "src/optimizer.c")],
 observe=["every load and store of the compiled code"])

prop("C03", "Activation functions compute their mathematical definition",
 """Applying a built-in activation to a vector of any length, starting at any float address, replaces every element
 by the value of that function (sigmoid, tanh, relu, softsign, hard_sigmoid, exponential, softplus, linear; softmax
 over the whole vector), within single-precision accuracy. The result for an element does not depend on where in the
 vector it stands, the vectorised and the scalar code agree, and nothing outside the vector is touched.
 For every finite input the bounded functions return finite values in their range, and softmax returns values that sum to one.""",
 ["inputs", "configurations"],
 "all finite element values, all vector lengths and start alignments, all instruction-set levels",
 """The generated tests compare one random vector per function against numpy; the vectorised exponential, the alignment
 prologue, the 16-element main loop and the tail are only reached by particular lengths and addresses.""",
 ["src/activation.c"],
 [("vectorised exponential", "src/activation.c exp256_ps"), ("prologue / main loop / tail", "src/activation.c")],
 observe=["vector contents after the call"])

prop("C04", "Activation derivatives multiply by the true derivative",
 """For every built-in activation, the derivative routine multiplies each element of the incoming gradient by the
 derivative of the activation at the point that produced the given activation value, for vectors of any length at any
 float address. Softmax and linear leave the gradient unchanged. Elements outside the vector and the activation values are not modified.""",
 ["inputs", "configurations"],
 "all activation values in the function's range, all gradients, all lengths and alignments, all instruction-set levels",
 """Derivatives are only exercised through one numerical-gradient test with small hidden layers; 16-wide main loops and
 unaligned gradient slices are never reached.""",
 ["src/activation.c"],
 [("derivative routines", "src/activation.c *_derivative"), ("lookup", "src/activation.c get_activation_derivative")],
 observe=["gradient vector after the call"])

prop("C05", "Loss functions return the gradient of the loss they are named after",
 """For every prediction and target vector of any length, each built-in loss routine writes for every output the derivative of
 the named loss with respect to the prediction, averaged over outputs exactly as the loss is. For the two cross-entropy losses it is the derivative with respect to
 the pre-activation of the matching sigmoid/softmax output: prediction minus target, averaged over outputs for the binary and summed (not averaged) for the categorical one. Points at which
 the loss has no derivative (e.g. equality for the absolute losses) are excluded. Only the given number of elements is written.""",
 ["inputs"],
 "all predictions, targets and vector lengths",
 "The generated tests check one random vector per loss; sign flips at equality, scaling with n and elements past the first few are not covered.",
 ["src/loss.c"],
 [("loss routines", "src/loss.c")], observe=["gradient vector of the output layer"])

prop("C06", "Metric functions compute their definition",
 """For every prediction and target vector of any length, each built-in metric returns the value of its definition:
 mean squared, absolute and percentage error (relative to max(|target|, 1e-7)), binary and categorical cross-entropy (predictions clipped away from 0 and 1),
 binary accuracy (fraction of rounded predictions equal to the rounded target, for targets in [0, 1]) and categorical accuracy (1 exactly when the first
 largest prediction and the first largest target are at the same position). The inputs are not modified.""",
 ["inputs"],
 "all predictions, targets and vector lengths",
 "One random vector per metric is compared with numpy; ties, clipping limits, zero targets and other lengths are not.",
 ["src/metrics.c"],
 [("metric routines", "src/metrics.c")], observe=["returned metric value"])

prop("C07", "Backpropagation returns the true gradient of the loss for all parameters",
 """For every network, input and target, the computed gradient vector equals the derivative of the sample's loss with respect
 to every parameter, in the documented order (per layer from input to output: biases, then weights row by row), for any depth and
 layer widths. The buffer's previous content does not matter, exactly one value per parameter is written, and the network is not modified.""",
 ["inputs", "configurations"],
 "all parameters, inputs, targets; all layer-size tuples; all instruction-set levels and the BLAS build",
 """One test compares with numerical differentiation at a few points of a few small networks; zero activations, wide layers and tail
 elements are outside it.""",
 ["src/neuralnet.c", "src/matrix_operations.c", "src/activation.c"],
 [("forward pass, pointer set-up and backward loop", "src/neuralnet.c neuralnet_backpropagation"),
  ("outer product and transposed multiply", "src/matrix_operations.c")],
 observe=["gradient buffer"])

prop("C08", "Parameter vector layout is consistent across count, read-out and update",
 """The reported parameter count, the parameter read-out and the parameter update agree for every network: reading out copies every
 bias and weight exactly once in the order biases-then-weights per layer, and updating adds element k of the delta to exactly the
 parameter that read-out reports at position k. Nothing else in the network changes, and no element outside the count is read or written.""",
 ["inputs", "configurations"],
 "all parameters and deltas, all layer-size tuples, all instruction-set levels and the BLAS build, any delta address",
 "Tests use it only indirectly through training runs with loose tolerances on small networks.",
 ["src/neuralnet.c", "src/neuralnet.h", "src/matrix_operations.c"],
 [("update / read-out loops", "src/neuralnet.c neuralnet_update, neuralnet_get_parameters"),
  ("count", "src/neuralnet.h neuralnet_total_n_parameters")], observe=["parameters before and after"])

prop("C09", "A batch gradient is the mean over exactly the samples of that batch",
 """The gradient used for one training step is the arithmetic mean of the per-sample gradients of exactly the samples at the next
 positions of the epoch's order: a full batch, or all remaining samples when fewer remain, divided by the number actually used. The position
 advances by that number, the network and the data are not modified, and no sample outside the data set is read.""",
 ["inputs", "configurations"],
 "all per-sample gradients, all orders, sample counts, batch sizes and start positions (also batch larger than the data set)",
 "Training tests only check that the error falls; a wrong divisor for the last batch or a skipped sample still trains.",
 ["src/optimizer.c"],
 [("batch loop", "src/optimizer.c optimizer_calc_batch_gradient")], observe=["batch gradient and position"])

prop("C10", "Every epoch visits every training sample exactly once",
 """In every epoch the order in which samples are used is a permutation of all training samples, whatever the random
 numbers are, with shuffling on or off (an optimizer that never shuffles always uses the original order), and whatever happened before: earlier epochs, other optimizers alive in
 the same process, or a training set of a different (positive) size. Every permutation can occur when shuffling.""",
 ["inputs", "histories"],
 "all random-number streams, all sample counts, all histories of epochs over several optimizers and set sizes",
 "A test run sees one random stream, one optimizer and one data size per process.",
 ["src/optimizer.c"],
 [("order array preparation", "src/optimizer.c prepare_shuffle_pivot"), ("shuffle", "src/optimizer.c fisher_yates_shuffle")],
 state=[("pivot", "order of the samples", "src/optimizer.h optimizer_t")], observe=["order array during an epoch"])

prop("C11", "SGD follows its update rule over any training history",
 """After any sequence of epochs the parameters equal those of the reference rule: velocity = momentum*velocity - rate*gradient and
 parameters += velocity (plain SGD without momentum; with Nesterov the gradient is taken after the interim step momentum*velocity),
 where the rate is multiplied by 1/(1+decay*step) at every step. Settings and state belong to one optimizer and are not affected by others.""",
 ["inputs", "histories", "configurations"],
 "all gradients, rates, momenta, decays, step counts, batch sizes, several optimizers interleaved; all instruction-set levels",
 "The test compares one short run against stored numbers for one setting and does not combine momentum, decay, partial batches and several optimizers.",
 ["src/SGD.c", "src/optimizer.c", "src/matrix_operations.c"],
 [("step loop", "src/SGD.c SGD_run_epoch"), ("vector kernels", "src/matrix_operations.c")],
 state=[("velocity, n_iterations, learning_rate", "per-optimizer state", "src/SGD.c")], observe=["network parameters after each epoch"])

prop("C12", "RMSprop follows its update rule over any training history",
 """After any sequence of epochs the parameters equal those of the reference rule: r = rho*r + (1-rho)*gradient^2 and the step is
 -rate*gradient/(sqrt(r)+1e-7), fed through the same momentum/Nesterov scheme and rate decay as SGD. The state starts at zero, belongs to one
 optimizer and every parameter is treated alike.""",
 ["inputs", "histories", "configurations"],
 "all gradients, rates, rho, momenta, decays, step counts, batch sizes; all instruction-set levels",
 "There is no test of RMSprop's numbers; only an example program trains with it.",
 ["src/RMSprop.c", "src/optimizer.c", "src/matrix_operations.c"],
 [("step loop", "src/RMSprop.c RMSprop_run_epoch"), ("step scaling", "src/RMSprop.c compute_update")],
 state=[("r, velocity, n_iterations", "per-optimizer state", "src/RMSprop.c")], observe=["network parameters after each epoch"])

prop("C13", "Adagrad follows its update rule over any training history",
 """After any sequence of epochs the parameters equal those of the reference rule: r += gradient^2 and
 parameters -= rate*gradient/(sqrt(r)+1e-7), with the rate multiplied by 1/(1+decay*step) at every step. The accumulator starts at zero, is
 never reset between epochs, belongs to one optimizer, and every parameter is treated alike.""",
 ["inputs", "histories", "configurations"],
 "all gradients, rates, decays, step counts, batch sizes; all instruction-set levels",
 "There is no test of Adagrad's numbers; only an example program trains with it.",
 ["src/adagrad.c", "src/optimizer.c", "src/matrix_operations.c"],
 [("step loop", "src/adagrad.c adagrad_run_epoch")],
 state=[("r, n_iterations", "per-optimizer state", "src/adagrad.c")], observe=["network parameters after each epoch"])

prop("C14", "Adam/AdamW follows its update rule over any training history",
 """After any sequence of epochs the parameters equal those of the reference rule: first and second moments with decay beta_1 and beta_2,
 bias correction 1-beta^t with t the number of steps this optimizer has taken, step -rate*m_hat/(sqrt(v_hat)+1e-8), and decoupled weight decay
 -weight_decay*parameter when it is positive. All state, the bias correction included, belongs to one optimizer: another optimizer's steps do not change it.""",
 ["inputs", "histories", "configurations"],
 "all gradients, rates, betas, weight decays, step counts, batch sizes, several optimizers interleaved; all instruction-set levels",
 "There is no test of Adam's numbers, and no test uses two optimizers in one process.",
 ["src/adam.c", "src/optimizer.c", "src/matrix_operations.c"],
 [("step loop", "src/adam.c adam_run_epoch"), ("moments and step", "src/adam.c update_biased_*_moment, compute_update_adam")],
 state=[("r, s and bias correction", "per-optimizer state", "src/adam.c")], observe=["network parameters after each epoch"])

prop("C15", "Epoch results are the mean metrics, training first, then validation",
 """After an epoch (and from evaluation directly), result k is the arithmetic mean over all samples of metric k between
 prediction and target, in the order of the metric list (for at least one sample); training results come first and validation results follow only when a non-empty validation set
 is given, otherwise nothing past the training results is written. Without a metric list the metric of the network's own loss is used, for each optimizer
 independently of others. Evaluation changes neither network nor data.""",
 ["inputs", "histories", "configurations"],
 "all predictions and targets, sample counts, metric lists, with and without validation, several optimizers",
 "Tests look at one metric on one data set and never at the layout with several metrics and validation, nor at two optimizers with different losses.",
 ["src/evaluate.c", "src/optimizer.c"],
 [("mean of metrics", "src/evaluate.c"), ("layout", "src/optimizer.c optimizer_run_epoch"), ("default metric", "src/optimizer.c optimizer_check_sanity")],
 observe=["results array"])

prop("C16", "Parallel execution gives the serial result for every thread schedule",
 """Batch gradients, evaluation, batch prediction and training steps give, for any number of threads, any distribution of iterations and any interleaving, the
 result of the serial program up to the rounding of re-ordered sums. No two threads access the same memory without synchronisation where one of
 them writes.""",
 ["schedules", "inputs"],
 "all thread counts, iteration distributions and interleavings, all data",
 "A test run sees the schedules the machine happens to produce, with sums compared loosely.",
 ["src/optimizer.c", "src/evaluate.c", "src/neuralnet_predict_batch.c", "src/adam.c"],
 [("reductions", "src/optimizer.c, src/evaluate.c"), ("parallel for", "src/neuralnet_predict_batch.c"), ("parallel sections", "src/adam.c")],
 observe=["results and shared-memory accesses"])

prop("C17", "Batch prediction equals sample-by-sample prediction",
 """Predicting a batch writes for every sample, at its own position, what predicting that sample alone writes (up to rounding), for every number of
 samples (zero included), layer widths, activations and output address, in the threaded and in the BLAS implementation, also when the latter has to
 split the batch. Nothing else is written.""",
 ["inputs", "configurations"],
 "all networks, inputs, sample counts, work-memory limits; threaded and BLAS builds",
 "No test compares the two with many samples, odd output widths or the BLAS build.",
 ["src/neuralnet_predict_batch.c", "src/matrix_operations.c", "src/neuralnet.c"],
 [("threaded loop", "src/neuralnet_predict_batch.c"), ("BLAS layer loop and splitting", "src/neuralnet_predict_batch.c")],
 observe=["output matrix"])

prop("C18", "Choosing a loss installs the matching derivative for every layer",
 """After setting a loss by name, every layer has the derivative of its own activation, except that the output layer's derivative is replaced by the
 identity exactly for sigmoid with binary cross-entropy and softmax with categorical cross-entropy. An unknown loss name leaves the network without
 a loss and changes nothing else; setting another loss later gives the same state as setting only that one.""",
 ["inputs", "histories", "configurations"],
 "all activation combinations, all loss names (aliases and unknown ones), all sequences of settings",
 "Tests use two or three combinations and never set a loss twice.",
 ["src/neuralnet.c", "src/loss.c", "src/activation.c"],
 [("matching logic", "src/neuralnet.c neuralnet_set_loss")], observe=["the gradient routine of each layer"])

prop("C19", "Weight initialisation respects its distribution's bounds for every random stream",
 """For every stream of random numbers, Xavier initialisation gives weights within +-sqrt(6/(inputs+outputs)), Kaiming initialisation gives finite weights
 scaled by sqrt(2/inputs), all weights are set, and all biases are zero. The scheme is the one named for the layer or, when none is named, the one
 matching the layer's activation; sizes that overflow nothing give no invalid value.""",
 ["inputs", "histories"],
 "all random-number streams (including the rare zero draws), all layer sizes, initialiser names and activations",
 "A run draws a tiny part of the generator's range; the zero draw of the normal sampler has probability 2^-48.",
 ["src/neuralnet.c"],
 [("samplers", "src/neuralnet.c random_uniform, random_normal"), ("scheme choice", "src/neuralnet.c neuralnet_initialize")],
 observe=["weights and biases"])

prop("C20", "Saving an array and loading it back gives the same array",
 """For every array of up to the supported number of dimensions, saving it to a file and loading the file gives an array with the same shape,
 element type, byte order, storage order and data bytes. This includes one-dimensional, maximum-dimensional and empty arrays (a dimension of length zero),
 and arrays stored in Fortran order.""",
 ["inputs"],
 "all shapes, dimension counts, element types and sizes, orders and data bytes",
 "There is no round-trip test of single arrays; only a few float matrices inside archives are exercised.",
 ["npy_array/npy_array.c", "npy_array/npy_array.h"],
 [("header writer", "npy_array/npy_array.c npy_array_get_header"), ("reader", "npy_array/npy_array.c _read_matrix"),
  ("size", "npy_array/npy_array.c npy_array_calculate_datasize")], observe=["loaded structure"])

prop("C21", "The written array header is valid NumPy format 1.0",
 """For every array, the written header consists of the magic string, version 1.0, a little-endian length and a dictionary that describes exactly the array's
 type, order and shape in NumPy's syntax, padded with spaces and ended by a newline, and its total length is the stated length plus ten and
 a multiple of 64. It fits the buffer of the documented size, and the data follows immediately.""",
 ["inputs"],
 "all shapes up to the supported number of dimensions, element types, sizes and orders",
 "Python reads back only the few float matrices tests write; large dimensions and many dimensions are not written.",
 ["npy_array/npy_array.c"],
 [("header writer", "npy_array/npy_array.c npy_array_get_header")], observe=["header bytes"])

prop("C22", "Loading any file as an array is memory safe and never misreports",
 """Loading an arbitrary file (truncated, corrupted, hostile or simply not an array) either fails by returning nothing, without crashing, or returns an array whose data buffer really
 holds the number of bytes its shape and element size imply and whose shape, type and order are those written in the file. No memory outside the
 buffers is read or written and nothing is leaked on failure.""",
 ["inputs", "fault_sequences"],
 "all file contents and lengths, including short reads",
 "Tests only load files that the library or NumPy wrote.",
 ["npy_array/npy_array.c"],
 [("header parser", "npy_array/npy_array.c _read_matrix")], observe=["returned structure, memory accesses"])

prop("C23", "A memory-mapped array equals the loaded array",
 """Mapping a file gives an array with the same shape, type, order and data as loading it, and fails on exactly the files loading fails on for their content;
 in particular the data lies wholly inside the mapped file. Releasing it unmaps exactly the mapped range, and the file is not modified.""",
 ["inputs"],
 "all file contents and lengths",
 "The mapping function is not tested at all.",
 ["npy_array/npy_array.c"],
 [("mapped reader", "npy_array/npy_array.c read_mapped, npy_array_mmap"), ("release", "npy_array/npy_array.c npy_array_free")],
 observe=["returned structure, mapped range"])

prop("C24", "An archive of arrays keeps order, names and contents, compressed or not",
 """A list built by appending and prepending holds the arrays in the requested order under the requested names. Saving it writes one entry per array in list order with its
 name and its full contents, using the requested compression for every entry, and loading it back gives the same
 arrays and names in the same order; names are taken literally, whatever characters they contain. The return value tells how many arrays
 were really written.""",
 ["inputs", "histories"],
 "all sequences of append/prepend, names and arrays, compression settings; all entry names found in an archive",
 "Tests save a handful of networks with fixed names; odd names, unnamed entries, prepending and compression are not covered.",
 ["npy_array/npy_array_list.c"],
 [("list operations", "npy_array/npy_array_list.c"), ("archive writer and reader", "npy_array/npy_array_list.c")],
 observe=["archive entries, list contents"])

prop("C25", "Saving a network and loading it back gives the same network",
 """For every network, saving and loading gives a network with the same depth, layer sizes, activation functions and bit-identical parameters, independent of the lengths of the
 activation names and including dynamically loaded ones. The archive has the documented layout (weights and biases per layer from input to output,
 then the activation names), and an archive with the activation names at any other place loads to the same network.""",
 ["inputs", "configurations"],
 "all layer-size tuples, parameters, activation combinations, positions of the name array",
 "Tests round-trip a few networks of one kind.",
 ["src/neuralnet.c", "npy_array/npy_array_list.c"],
 [("writer", "src/neuralnet.c neuralnet_save"), ("reader", "src/neuralnet.c neuralnet_load")], observe=["loaded network"])

prop("C26", "Loading a network from any archive is safe and rejects inconsistent contents",
 """Loading a network from an archive whatever arrays it holds either returns nothing, without crashing, or returns a network whose parameters are exactly the
 arrays of the file. Archives with mismatched layer sizes, missing arrays, wrong element types or dimensions, Fortran order or
 missing activation names are rejected; no memory outside the arrays is read or written.""",
 ["inputs"],
 "all lists of arrays: counts, shapes, dimension counts, types, element sizes, orders",
 "Tests load only archives written by the library or by a Keras-compatible script.",
 ["src/neuralnet.c"],
 [("consistency checks and copy", "src/neuralnet.c neuralnet_load"), ("names", "src/neuralnet.c _activation_names_from_npy")],
 observe=["returned network, memory accesses"])

prop("C27", "Running out of memory or failing I/O is reported, never a crash or corruption",
 """When any single memory allocation fails while creating or loading a network or loading an array, the call returns nothing, frees what it had allocated exactly once, and touches no invalid memory.
 When a file cannot be opened, read or written, array and network loading returns nothing and saving returns without a crash.""",
 ["fault_sequences"],
 "every position of a failing allocation or I/O call",
 "Allocation and I/O never fail in the tests.",
 ["src/neuralnet.c", "npy_array/npy_array.c", "npy_array/npy_array_list.c"],
 [("error paths", "src/neuralnet.c neuralnet_create, neuralnet_load; npy_array/npy_array.c _read_matrix")],
 observe=["return value, heap state"])

prop("C28", "Names and functions of activations, losses and metrics correspond one to one",
 """Looking up a built-in activation, loss or metric by any string succeeds exactly for the documented names (and the documented abbreviations), each name gives its own
 function, and looking up the name of that function gives the full name back; an unregistered function has the name "(unknown)". Every activation has its own derivative.""",
 ["inputs"],
 "all strings, all function pointers",
 "Tests look up the correct names once each; they never try another string.",
 ["src/activation.c", "src/loss.c", "src/metrics.c"],
 [("lookup chains", "src/activation.c, src/loss.c, src/metrics.c")], observe=["returned pointers and strings"])

prop("C29", "Dynamically loaded activations resolve, persist and clean up correctly",
 """For every name of the form symbol@library whose library and symbol exist, lookup returns that function, its derivative (when the library has it) and its full
 name can be looked up from it, for any number of loaded functions and any name length. If the format is wrong, or the library or symbol is missing, lookup
 returns nothing, leaves the registry unchanged and releases the library; all libraries are released exactly once at exit.""",
 ["inputs", "histories", "fault_sequences"],
 "all names, all outcomes of the dynamic loader and allocator, all sequences of lookups",
 "One example uses one library; failures and sequences are not tested.",
 ["src/activation.c"],
 [("record list", "src/activation.c get_activation_func_dynamic, cleanup_dynamic_symbols")],
 state=[("records", "list of loaded functions", "src/activation.c")], observe=["returned pointers, loader calls"])

prop("C30", "Early stopping fires exactly when patience is exhausted",
 """The stop flag is set after an epoch exactly if more than 'patience' consecutive epochs up to then brought no strict improvement of the monitored result (smaller, or greater when so configured) over the
 best seen by this instance, and it stays set. The monitored result is the configured one, or by default the first validation result, or the first training
 result without validation (all finite); instances do not influence each other.""",
 ["histories", "inputs"],
 "all sequences of results (also equal, negative and huge ones), patience values, settings, several instances",
 "No test covers early stopping.",
 ["src/earlystopping.c"],
 [("improvement logic", "src/earlystopping.c earlystopping_callback_run")],
 state=[("best result and count", "per-instance progress", "src/earlystopping.c")], observe=["earlystopping_do_stop"])

prop("C31", "Model checkpoints are written exactly on improvement",
 """The network is saved after an epoch exactly when the monitored result strictly improves (smaller, or greater when so configured) on the best seen by this instance, starting with the first
 epoch, under the configured file name or the documented default. The monitored (finite) result is chosen as for early stopping, and instances do not influence each other.""",
 ["histories", "inputs"],
 "all sequences of results, settings, several instances",
 "No test covers checkpoints.",
 ["src/modelcheckpoint.c"],
 [("improvement logic", "src/modelcheckpoint.c modelcheckpoint_callback_run")],
 state=[("best result", "per-instance progress", "src/modelcheckpoint.c")], observe=["calls that save the network"])

prop("C32", "The log line is complete and epoch numbering continues from the log",
 """Each epoch appends exactly one line with the next epoch number and every metric's name and value (training, then validation with a prefix) to the log file and, unless disabled, to standard output, for any number of metrics.
 A new logger for which no start number is configured continues numbering one after the last epoch found in an existing log of any size (in the format the logger writes); otherwise numbering starts from the configured number (or the beginning when there is no log), and never fails on the content of the file.""",
 ["histories", "inputs"],
 "all log-file contents and lengths, metric lists, epoch counts",
 "No test covers the logger.",
 ["src/logger.c"],
 [("line composition", "src/logger.c logger_callback_run"), ("resume", "src/logger.c find_last_epoch_from_logfile")],
 state=[("epoch_count", "next epoch number", "src/logger.c")], observe=["written line, epoch numbers"])

prop("C33", "Network creation validates its arguments and builds exactly what was asked for",
 """Creation succeeds for every list of positive layer sizes that memory can hold and returns a network with exactly those sizes, aligned parameter memory of the right length, the named activations
 (linear for a missing or unknown name) and no loss. It returns nothing for a non-positive number of layers or any non-positive size, and releasing a network frees everything exactly once.""",
 ["inputs"],
 "all layer counts, size lists (also non-positive and huge) and activation names",
 "Tests create valid networks and a few invalid ones.",
 ["src/neuralnet.c"],
 [("validation and allocation", "src/neuralnet.c neuralnet_create, _weights_memory_allocate"), ("release", "src/neuralnet.c neuralnet_free")],
 observe=["returned network, heap state"])

prop("C34", "The progress bar always fits its line and ends exactly at completion",
 """For every position, total, label and terminal width the progress bar prints the label, then a bar whose filled and empty parts together have the available width, and a
 percentage, ending with a newline exactly when the position equals the total; it prints nothing when output is not a terminal or there is no room.
 It never loops without end or divides into an invalid conversion.""",
 ["inputs"],
 "all positions 0..total, totals, label lengths and terminal widths",
 "Tests never run on a terminal.",
 ["src/progress.c"],
 [("bar drawing", "src/progress.c progress_ascii"), ("width", "src/progress.c getcols")], observe=["printed characters"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
