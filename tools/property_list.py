# pylint: disable=undefined-variable
prop("C01", "A training job restored from a checkpoint continues like the uninterrupted one",
     "A process that crashes at any point of a training job, is started again from the same program and loads the last "
     "checkpoint of model and optimizer is in exactly the state that was saved: weights, scales, every device and "
     "compound state, counters, learned input ranges and optimizer state. From there on, with the same random numbers "
     "and data, its outputs, losses, weights and device states are exactly those of the job that was never interrupted, "
     "whichever of model state and optimizer is restored first.",
     ["crash_points", "histories", "configurations"],
     "all RPU configurations (single, compound, transfer, mixed precision, floating point, inference, torch, custom "
     "tiles), layer types, optimizers and histories of training, evaluation, weight setting, drift, decay, diffusion, "
     "reset and remapping operations; every checkpoint and crash position; any order of restoring",
     "the serialization tests save and load after a fixed number of steps of a few configurations and compare weights or "
     "one forward pass; hidden counters, transfer buffers and chopper states only show after further steps, and only "
     "from particular positions within the transfer schedule",
     [T + "module.py", T + "base.py", T + "rpucuda.py", "src/aihwkit/nn/modules/base.py",
      "src/aihwkit/optim/analog_optimizer.py", C + "rpu.cpp", C + "rpu_pulsed.cpp", C + "rpu_simple_device.cpp",
      C + "rpu_transfer_device.cpp", C + "rpu_chopped_transfer_device.cpp", C + "rpu_mixedprec_device.cpp"],
     [("state of the wrapper and the tile", T + "base.py: SimulatorTileWrapper.__getstate__/__setstate__"),
      ("state dict of analog tiles", T + "module.py: TileModule state_dict hooks"),
      ("extra state of devices and tiles", C + "rpu.cpp: dumpExtra/loadExtra"),
      ("hidden parameters of devices", C + "rpu_pulsed_device.cpp: getDeviceParameter/setDeviceParameter")],
     ["state_dict / load_state_dict", "tile weights, scales and hidden parameters", "outputs and losses"],
     "seeded search over configurations, histories, checkpoint and crash positions; exact comparison (no tolerance) of "
     "the whole observable state and of all later outputs against the uninterrupted run; samples, does not enumerate; "
     "CPU engine only")

prop("C02", "Copies of a model are equivalent, independent, and harmless to take",
     "A deep copy or a pickled and loaded copy of an analog model, taken at any moment of its life, is in the state of the "
     "original, and given the same random numbers and the same operations it behaves exactly as the original does. "
     "Afterwards the two are independent: nothing that happens to one shows in the other. Taking a copy, also in the "
     "middle of a training step, changes nothing in the original.",
     ["schedules", "histories", "configurations"],
     "all RPU configurations, layer types and optimizers; all histories of training, evaluation, weight setting, drift, "
     "decay, diffusion, reset and remapping; all positions at which copies (of copies) are taken, and all interleavings of "
     "what then happens to original and copies",
     "the tests copy once at a fixed point and compare weights; copies sharing hidden state (devices, buffers, hooks, "
     "scales) or losing some of it only show after further steps of one of the two in particular orders",
     [T + "module.py", T + "base.py", T + "rpucuda.py", T + "inference_torch.py", T + "torch_tile.py", T + "custom.py",
      T + "transfer.py", "src/aihwkit/optim/context.py", C + "rpu.cpp"],
     [("wrapper state with and without the tile", T + "base.py: __getstate__/__setstate__"),
      ("module part of the state", T + "module.py: __getstate__/__setstate__"),
      ("copy of the analog context", "src/aihwkit/optim/context.py: AnalogContext.__deepcopy__/__copy__")],
     ["copy.deepcopy(model)", "pickle", "torch.save / torch.load of whole models"],
     "seeded search over schedules of up to four lineages; every lineage is compared exactly (no tolerance) after every "
     "event against an undisturbed run; CPU engine only")
prop("C03", "Damaged or foreign checkpoints are never silently taken for good ones",
     "Loading a checkpoint in which entries or parts of entries were lost, torn, renamed or misplaced, or which belongs to "
     "a model of other shapes, raises an error in strict mode; in non-strict mode it raises or names what is missing or "
     "unexpected. If loading is accepted, the model is exactly in the state the checkpoint describes. After any number of "
     "refused or partial loads, loading a good checkpoint into the same model restores it exactly, and using a model never "
     "changes the checkpoint object it was loaded from or another model loaded from it.",
     ["fault_sequences", "histories", "configurations"],
     "all RPU configurations, layer types and training histories before the checkpoint; all sequences of storage faults at "
     "entry level (lost, torn, misplaced, renamed, junk, foreign, other shape), loaded strictly or not; entries which "
     "repeat the state of another entry, which older versions did not store, or which a model only gets in the course of "
     "its life are exempt from the loss clause",
     "a few tests load a wrong class or a missing key once into a fresh model; none loads several damaged checkpoints in a "
     "row, damages parts of a tile's state, or recovers and continues training afterwards",
     [T + "module.py", T + "base.py", "src/aihwkit/nn/modules/base.py", T + "array.py",
      "src/aihwkit/simulator/digital_low_precision/range_estimators.py",
      "src/aihwkit/simulator/digital_low_precision/quantizers.py", C + "rpu_pulsed.cpp", C + "utility_functions.h"],
     [("tile state taken out of the state dict", T + "module.py: _load_state_dict_pre_hook"),
      ("what may be missing", T + "module.py: _load_state_dict_post_hook"),
      ("checks of names and shapes", T + "base.py: __setstate__"),
      ("extra states checked against sizes", C + "rpu.cpp: loadExtra")],
     ["load_state_dict (strict and not)", "its returned missing and unexpected keys", "state after recovery"],
     "seeded search over configurations, histories and entry-level storage faults; exact comparison; byte-level damage of "
     "the file is left to torch.load")

prop("C04", "One set of weights: reported, viewed and computed with, changed only through the tile",
     "At every moment of a model's life the weights a tile or layer reports are what was set or trained: logical weights are "
     "raw weights times the current mapping and learned scales, setting weights (scaled or not) and reporting them gives the "
     "set weights within the device bounds, the parameter's data view and norm show exactly the reported weights in the "
     "documented shape, and the layer's output is that of the reported weights. Direct writes to the parameter or through "
     "aliases of its view never reach the tile, the placeholder view never gives values, digital buffers are independent of "
     "the weights, a rejected set_weights changes nothing, and reading changes nothing.",
     ["histories", "fault_sequences", "configurations"],
     "all RPU configurations and tile classes, linear, convolutional and mapped layers; all histories of scaled and unscaled "
     "weight setting, remapping, scale setting, training, view modes, direct writes, rejected writes, reloading and copying",
     "tests set weights once and read them back; the views, scales and memory of the tile only come apart after particular "
     "sequences (training after loading, clipping, setting scales twice, a rejected write)",
     [T + "periphery.py", T + "base.py", T + "array.py", T + "torch_tile.py", T + "custom.py", T + "transfer.py",
      "src/aihwkit/optim/context.py", "src/aihwkit/optim/weight_view.py", "src/aihwkit/nn/modules/conv_mapped.py",
      C + "rpu.cpp"],
     [("setting and scaling weights", T + "periphery.py: set_weights, apply_weight_scaling, set_scales"),
      ("views on the tile's memory", "src/aihwkit/optim/context.py: AnalogContext"),
      ("memory shared between engine and Python", T + "base.py: _sync_analog_ctx_weights, _bind_shared_weights")],
     ["get_weights, get_scales", "analog_ctx.data, norm, size", "layer output", "accepted and refused writes"],
     "seeded search over configurations and histories against a small executable reference model; the computed output is "
     "compared with tolerance 2e-4 for perfect forward computation only")

prop("C05", "Every gradient is applied to the analog weights exactly once, by the next optimizer step",
     "An optimizer step changes the weights of every analog tile that has an unfrozen parameter by exactly minus the learning "
     "rate of its parameter group times the sum of the products of stored errors and inputs of all backward passes since the "
     "last step; each backward pass counts once, with the values its forward pass saw, and never again in a later step. "
     "Frozen tiles, tiles without a gradient and forward passes without a backward pass change nothing, evaluation never "
     "changes weights, and a forward or backward pass or closure that fails leaves weights untouched and loses or doubles "
     "nothing of what was recorded before.",
     ["schedules", "fault_sequences", "histories", "configurations"],
     "floating point, ideal, pulsed (without pulses), custom, inference and torch tiles; linear, convolutional and mapped "
     "layers, layers used twice; all schedules of forward passes, backward passes (retained graphs, several in flight), "
     "steps, closures, learning rate changes, freezing, evaluation, and failures in the user's part of the network",
     "the tests train with one forward, one backward and one step at a time; losing, doubling or mixing up recorded "
     "gradients takes several graphs in flight, accumulation, failures or changing learning rates in particular orders",
     ["src/aihwkit/optim/analog_optimizer.py", "src/aihwkit/optim/context.py", T + "functions.py", T + "periphery.py",
      T + "analog.py", "src/aihwkit/nn/modules/conv.py", "src/aihwkit/nn/modules/linear.py",
      "src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp"],
     [("recording of inputs and errors", T + "functions.py: AnalogFunction.backward"),
      ("applying them", "src/aihwkit/optim/analog_optimizer.py: AnalogOptimizerMixin.step"),
      ("learning rates of tiles", "src/aihwkit/optim/analog_optimizer.py: set_learning_rate, regroup_param_groups")],
     ["get_weights before and after every operation", "accepted and failed passes and steps"],
     "seeded search over schedules against a float64 reference model of the digital and analog gradients; tolerance 2e-4; "
     "perfect forward, backward and update (no noise, no pulses)")

prop("C06", "A deployed model's drift is a function of what was programmed and of the time since then, and nothing else",
     "After programming an inference model and letting it drift to a time t, the raw weights of every tile are those the noise "
     "model gives for the saved programmed conductances and drift coefficients at time t, however often and to whatever earlier "
     "or later times the model was drifted before, and whatever was evaluated, trained, copied, pickled or restarted from a "
     "state dict in between, or happened to other models of the process. Without read noise that is the power law "
     "g (t/t0)^-nu. Programming again starts from the reference weights (or, if asked, the current ones). The drift "
     "compensation factor is the readout after programming divided by the present readout and scales outputs in evaluation "
     "mode only. A noise model that fails leaves the weights as they were, reports its error, and the next programming or drift "
     "is not affected.",
     ["histories", "fault_sequences", "configurations"],
     "inference and torch inference tiles with all noise models, conductance converters and drift compensations; linear, "
     "convolutional, mapped and stacked layers; fleets of models; all sequences of programming, drift to arbitrary times, "
     "evaluation, training, weight setting, restarts and failing noise models",
     "the tests program once and drift to one or two increasing times; double application of drift, coefficients lost on a "
     "restart or a stale compensation baseline need sequences with earlier times, restarts and failures",
     [T + "inference.py", T + "inference_torch.py", "src/aihwkit/nn/modules/base.py", "src/aihwkit/inference/noise/base.py",
      "src/aihwkit/inference/noise/pcm.py", "src/aihwkit/inference/noise/custom.py", "src/aihwkit/inference/noise/reram.py",
      "src/aihwkit/inference/noise/hermes.py", "src/aihwkit/inference/compensation/drift.py",
      "src/aihwkit/inference/converter/conductance.py"],
     [("programming and drift of a tile", T + "inference.py: InferenceTileWithPeriphery.program_weights, drift_weights"),
      ("programming and drift of conductances", "src/aihwkit/inference/noise/base.py: BaseNoiseModel.apply_programming_noise, "
       "apply_drift_noise"),
      ("compensation", "src/aihwkit/inference/compensation/drift.py")],
     ["get_weights(apply_weight_scaling=False)", "tile.alpha", "layer output in training and evaluation mode"],
     "seeded search over fleets and histories; every weight is compared (3e-5) with the noise model applied to what was "
     "programmed and, without read noise, with the closed power law in double precision")

prop("C07", "Models in different threads do not influence each other",
     "Several jobs in threads of one process - each with its own model, possibly built from one shared configuration, from classes "
     "of the same name or with the same kind of optimizer - end in exactly the states, outputs and losses they have when each "
     "runs alone in a process, wherever the threads are preempted: while building, converting, training, evaluating, copying, "
     "restoring, programming or drifting their models.",
     ["schedules", "histories", "configurations"],
     "all RPU configurations and optimizers, all operations of a job, all positions of preemption in the Python code of the library, "
     "two or more threads, shared or own configuration objects",
     "all tests run in one thread; state kept in modules, classes, shared configurations or caches only matters when two jobs meet in "
     "the middle of an operation",
     ["src/aihwkit/nn/modules/container.py", "src/aihwkit/nn/conversion.py", "src/aihwkit/optim/analog_optimizer.py", T + "base.py",
      T + "module.py", T + "analog_mvm.py", "src/aihwkit/simulator/parameters/base.py", "src/aihwkit/simulator/configs/configs.py"],
     [("analog model classes made at run time", "src/aihwkit/nn/modules/container.py: AnalogWrapper.__new__, SUBCLASSES"),
      ("optimizer classes made at run time", "src/aihwkit/optim/analog_optimizer.py: AnalogOptimizer"),
      ("computation of torch tiles", T + "analog_mvm.py: AnalogMVM class methods"),
      ("configurations and their bindings", "src/aihwkit/simulator/parameters/helpers.py")],
     ["outputs, losses and get_weights of each job", "type of converted models and optimizers"],
     "seeded search over preemption points (any line of the library) and schedules; exact comparison with the same job alone; the "
     "C++ engine itself is not preempted")

prop("C08", "Resistive devices stay within their physics: bounds, parameters, pulses, and the combination of unit cells",
     "Whatever is done with a tile, every device stays within its bounds and finite, and its device parameters (bounds, step sizes, "
     "decay, diffusion, reset, drift and shape parameters) stay what they were when it was built, through training, copies and "
     "restarts. The weight of a unit cell is the documented combination of its devices (weighted sum, difference to the reference, "
     "difference of the two sides, transfer weighting, with the choppers' signs). An update moves a device by a whole number of pulses, "
     "at most the maximal number, in the direction of the gradient, each of the step the device model prescribes at its present "
     "state, only where input and error coincide, and only on the device whose turn it is; decay and reset act as documented.",
     ["histories", "configurations"],
     "all pulsed devices, unit cells, transfer compounds and mixed precision; all histories of updates, training, weight setting, decay, "
     "diffusion, drift, resets, copies and restarts; all pulse types and update managements",
     "the tests check the step of a device in one or two updates from a fixed state and never look at the hidden devices of unit "
     "cells; bounds, signs and combinations go wrong after particular sequences",
     [C + "rpu_pulsed_device.cpp", C + "rpu_vector_device.cpp", C + "rpu_onesided_device.cpp", C + "rpu_transfer_device.cpp",
      C + "rpu_chopped_transfer_device.cpp", C + "rpu_dynamic_transfer_device.cpp", C + "rpu_mixedprec_device.cpp",
      C + "rpu_linearstep_device.cpp", C + "rpu_expstep_device.cpp", C + "rpu_powstep_device.cpp",
      C + "rpu_piecewisestep_device.cpp", C + "rpu_softbounds_reference_device.cpp", C + "rpu_weight_updater.cpp",
      C + "rpu_pulsed_meta_parameter.cpp", "src/aihwkit/simulator/configs/devices.py", "src/aihwkit/simulator/configs/compounds.py"],
     [("devices", C + "rpu_pulsed_device.cpp and the device classes: doSparseUpdate, doDenseUpdate"),
      ("unit cells", C + "rpu_vector_device.cpp: reduceToWeights, doSparseUpdate"),
      ("number of pulses", C + "rpu_pulsed_meta_parameter.cpp: performUpdateManagement")],
     ["get_weights(apply_weight_scaling=False)", "get_hidden_parameters()"],
     "seeded search over configurations and histories; invariants after every operation, and for devices without random steps each "
     "update is refined to pulses of an independent model of the device equations")

prop("C09", "Compound devices transfer what they collected exactly when, where and as much as they were told to",
     "In transfer compounds (plain, buffered, chopped, dynamic), mixed precision and one-sided unit cells, every update cycle - also "
     "of idle batches, over any mixture of batch sizes, learning rates, restarts and copies - acts on exactly the device whose turn it "
     "is, and transfers, refreshes or programs exactly at the cycles, from the rows or columns, in the order and with the size that "
     "the compound was configured with: reads cycle through all lines, buffers keep what was not transferred, choppers flip and "
     "restore signs consistently, a transfer moves the next device by the documented amount and leaves the others alone.",
     ["histories", "configurations"],
     "all transfer compounds, mixed precision and one-sided cells with two to four devices; all transfer intervals, numbers of reads, "
     "learning rates, scaling modes, buffers, choppers and reset probabilities; all histories of updates, idle batches, writes, copies "
     "and restarts",
     "the tests train a compound for some steps and look at the loss or at the visible weight; a transfer that comes one cycle late, "
     "reads the wrong line after a wrap-around, or loses a part of a buffer still trains",
     [C + "rpu_transfer_device.cpp", C + "rpu_transfer_device.h", C + "rpu_buffered_transfer_device.cpp",
      C + "rpu_chopped_transfer_device.cpp", C + "rpu_dynamic_transfer_device.cpp", C + "rpu_mixedprec_device.cpp",
      C + "rpu_mixedprec_device_base.cpp", C + "rpu_onesided_device.cpp", C + "rpu_vector_device.cpp", C + "rpu_weight_updater.cpp",
      "src/aihwkit/simulator/configs/compounds.py"],
     [("schedule", C + "rpu_transfer_device.cpp: finishUpdateCycle, getTransferEvery, transfer"),
      ("buffers", C + "rpu_buffered_transfer_device.cpp: readAndUpdate"),
      ("choppers", C + "rpu_chopped_transfer_device.cpp: finishUpdateCycle, readMatrix"),
      ("mixed precision", C + "rpu_mixedprec_device_base.cpp: doTransfer, transfer"),
      ("refresh", C + "rpu_onesided_device.cpp: finishUpdateCycle")],
     ["get_hidden_parameters()", "get_weights(apply_weight_scaling=False)"],
     "seeded search over configurations and histories; every update cycle is followed by an executable reference model of the "
     "schedules, as a set of possible states where a device chooses at random; reads without noise and devices without random "
     "steps; the dynamic compound by its schedule only")

prop("C11", "Hardware-aware training modifies, clips and remaps exactly what it says, and evaluation never sees it",
     "Through every history of training steps, interrupted or accumulated mini-batches, evaluations, writes, drift, copies, restarts and "
     "changes of the configuration, the training forward pass of a tile uses weights that are the true weights modified exactly as the "
     "weight modifier is configured (grid, noise strength, drop rate, columns left out), freshly drawn for each step and constant in "
     "between; evaluation and the weights a user reads are never the modified ones (unless the configuration asks for it); after each "
     "step the weights are clipped, then remapped, exactly as configured, with the product of weights and scales unchanged by remapping, "
     "gradients belong to the modified weights of the forward pass, and no step leaves a weight that is not finite.",
     ["histories", "configurations"],
     "all weight modifier, clipping and remapping configurations of C++ and torch inference tiles, with one or more layers; empty, "
     "zero, constant and random weights; all histories of steps, skipped layers, accumulation, closures, failing steps, evaluations, "
     "set_weights, drift, deep copies, pickles and restarts",
     "the tests compare a few modified and unmodified outputs once after construction; modified weights that survive an interrupted step "
     "or an evaluation, stale noise, or a clip that acts before the update need a history",
     [T + "inference.py", T + "torch_tile.py", T + "inference_torch.py", C + "rpu.cpp", C + "weight_modifier.cpp",
      C + "weight_clipper.cpp", C + "weight_remapper.cpp", "src/aihwkit/simulator/parameters/inference.py"],
     [("post update step", T + "inference.py: post_update_step"), ("modified weights", C + "rpu.cpp: modifyFBWeights, getFBWeights"),
      ("clipping", C + "weight_clipper.cpp"), ("remapping", C + "weight_remapper.cpp, " + T + "inference.py: remap_weights"),
      ("torch tiles", T + "torch_tile.py: modify_weights, clip_weights, remap_weights")],
     ["get_weights(apply_weight_scaling=False)", "outputs for unit vectors", "get_scales()", "get_mapping_scales()"],
     "seeded search over configurations and histories; after every operation the used weights are read out through the layer and "
     "compared with an independent model of modifiers, clipping, remapping and the step; noise by bounds and by its first two moments")

prop("C12", "Input range calibration sets exactly the ranges of the inputs seen, and nothing else - also when it fails midway",
     "calibrate_input_ranges() leaves each calibrated tile with the range its calibration type defines for the inputs that tile saw (the "
     "maximum, or the quantile or scaled deviation of the inputs or their running average), enabled, not decided by later data, and "
     "kept through copies and restarts; tiles that are not to be calibrated, weights, noise settings, forward parameters, training modes, "
     "hooks and gradients are as before - whether calibration ends, runs out of data, or is broken off by an error of the data, of a "
     "module or of the user - and training can go on.",
     ["histories", "configurations", "fault_sequences"],
     "all calibration types, sample limits, quantiles and numbers of batches; models mixing inference, torch, pulsed and floating-point "
     "layers, split tiles, tiles without input or with all-zero input; failures at every batch and layer; histories of calibrations, training "
     "steps, copies and restarts",
     "the tests calibrate one model with fixed data per type; a failure midway, a second calibration, a dead layer or a layer of another "
     "kind never occurs",
     ["src/aihwkit/inference/calibration/calibration.py", T + "periphery.py", T + "module.py", T + "inference_torch.py",
      T + "analog_mvm.py"],
     [("calibration", "src/aihwkit/inference/calibration/calibration.py: calibrate_input_ranges"),
      ("input range state", T + "periphery.py: init_input_processing, set_input_range, apply_input_range"),
      ("restart", T + "module.py: _load_from_state_dict")],
     ["get_input_range / input_range", "rpu_config of each tile", "modes and hooks of all modules", "get_weights()"],
     "seeded search over models, data and injected failures; ranges compared with a model computed from the inputs recorded by the "
     "harness; random subsets of a cache only by the interval of possible quantiles")

CL = "src/aihwkit/cloud/client/"
CV = "src/aihwkit/cloud/converter/v1/"
R = "src/aihwkit/experiments/runners/"
prop("C13", "A cloud submission is complete and single, or reported as failed",
     "Running an experiment with a cloud runner creates at most one experiment, one input and one job at the service. A job is "
     "queued only after its input has been stored completely, and the stored input is the experiment that was submitted: "
     "dataset, batch size, layers with their sizes and biases, training or inference settings, noise and analog information, "
     "device, category and name. The call returns a handle of exactly that experiment and job if and only if every request of "
     "it succeeded; any refused, lost, torn or garbled exchange is raised as an error and nothing further is sent. Experiments "
     "that are not supported are refused before anything is sent, and submitting never changes the experiment.",
     ["fault_sequences", "schedules", "configurations"],
     "training and inference experiments of all layer kinds and presets; all sequences of network faults (refused, lost, "
     "duplicated, torn, garbled, error replies, redirects, expired sessions); all interleavings of several clients, also "
     "of threads that share a runner",
     "the tests of the cloud need the real service and are skipped without a token; none of them loses, delays or garbles an "
     "exchange or runs two clients",
     [CL + "v1/api_client.py", CL + "v1/i_api_client.py", CL + "v1/stubs.py", CL + "v1/parsers.py", CL + "session.py",
      R + "cloud.py", R + "i_cloud.py", CV + "training.py", CV + "inferencing.py", CV + "mappings.py", CV + "i_mappings.py"],
     [("the steps of a submission", CL + "v1/api_client.py: ApiClient.experiment_create"),
      ("errors of replies", CL + "session.py: ApiSession.request, ObjectStorageSession.request"),
      ("conversion", CV + "training.py: BasicTrainingConverter.to_proto")],
     ["requests at the HTTP adapter", "state of the simulated service", "returned handle or raised error"],
     "seeded search over schedules and faults; the service is a model of the REST interface the client uses")

prop("C14", "What a cloud client reports is the state of the service at that time",
     "Listing and getting experiments, their status, result and input are linearizable with what happens at the service: every "
     "answer describes a state the service was in during the call. A status is unknown exactly while there is no job, an "
     "experiment seen in an end state stays in it without asking again, and an unknown status or category is an error rather "
     "than a guess. A result is only given for a completed experiment and is exactly its output; otherwise a status error is "
     "raised. The input of an experiment is the experiment that was submitted. Network and service errors are raised, never "
     "turned into an answer, and leave the handle usable: the next call is right again.",
     ["histories", "fault_sequences", "schedules"],
     "all histories of jobs (including outputs that appear late or early, unknown states, experiments without job or input, "
     "experiments created elsewhere), all sequences of network faults, all interleavings of clients",
     "the tests of the cloud need the real service and are skipped; nothing exercises a job that changes between two calls or "
     "during one, or a call that fails half way",
     [CL + "entities.py", CL + "v1/parsers.py", CL + "v1/api_client.py", CL + "v1/i_api_client.py", CL + "v1/stubs.py",
      CL + "session.py", CV + "training.py", CV + "inferencing.py", CV + "mappings.py", CV + "i_mappings.py",
      CV + "rpu_config_info.py", CV + "noise_model_info.py"],
     [("status, result and input of an experiment", CL + "entities.py: CloudExperiment"),
      ("parsing of replies", CL + "v1/parsers.py: ExperimentParser"),
      ("conversion of inputs and outputs", CV + "inferencing.py: from_proto, result_from_proto")],
     ["CloudExperiment.status, get_result, get_experiment", "list_cloud_experiments, get_cloud_experiment"],
     "seeded search over schedules, job histories and faults; every answer is checked against the interval of its call in the "
     "history of the service")

prop("C15", "Credentials of a cloud client go where they belong, and only there",
     "The API token leaves the process only in the login request to the configured service, and the session token only as the "
     "authorization of requests to it; the object storage gets neither, and no error message shows them. Every request is "
     "authorized with the session token of the latest successful login of its own runner, whatever other runners and threads "
     "of the process do; a failed login changes nothing and is reported as a credentials error when the service refused it. "
     "Certificates are verified as configured for each runner. Credentials come from the arguments, else the environment (the "
     "token), else the configuration file; without any, nothing is sent and a credentials error is raised.",
     ["fault_sequences", "schedules", "configurations"],
     "several runners with different accounts, services and verification in one process; all sequences of logins, expired "
     "sessions, outages and network faults; configuration from arguments, environment and (missing, damaged) files",
     "the tests of the cloud need the real service and are skipped; none looks at what is sent where",
     [CL + "session.py", CL + "utils.py", CL + "exceptions.py", CL + "v1/api_client.py", CL + "v1/i_api_client.py",
      CL + "v1/stubs.py", R + "cloud.py", R + "i_cloud.py"],
     [("authorization of requests", CL + "session.py: ApiSession"),
      ("storage session without credentials", CL + "session.py: ObjectStorageSession"),
      ("login", CL + "v1/api_client.py: ApiClient.login"),
      ("configuration", CL + "utils.py: ClientConfiguration")],
     ["headers, bodies and URLs of all requests at the HTTP adapter", "raised errors"],
     "seeded search over schedules, faults and configurations; every request of every run is inspected")
prop("C16", "A training experiment trains exactly as specified and reports what it did",
     "BasicTraining (run directly or by a LocalRunner) reads in every epoch all training elements once in batches of the given "
     "size and then all validation elements once, trains in training mode with one step of stochastic gradient descent per batch "
     "and evaluates without training, so that its weights follow the mathematical trajectory; the epochs, losses and accuracies "
     "it returns and its signals are those of what happened. A failing dataset, model or hook is reported to the caller, nothing "
     "is trained after it, and the experiment can be run again from where it was. Experiments which run in other threads, also "
     "with the same runner, do not matter.",
     ["histories", "schedules", "fault_sequences"],
     "all sequences of runs of several experiments, in several threads, with failures at any access, batch or signal",
     "the tests of the experiments only look at their conversion for the cloud; none runs a training loop to the end and compares",
     ["src/aihwkit/experiments/experiments/base.py", "src/aihwkit/experiments/experiments/training.py", R + "local.py", R + "metrics.py",
      R + "base.py"],
     [("training loop", "src/aihwkit/experiments/experiments/training.py: BasicTraining.train"),
      ("one epoch", "src/aihwkit/experiments/experiments/training.py: training_step and validation_step"),
      ("metrics", R + "metrics.py: LocalMetric"), ("signals", "src/aihwkit/experiments/experiments/base.py: Experiment._call_hook")],
     ["elements read from the datasets", "outputs and modes of the model", "weights after each run", "results and signals"],
     "seeded search over runs, schedules and failures; every run is compared with a reference loop in double precision")
prop("C17", "An inference experiment evaluates the weights it was asked for, as often and at the times it was asked for",
     "BasicInferencing (run directly or by an InferenceLocalRunner) loads the weights of its template, programs all tiles once per "
     "repeat, evaluates the validation elements once per inference time with the weights drifted to that time, and returns the "
     "averages of what its outputs show. A template is either loaded as published or an error is raised: failed, interrupted or "
     "concurrent downloads never leave or use anything else, and a later run succeeds. Failures of dataset, noise model, network "
     "or disk are reported, and leave the model of the experiment as it was.",
     ["fault_sequences", "schedules", "histories", "crash_points"],
     "templates by name, URL and file; several runs and threads sharing the template cache; network and disk faults and crashes at "
     "any byte of the download, failing datasets and noise models",
     "the tests have no network and do not run the inference loop",
     ["src/aihwkit/experiments/experiments/inferencing.py", R + "i_local.py", R + "i_metrics.py", "src/aihwkit/utils/legacy.py",
      "src/aihwkit/nn/modules/base.py", T + "inference.py"],
     [("template download", "src/aihwkit/experiments/experiments/inferencing.py: download and get_model"),
      ("inference loop", "src/aihwkit/experiments/experiments/inferencing.py: inferencing_step"),
      ("statistics", "src/aihwkit/experiments/experiments/inferencing.py: inference"), ("metrics", R + "i_metrics.py")],
     ["outputs of the model", "calls of the noise model", "elements read", "results", "requests and files of the template cache"],
     "seeded search over schedules, network and disk faults; every output of every run is compared with a reference in double "
     "precision")

prop("C18", "A learned input range follows its rule through every training history, and clips exactly what it says",
     "The input range of a layer starts at its initial value, takes the average of the first mini-batches while it is decided by data, "
     "and is afterwards moved by exactly the gradients and the decay of its rule, at the optimizer steps that use them, whatever "
     "the order of accumulated, interrupted, discarded and all-zero mini-batches, evaluations, manual settings, copies and restarts; "
     "outputs are those of the inputs clipped to the range at that time, weights learn from the clipped inputs, gradients of the "
     "inputs are those of the outputs that were not clipped themselves, and evaluation never changes the range.",
     ["histories", "configurations"],
     "all input range settings (initial value, initialisation from data, decay, gradient scale and relativity, share limits, output "
     "clipping) on inference, torch, pulsed and floating-point tiles; all histories of mini-batches of normal, large, constant, "
     "zero and short data with steps, failures, accumulation, evaluations, manual settings, copies and restarts",
     "the tests train a few steps on one kind of data and compare two tiles; a range that becomes negative, counts a mini-batch "
     "twice after a failure, or learns from a discarded one does not show",
     [T + "periphery.py", T + "inference_torch.py", T + "rpucuda.py", T + "functions.py",
      "src/aihwkit/simulator/parameters/pre_post.py"],
     [("range", T + "periphery.py: apply_input_range, init_input_processing"), ("gradient", T + "periphery.py: pre_forward, pre_backward"),
      ("output clipping", T + "rpucuda.py: get_forward_out_bound"), ("autograd", T + "functions.py: AnalogFunction")],
     ["input_range", "input_range.grad", "outputs and input gradients", "get_weights()"],
     "seeded search over configurations and histories; every mini-batch is followed by an executable reference model of range, "
     "outputs and gradients (exact for noise-free forward passes)")

prop("C19", "Quantized layers use the ranges their state allows, on the weights they have, through every history",
     "Every quantizer of a quantized layer or tile starts without range and follows its state: ranges are estimated (by the chosen rule "
     "from all data since the start) in every pass, or in training passes only; learned ranges move by exactly their gradients at "
     "optimizer steps; fixed ranges do not move at all. Outputs are those of the present weights, scales and biases rounded to and clipped "
     "at the present ranges, gradients those of straight-through rounding, and a quantizer without range is an error. This holds after "
     "failing passes and calibrations, state changes at any time, rollbacks to checkpoints from before or after the first estimation, "
     "copies and restarts, and a copy never changes its original.",
     ["histories", "configurations", "fault_sequences"],
     "linear, convolution, norm and embedding layers with input, weight and activation quantizers, analog tiles and tile arrays with "
     "quantized periphery; symmetric and asymmetric, per tensor and per channel, all range estimators; all histories of training, "
     "evaluation, calibration, state changes, checkpoints and copies",
     "the tests convert and run one forward pass; ranges that move when fixed, evaluation with old weights, or checkpoints that cannot "
     "be loaded only show in longer histories",
     ["src/aihwkit/simulator/digital_low_precision/quantization_manager.py", "src/aihwkit/simulator/digital_low_precision/quantizers.py",
      "src/aihwkit/simulator/digital_low_precision/range_estimators.py",
      "src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py", "src/aihwkit/simulator/digital_low_precision/hijacker.py",
      "src/aihwkit/nn/low_precision_modules/quantization_states.py", "src/aihwkit/nn/low_precision_conversion.py",
      T + "quantized_inference_torch.py", T + "array.py", T + "periphery.py", "src/aihwkit/inference/calibration/calibration.py"],
     [("states", "src/aihwkit/simulator/digital_low_precision/quantization_manager.py: QuantizationManager"),
      ("rounding", "src/aihwkit/simulator/digital_low_precision/quantizers.py"),
      ("estimation", "src/aihwkit/simulator/digital_low_precision/range_estimators.py"),
      ("cached weights", "src/aihwkit/simulator/digital_low_precision/hijacker.py: get_params"),
      ("periphery", T + "periphery.py: apply_quant_periphery_scales, add_quant_periphery_bias"),
      ("calibration", "src/aihwkit/inference/calibration/calibration.py: calibrate_quantization_ranges")],
     ["outputs of each layer", "state, scale and zero point of each quantizer", "gradients", "parameters after steps", "state_dict()"],
     "seeded search over models and histories; every layer of every pass is compared with an executable reference in double precision "
     "(roundings that single precision cannot decide are adopted)")
