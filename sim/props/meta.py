"""What each check reports about itself (no heavy imports)."""
REAL = ["aihwkit Python package of /repo", "rpucuda C++ engine and pybind bindings of /repo (compiled out of tree)",
        "PyTorch"]
STUB = ["C rand/srand, std::default_random_engine objects, std::normal_distribution and system_clock of the engine "
        "(one seeded stream and a virtual clock)"]
ASSUME = ["CPU build, single-threaded OpenMP; no CUDA device in the sandbox"]
STATES = "digest of everything observable (weights, scales, hidden device parameters, ranges) after each operation"
CLOUD_REAL = ["cloud client, stubs, parsers, converters, entities and runners (Python)", "requests and urllib3 above the HTTP "
              "adapter", "protobuf"]
CLOUD_STUB = ["the network below requests' HTTP adapter", "the composer service and its object storage (a model of the documented "
              "REST interface)", "thread scheduling (one baton, handed over at network operations)"]
CLOUD_ASSUME = ["the service keeps the interface of the client (the real service cannot be reached from here)"]
CLOUD_STATES = "operation, outcome, end states known to the client and states of all jobs at the service, after each operation"
CLOUD_RULE = ("1-2 services, 1-3 clients (threads, possibly sharing a runner) with 3-8 operations each (thorough: 15), 2-11 events in "
              "the cloud, up to 4 network faults at requests chosen by number, and a schedule, all drawn from the seed")
META = {
    "C01": {"runs": 2400, "technique": "seeded crash and restart of a training process at arbitrary points of its history, "
            "exact comparison against the uninterrupted run",
            "rule": "a configuration of one of 16 families, a model, an optimizer and 4-10 operations (thorough: 17) drawn "
            "from the seed; checkpoints at 1-3 positions, crashes at or after them; non-trivial: at least one operation and "
            "one comparison ran, counted by distinct history digest", "states": STATES, "real": REAL, "stub": STUB,
            "assumptions": ASSUME},
    "C02": {"runs": 2000, "technique": "seeded schedules of operations on and copies of live models, each lineage compared "
            "exactly against an undisturbed run",
            "rule": "as C01, plus 5-13 events (thorough: 25): step a lineage or copy it (deepcopy, pickle, torch.save), "
            "between two steps or between backward pass and step; copies continue the same history, are vandalised or "
            "dropped; counted by distinct history digest", "states": STATES, "real": REAL, "stub": STUB,
            "assumptions": ASSUME},
    "C03": {"runs": 2000, "technique": "storage faults on checkpoints (lost, torn, misplaced, renamed, foreign entries) "
            "followed by recovery from a good checkpoint",
            "rule": "a configuration of one of 16 families, a short history, 1-3 faults on its checkpoint, each loaded "
            "strictly or not, then the good checkpoint and the rest of the history; counted by distinct history digest",
            "states": STATES, "real": REAL, "stub": STUB + ["the storage under the checkpoint (entry-level faults)"],
            "assumptions": ASSUME},
    "C04": {"runs": 2400, "technique": "seeded histories of writes, rejected writes, views, training and restarts against a "
            "small reference model of raw weights, scales and bias",
            "rule": "a configuration with perfect forward computation, one layer, 4-11 operations (thorough: 23); after each "
            "the reported weights, scales, views and the computed output are compared with the reference",
            "states": STATES, "real": REAL, "stub": STUB, "assumptions": ASSUME},
    "C05": {"runs": 2400, "technique": "seeded schedules of forward and backward passes, failing backward passes and closures, "
            "steps, learning rates and freezing, against a digital reference network",
            "rule": "a network of three layers with exact update, 5-16 operations (thorough: 40); after every step all weights "
            "and parameters are compared with the reference",
            "states": STATES, "real": REAL, "stub": STUB, "assumptions": ASSUME},
    "C06": {"runs": 2400, "technique": "simulated deployment clock: seeded sequences of programming, drift to arbitrary (also "
            "earlier) times, restarts and failing noise models over a fleet of models, against the drift law",
            "rule": "1-3 models with a noise model, conductance converter and drift compensation drawn from the seed, 5-15 "
            "operations (thorough: 40); after each all weights and compensation factors of all models are compared with the "
            "reference", "states": "digest of all raw weights after each operation", "real": REAL, "stub": STUB + ["the clock of the "
            "deployment (the time passed to drift_weights)"], "assumptions": ASSUME},
    "C13": {"runs": 5000, "technique": "simulated network, cloud service and object storage under the HTTP adapter; seeded thread "
            "schedules of clients and network faults (lost, torn, duplicated, refused, error replies)",
            "rule": CLOUD_RULE, "states": CLOUD_STATES, "real": CLOUD_REAL, "stub": CLOUD_STUB, "assumptions": CLOUD_ASSUME},
    "C14": {"runs": 5000, "technique": "simulated network and cloud with jobs that progress on their own; seeded thread schedules and "
            "network faults; answers checked for linearizability against the history of the service",
            "rule": CLOUD_RULE, "states": CLOUD_STATES, "real": CLOUD_REAL, "stub": CLOUD_STUB, "assumptions": CLOUD_ASSUME},
    "C15": {"runs": 5000, "technique": "simulated network and cloud; every byte that leaves a client is inspected, under seeded "
            "schedules of logins, expiring tokens, outages, and damaged configuration files",
            "rule": CLOUD_RULE, "states": CLOUD_STATES, "real": CLOUD_REAL, "stub": CLOUD_STUB, "assumptions": CLOUD_ASSUME},
    "C16": {"runs": 3000, "technique": "training experiments in simulated threads over failing datasets, models and hooks; the whole "
            "training is followed by a reference loop in double precision",
            "rule": "1-3 experiments with exact analog tiles, 1-2 threads with 1-3 runs each (thorough: 6), direct or by a shared "
            "runner, with at most one failure each, and a schedule, all drawn from the seed",
            "states": "digest of all weights after each run", "real": REAL + ["experiments, runners and metrics (Python)", "DataLoader"],
            "stub": ["datasets", "thread scheduling (one baton, handed over at dataset accesses)"], "assumptions": ASSUME},
    "C17": {"runs": 3000, "technique": "inference experiments in simulated threads; template downloads over a simulated network and disk "
            "with faults (error replies, torn replies, full disk, crash while writing), noise models and datasets that fail",
            "rule": "1-2 templates, 1-3 threads with 1-3 runs each (thorough: 5), faults of network, disk, dataset and noise model, and a "
            "schedule, all drawn from the seed",
            "states": "digest of all weights after each run", "real": REAL + ["experiments, runners and metrics (Python)", "requests above "
            "the HTTP adapter", "files of the template cache"],
            "stub": ["datasets", "noise model (programming factor and power law)", "network below requests' HTTP adapter", "writes to the "
            "template cache (split into pieces, may fail)", "thread scheduling (one baton)"], "assumptions": ASSUME},
    "C07": {"runs": 1500, "technique": "several jobs in simulated threads of one process, preempted at seeded lines of the library's Python "
            "code; each thread's history is compared with the same job alone in a process",
            "rule": "2-3 threads with a job each (configuration, model, 1-4 operations, thorough: 8), gaps between preemption points and "
            "a schedule, all drawn from the seed",
            "states": "digest of results and all states after each operation", "real": REAL, "stub": STUB + [
                "thread scheduling (one baton, handed over at seeded lines)", "random streams (one set per thread)"], "assumptions": ASSUME},
    "C08": {"runs": 4000, "technique": "seeded histories of training, decay, drift, diffusion, resets, copies and restarts, with device "
            "invariants checked after every operation, and pulse-by-pulse refinement against a model of the device equations",
            "rule": "a configuration of one of 9 resistive families with a model and 3-8 operations (thorough: 23), or a layer on devices "
            "without random steps with 3-11 single updates (thorough: 39), all drawn from the seed",
            "states": "digest of all raw weights and hidden parameters after each operation", "real": REAL, "stub": STUB, "assumptions": ASSUME},
    "C09": {"runs": 4000, "technique": "seeded schedules of updates, idle batches, writes, copies and restarts of compound devices, followed "
            "transfer by transfer by an executable reference model (a set of states where the devices choose at random)",
            "rule": "one of 6 compounds with noise-free reads, 2-4 devices, a layer and 3-9 operations (thorough: 29), all drawn from the seed",
            "states": "digest of all device weights and buffers after each operation", "real": REAL, "stub": STUB, "assumptions": ASSUME},
    "C11": {"runs": 4000, "technique": "seeded schedules of training steps, failing and skipped steps, evaluations, weight writes, configuration "
            "changes, copies and restarts; the weights each pass uses are read out exactly and compared with a reference",
            "rule": "1-2 layers with weight modifier, clipping and remapping and 3-9 operations (thorough: 29), all drawn from the seed",
            "states": "digest of all weights after each operation", "real": REAL, "stub": STUB, "assumptions": ASSUME},
    "C18": {"runs": 4000, "technique": "seeded schedules of training passes, evaluations, steps, abandoned and discarded passes, copies and "
            "restarts over models with learned input ranges; range, gradient and outputs are compared with a reference after each",
            "rule": "1-2 layers with input ranges and 3-9 operations (thorough: 29), all drawn from the seed",
            "states": "digest of all ranges after each operation", "real": REAL, "stub": STUB, "assumptions": ASSUME},
    "C12": {"runs": 4000, "technique": "seeded schedules of calibrations with failing data, failing modules, interrupts and refused "
            "configurations, training, copies and restarts; spies between the layers see the inputs, a reference computes the ranges",
            "rule": "1-3 layers and 2-4 operations (thorough: 13), all drawn from the seed",
            "states": "digest of all ranges after each operation", "real": REAL, "stub": STUB, "assumptions": ASSUME},
    "C19": {"runs": 4000, "technique": "seeded schedules of training, evaluation, failing passes, calibrations with failing data, changes of the "
            "quantization states, rollbacks, copies and restarts over models of quantized layers and tiles; spies at the layers see inputs and outputs",
            "rule": "1-3 layers and 3-9 operations (thorough: 26), all drawn from the seed", "timeout": 120,
            "states": "digest of states and ranges of all quantizers after each operation", "real": REAL, "stub": STUB, "assumptions": ASSUME},
}
