"""Property -> (module, function) deciding it, and the notes for the manifest."""
CHECKS = {
    "C01": ("layers", "check_c01"),
    "C02": ("layers", "check_c02"),
    "C19": ("purity", "check"),
    "C03": ("modelstore", "check"),
    "C04": ("modelstore", "check"),
    "C05": ("modelstore", "check"),
    "C06": ("modelstore", "check"),
    "C07": ("modelstore", "check"),
    "C08": ("containers", "check"),
    "C09": ("containers", "check"),
    "C10": ("reduce", "check"),
    "C13": ("minibatch", "check"),
    "C14": ("schedules", "check"),
    "C15": ("optimizer", "check"),
    "C20": ("activation", "check"),
    "C12": ("lookup", "check"),
    "C16": ("loss", "check"),
    "C17": ("dropout", "check"),
    "C23": ("recurrent", "check"),
    "C24": ("smooth", "check"),
    "C18": ("shapes", "check"),
    "C21": ("torchwrap", "check"),
    "C11": ("represent", "check"),
    "C22": ("threads", "check"),
    "C25": ("arrays", "check"),
}
TC = "TLA+ specification checked by TLC; "
NOTES = {
    "C01": (
        TC + "random typed model programs executed on the real code, results validated by TLC against the denotational semantics",
        "TLC checks exact adjointness of the specified Fwd/Bwd over enumerated expressions (LayersMC); thousands of random "
        "composed models with integer parameters run through the public API and TLC compares outputs, input gradients and all "
        "parameter gradients exactly (PassTrace). Exact integers only; bounded widths (<=3), batch sizes (<=4) and depth (<=3).",
    ),
    "C02": (
        TC + "every schedule of the pass machine replayed on real models, recorded traces validated by TLC",
        "TLC explores all interleavings of forward, predict, backward, manual increments and updates (PassMC) up to the bound; "
        "each printed schedule and longer random ones run on real models with shared layers, TLC validates every step.",
    ),
    "C19": (
        TC + "schedules of the pass machine on the whole layer library, traces validated by TLC",
        "Every schedule of forward, predict and backward steps over several batches that PassMC enumerates is sampled for each of "
        "about 100 layer configurations; TLC compares every step with the batch run alone and rejects any write to arrays, "
        "parameters or gradients owned by others (PurityTrace), plus exact random programs (PassTrace).",
    ),
    "C03": (
        TC + "enumerated and random operation histories replayed on real models, full-state traces validated by TLC",
        "TLC checks the property as invariants and action properties of the object-graph machine ModelStore over every history up to the bound "
        "from two initial graphs (ModelStoreMC, focus scope); the enumerated histories and seeded random ones of about 22 operations run on real "
        "models through the public API, and TLC validates the complete observable state after every operation (ModelStoreTrace). Scopes are left normally, by an exception and by an interrupt.",
    ),
    "C04": (
        TC + "enumerated and random operation histories replayed on real models, full-state traces validated by TLC",
        "TLC checks the property as invariants and action properties of the object-graph machine ModelStore over every history up to the bound "
        "from two initial graphs (ModelStoreMC, focus graph); the enumerated histories and seeded random ones of about 22 operations run on real "
        "models through the public API, and TLC validates the complete observable state after every operation (ModelStoreTrace).",
    ),
    "C05": (
        TC + "enumerated and random operation histories replayed on real models, full-state traces validated by TLC",
        "TLC checks the property as invariants and action properties of the object-graph machine ModelStore over every history up to the bound "
        "from two initial graphs (ModelStoreMC, focus copy); the enumerated histories and seeded random ones of about 22 operations run on real "
        "models through the public API, and TLC validates the complete observable state after every operation (ModelStoreTrace).",
    ),
    "C06": (
        TC + "enumerated and random operation histories replayed on real models, full-state traces validated by TLC",
        "TLC checks the property as invariants and action properties of the object-graph machine ModelStore over every history up to the bound "
        "from two initial graphs (ModelStoreMC, focus serial); the enumerated histories and seeded random ones of about 22 operations run on real "
        "models through the public API, and TLC validates the complete observable state after every operation (ModelStoreTrace). Bytes, dict and disk; strict and lax compatibility answers are checked against the load that follows.",
    ),
    "C07": (
        TC + "enumerated and random operation histories replayed on real models, full-state traces validated by TLC",
        "TLC checks the property as invariants and action properties of the object-graph machine ModelStore over every history up to the bound "
        "from two initial graphs (ModelStoreMC, focus store); the enumerated histories and seeded random ones of about 22 operations run on real "
        "models through the public API, and TLC validates the complete observable state after every operation (ModelStoreTrace).",
    ),
    "C08": (
        TC + "recorded conversions, layers and their inverses validated step by step by TLC",
        "TLC checks on every small batch that each container form describes the sequences and converts back (ContainersMC) and enumerates conversion paths; "
        "these paths and random ones run on the Ops methods and conversion layers, with metadata, backward passes and item shapes compared exactly (ContainersTrace).",
    ),
    "C09": (
        TC + "recorded index operations validated by TLC against the selection semantics",
        "TLC checks the selection algebra on every small batch and index (ContainersMC); random batches of Ragged, Padded and Pairs are indexed with integers, slices, "
        "arrays and masks and every selected sequence, length, position and the source is compared exactly (ContainersTrace). Tie order of equal lengths is left open.",
    ),
    "C10": (
        TC + "recorded reductions and windows validated by TLC against their specification",
        "TLC checks adjointness and per-sequence locality for every batch of small sequences on all basis vectors (ReduceMC); thousands of calls of the Ops methods (optimised and generic) "
        "and layers, with multi-block integer data, are compared exactly, and mismatching lengths and gradients must be rejected (ReduceTrace).",
    ),
    "C13": (
        TC + "recorded passes over minibatch iterators, including interleaved and repeated ones, validated by TLC",
        "TLC checks the partition, order, alignment and length properties of the batching function for every small size plan (MinibatchMC); random data, containers, "
        "sizes, schedules and interleavings of several passes run on Ops.minibatch and multibatch and every batch is compared (MinibatchTrace).",
    ),
    "C14": (
        TC + "recorded query histories of random schedule compositions validated by TLC in fixed-point arithmetic",
        "TLC checks the algebra of the schedules for all small parameters (SchedulesMC); random compositions of all registered schedules are queried in random orders, "
        "with score histories and generators, and every value is compared with the specification within the fixed-point tolerance (SchedulesTrace).",
    ),
    "C15": (
        TC + "recorded optimizer histories on several keys validated step by step by TLC in fixed-point arithmetic",
        "TLC checks the update machine over every short history of calls, steps and keys (OptimizerMC); random histories with all options, schedules and rules run on "
        "Optimizer and every returned array, zeroed gradient, average and step is compared with the specification (OptimizerTrace). Tolerance about 1e-3 relative.",
    ),
    "C20": (
        TC + "recorded calls of every activation in all variants validated by TLC in fixed-point arithmetic",
        "TLC checks that the specified derivatives are the slopes of the specified functions on a dense grid (ActivationMC); every forward and backward operation runs over inputs that include "
        "kinks and tails, in both precisions, memory layouts, in place or not and on both backends, and is compared with the specification and, for piecewise-linear ones, exactly (ActivationTrace).",
    ),
    "C12": (
        TC + "recorded lookups, gradients and hashes validated by TLC, which computes the hash functions itself",
        "TLC checks the word arithmetic, published hash values and the adjointness of gather and scatter (LookupMC); random ids, seeds, tables, strings, mappings and sparse features "
        "run through Embed, HashEmbed (also copied and loaded), remapping layers, SparseLinear and the Ops methods, and every row, gradient and hash is compared exactly (LookupTrace).",
    ),
    "C16": (
        TC + "recorded loss and gradient calls with all options and forms of truths validated by TLC",
        "TLC checks the losses' algebra (gradient is the residual, masked rows vanish, negation, smoothing) for every small batch (LossMC); random guesses with ids, strings, negated and missing "
        "truths or rows run through every registered loss, and gradients, losses, refusals and inputs left untouched are compared with the specification (LossTrace).",
    ),
    "C17": (
        TC + "recorded interleavings of training passes, predictions and callbacks validated by TLC",
        "TLC checks the mask machine over every schedule of passes, rates and switches (DropoutMC); random histories run on the dropout layer and every layer with a dropout option, in all containers, "
        "and every factor, gradient, rate and array left alone is compared with the specification (DropoutTrace).",
    ),
    "C23": (
        TC + "recorded passes of LSTM, bidirectional and PyTorchLSTM validated by TLC against the LSTM equations in fixed point",
        "TLC checks isolation, causality, latch behaviour and that the specified gradients are the slopes of the specified function for small stacks (RecurrentMC); random stacks, directions, batches, "
        "representations and interleavings run on the real layers on both backends and outputs, input and parameter gradients are compared sequence by sequence (RecurrentTrace). Known finding: bidirectional PyTorchLSTM reads padding.",
    ),
    "C24": (
        TC + "recorded passes of chains of numeric layers validated by TLC in fixed-point arithmetic",
        "TLC checks that the specified gradients are the slopes of the specified layers for every parameter and input of a table of instances (SmoothMC); random chains with all options, representations and "
        "interleavings run on the real layers on both backends and results, input gradients and accumulated parameter gradients are compared (SmoothTrace). Nearly constant rows under normalization and kinks in the middle are not judged.",
    ),
    "C18": (
        TC + "recorded initializations, passes and resizings of random compositions validated by TLC against the inference machine",
        "TLC checks for every expression of a small grammar with every right or wrong subset of dimensions that inference is complete, keeps what was given, is repeatable and guesses nothing (ShapesMC); random compositions of nearly "
        "all layers are built, initialized with and without data, run and resized, and every dimension, parameter shape, initializer and refusal is compared with the specification (ShapesTrace).",
    ),
    "C21": (
        TC + "recorded histories of wrapped PyTorch modules validated by TLC",
        "TLC checks the wrapper machine (mode, gradients, optimizer keys, temporary parameters, state round trips) over every history up to the bound (TorchMC); "
        "random histories on real modules (one and several inputs and outputs, integer inputs, containers, converters, shared shims, averages, bytes/disk, copies) are "
        "compared step by step with the specification's exact integer module (TorchTrace). CPU only; gradient scaling needs CUDA.",
    ),
    "C11": (
        TC + "recorded passes of wrapped layers in every representation validated by TLC",
        "TLC checks for every small batch, representation, wrapper and inner layer that the wrapped layer gives the inner layer's result for every sequence, "
        "with exact gradients, whatever the order and the rest of the batch (RepresentMC); random nested wrappers around row-wise, sequence-wise and length-changing inner "
        "layers run on lists, ragged, padded, tuples and arrays, results, gradients, metadata and what the inner layer is given compared exactly (RepresentTrace).",
    ),
    "C25": (
        TC + "recorded calls of the array operations on every backend validated by TLC",
        "TLC checks the algebra of the specified operations (product and transposition, unit, bilinearity, affine maps, reshaping, tiling, one-hot rows, conversion of nested containers) for all small arrays (ArraysMC); "
        "random calls with every combination of transposition, output array, memory layout, precision and size including zero run on NumpyOps (with and without BLIS) and the generic Ops, results, shapes, dtypes, refusals and "
        "untouched operands are compared exactly (ArraysTrace). Integer values only; aliased outputs, mixed precisions and GPU backends are not judged.",
    ),
    "C22": (
        TC + "thread programs under controlled and free schedules, traces validated by TLC",
        "TLC explores every interleaving of identity allocation (read, write and read under a lock), scopes and model steps of two threads (ThreadsMC); random programs of "
        "2-4 threads run on the real code with control handed over between steps, inside of thinc's statements (code instrumented at import) and freely; TLC validates every step "
        "against the thread's own history (ThreadsTrace). Schedules are sampled, native code is not interleaved.",
    ),
}
