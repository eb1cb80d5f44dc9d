import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["thinc/"+f for f in files],mechanism=[dict(name=n,where="thinc/"+w) for n,w in mech],observe_at=observe,hook_needed=None)))
p("C01","Composed models compute the composition and its exact gradient",
 "For every model composed from the library's combinators, transforms and piecewise-linear layers (chain, add, concatenate, residual, tuplify, siamese, map_list, clone, bidirectional, uniqued, getitem, no-op and debug wrappers, linear, ReLU, maxout, clipped-linear), the forward pass returns exactly the mathematical composition of the parts on the given input. The backward callback returns exactly the vector-Jacobian product of that function with respect to the input, and adds exactly its vector-Jacobian product with respect to every parameter to that parameter's gradient, summed over all occurrences of shared layers.",
 ["programs","inputs","histories"],"All finite expressions over the combinators and layers (including shared sub-layers), all parameter values, all batches (array, list, ragged, padded) and all upstream gradients; checked with small integers so that every result is exact.",
 "The tests check a handful of two-layer models, mostly shapes and a few all-ones inputs; nested combinators, more than two branches, shared layers, containers other than arrays and aliasing between branches are not reached.",
 ["layers/chain.py","layers/add.py","layers/concatenate.py","layers/residual.py","layers/tuplify.py","layers/siamese.py","layers/map_list.py","layers/clone.py","layers/bidirectional.py","layers/uniqued.py","layers/with_getitem.py","layers/array_getitem.py","layers/linear.py","layers/relu.py","layers/maxout.py","layers/clipped_linear.py","util.py"],
 [("forward/backprop closures of each combinator","layers/*.py: forward"),("gradient summation over branches","util.py: add_gradients"),("gradient accumulation","model.py: inc_grad")],
 ["Model.begin_update","Model.predict","returned callback","Model.get_grad"])
p("C02","Gradients accumulate and each update consumes them exactly once",
 "Between two updates, the gradient of every parameter is the sum of the contributions of all backward passes made so far, in whatever order and however the forward passes were interleaved. An update applies the optimizer exactly once to every parameter that has a gradient, including parameters of layers used in several places, leaves those gradients at zero and leaves every other parameter unchanged.",
 ["histories","schedules","programs"],"All interleavings of forward passes, backward callbacks, manual gradient changes and updates over models with shared layers.",
 "Tests run one forward, one backward and one update on single layers; interleavings of several batches, shared nodes and partially used models are not explored.",
 ["model.py","backends/_param_server.py","optimizers.py"],
 [("inc_grad / set_grad","backends/_param_server.py: ParamServer"),("finish_update","model.py: Model.finish_update"),("gradient reset","optimizers.py: Optimizer.__call__")],
 ["Model.get_grad","Model.has_grad","Model.get_param","Model.finish_update","Model.get_gradients"])
p("C03","Temporary scopes restore the previous state however they are left",
 "Inside a scope that temporarily substitutes parameters, operator overloads, the backend or data validation, exactly the named things are changed; when the scope is left, normally or by an exception, everything is exactly as it was when it was entered. This holds for nested scopes, for layers that occur several times in a model and for wrapped PyTorch modules.",
 ["histories","fault_sequences"],"All nestings of scopes, all subsets of parameters substituted (including unknown keys), with exceptions raised at any point.",
 "Tests enter a scope once and leave it normally; nested, exceptional and overlapping use is not exercised.",
 ["model.py","shims/shim.py","shims/pytorch.py","backends/__init__.py","util.py"],
 [("use_params","model.py: Model.use_params"),("define_operators","model.py: Model.define_operators"),("use_ops","backends/__init__.py: use_ops"),("data_validation","util.py: data_validation"),("PyTorch parameters","shims/pytorch.py: PyTorchShim.use_params")],
 ["Model.get_param","operators on Model","get_current_ops","Model.initialize under validation"])
p("C04","Model graph traversal and editing stay consistent",
 "Walking a model yields every distinct node reachable from it exactly once, in the requested breadth-first, pre-order or post-order. Replacing a node replaces every occurrence of it in layer lists and references; removing a node removes every occurrence and clears exactly the references that no longer point into their node's own subtree; references can only be set to nodes of the node's own subtree.",
 ["programs","histories"],"All acyclic model graphs with shared nodes and references, and all sequences of set/replace/remove/append/wrap operations on them.",
 "Tests use a few hand-built trees of depth three; diamonds, repeated siblings, unset references and sequences of edits are not covered.",
 ["model.py"],
 [("walk","model.py: Model.walk"),("remove_node","model.py: Model.remove_node"),("replace_node","model.py: Model.replace_node"),("set_ref","model.py: Model.set_ref"),("wrap_model_recursive, set_dropout_rate, change_attr_values","model.py")],
 ["Model.walk","Model.layers","Model.get_ref","Model.ref_names","Model.has_ref"])
p("C05","Copies are equal, structurally identical and independent",
 "Copying a model (or repeating it by cloning) yields a model with the same structure, sharing pattern, dimensions, attributes, parameters, gradients and references, whose nodes all have identities that were never used before. Any later operation on the original leaves the copy unchanged and vice versa.",
 ["programs","histories"],"All model graphs with shared layers, set and unset parameters, gradients and references, followed by arbitrary mutations on either side.",
 "Tests copy single layers and compare one parameter; sharing patterns, gradients, references and later mutations are not explored.",
 ["model.py","layers/clone.py"],
 [("copy","model.py: Model.copy / _copy"),("clone","layers/clone.py: clone"),("unique ids","model.py: Model.global_id")],
 ["Model.copy","clone","Model.id","Model.get_param","Model.get_grad","Model.attrs","Model.walk"])
p("C06","Serialization restores the state exactly or refuses",
 "Loading what a structurally identical model saved, through bytes, a file or the in-memory dictionary, restores exactly the dimensions, attributes, parameters (including which are unset) and references of every node. The compatibility test answers yes only if such a load succeeds and, in strict mode, only if it also changes no name and no existing attribute; loading data from a model with a different number of nodes, with dimension names that are not registered or, where set on both sides, different dimension values is rejected, and the compatibility test also says no to unregistered parameter names and different parameter shapes.",
 ["programs","histories","inputs"],"All pairs of model graphs that differ in nothing or in one structural aspect, all partial parameter states, all three transports, strict and non-strict.",
 "Tests round-trip a few initialised models; partially initialised, shared, or mismatching targets are sampled by one or two cases.",
 ["model.py","shims/shim.py","shims/pytorch.py"],
 [("to_dict/from_dict","model.py: Model.to_dict, Model.from_dict"),("to_bytes/to_disk","model.py"),("can_from_dict","model.py: Model.can_from_dict")],
 ["Model.to_bytes","Model.from_bytes","Model.to_disk","Model.from_disk","Model.to_dict","Model.from_dict","Model.can_from_bytes","Model.can_from_dict"])
p("C07","Dimensions, parameters, gradients and references report their true state",
 "For every node, the membership query distinguishes unregistered, registered but unset, and set; retrieval returns the last value set when it is set and raises otherwise; the optional retrieval returns nothing instead of raising. A dimension that has a value can only be changed by force and while no parameter is set, a refused change leaves everything as it was, and no operation on one node changes the state of another.",
 ["histories","programs"],"All sequences of set/force-set/unset/get/has operations over several nodes and names.",
 "Tests check single transitions of the state; sequences such as set, unset, set or operations that raise half-way are not explored.",
 ["model.py","backends/_param_server.py"],
 [("dims","model.py: has_dim/get_dim/set_dim/maybe_get_dim"),("params","model.py: has_param/get_param/set_param"),("grads","model.py: has_grad/get_grad/set_grad/inc_grad"),("refs","model.py: has_ref/get_ref/set_ref")],
 ["the has_*/get_*/maybe_get_*/set_* methods and *_names of Model"])
p("C08","Conversions between sequence containers lose nothing",
 "Converting a batch of sequences to its flattened, ragged, padded or dense form and back returns exactly the original sequences in the original order, for any mixture of lengths including zero, with and without padding. The metadata of the converted form (lengths, batch size per step, original positions, zero padding) describes exactly those sequences, and the backward pass of a conversion layer is the inverse conversion.",
 ["inputs"],"All batches of sequences with any lengths (including empty ones), widths and supported element types, any padding amount or rounding.",
 "Tests use two or three fixed batches; empty sequences, ties in length, padding with dtype and dimensionality combinations are not covered.",
 ["backends/ops.py","backends/numpy_ops.pyx","layers/list2ragged.py","layers/ragged2list.py","layers/list2padded.py","layers/padded2list.py","layers/list2array.py"],
 [("flatten/unflatten","backends/ops.py: Ops.flatten, Ops.unflatten"),("pad/unpad","backends/ops.py"),("list2padded/padded2list","backends/ops.py"),("conversion layers","layers/")],
 ["Ops.flatten","Ops.unflatten","Ops.pad","Ops.unpad","Ops.list2padded","Ops.padded2list","layer outputs and callbacks"])
p("C09","Indexing a batch selects exactly the indexed sequences",
 "Indexing a ragged, padded or paired batch by an integer, a slice, an array of positions or a boolean mask returns exactly the selected sequences with their data, lengths and original positions (a padded batch stays ordered by decreasing length), keeps the inner shape, and leaves the source unchanged. An out-of-range integer raises, and argument containers reproduce the positional and keyword items they were built from.",
 ["inputs"],"All lengths vectors (including zeros), all integers, slices with any start/stop/step, index arrays with repeats and negatives, masks, and inner shapes.",
 "Tests index one batch with one integer, one slice and one array and compare shapes.",
 ["types.py"],
 [("Ragged.__getitem__","types.py: Ragged"),("Padded.__getitem__","types.py: Padded"),("Pairs.__getitem__","types.py: Pairs"),("ArgsKwargs","types.py: ArgsKwargs")],
 ["Ragged[index]","Padded[index]","Pairs[index]","ArgsKwargs methods"])
p("C10","Reductions and windows treat each sequence on its own, forward and backward",
 "Reducing a ragged batch (sum, mean, max, first, last) yields one row per sequence that depends only on that sequence's rows, with a zero row for an empty sequence where the reduction is defined on it, and window features of a row contain exactly the neighbouring rows of the same sequence with zeros beyond its ends. Each backward pass is the exact transpose of its forward pass; lengths that do not match the data are rejected.",
 ["inputs"],"All length vectors (including zeros and inconsistent ones), widths, window sizes and data, both precisions, with and without explicit lengths, on the optimised and on the generic backend.",
 "Tests use hypothesis only on shapes and a few fixed lengths; isolation between sequences and the exact transpose are not compared for all length patterns.",
 ["backends/ops.py","backends/numpy_ops.pyx","backends/cpu_kernels.hh","layers/reduce_sum.py","layers/reduce_mean.py","layers/reduce_max.py","layers/reduce_first.py","layers/reduce_last.py","layers/expand_window.py"],
 [("reduce_* and backprop_reduce_*","backends/cpu_kernels.hh"),("seq2col","backends/cpu_kernels.hh"),("layers","layers/reduce_*.py")],
 ["Ops.reduce_*","Ops.backprop_reduce_*","Ops.seq2col","Ops.backprop_seq2col","reduction layers"])
p("C11","Wrapped layers give the same result for every representation of a batch",
 "A layer wrapped to accept several batch representations (list, ragged, padded, array, raw tuple, nested list, reshaped) returns, in the representation it was given, the same values per sequence as for every other representation, and its backward pass returns the same input and parameter gradients per sequence in that representation. Adding or reordering sequences in the batch does not change the result for a sequence.",
 ["inputs","programs"],"All wrappers around row-wise and sequence-wise inner layers, all batches (lengths including zero where the representation allows), all representations.",
 "Tests compare the representations on one batch with no-op inner layers.",
 ["layers/with_array.py","layers/with_array2d.py","layers/with_list.py","layers/with_padded.py","layers/with_ragged.py","layers/with_flatten.py","layers/with_flatten_v2.py","layers/with_reshape.py","layers/with_getitem.py","layers/with_cpu.py"],
 [("representation dispatch","layers/with_*.py: forward"),("conversions","backends/ops.py")],
 ["wrapped layer outputs, callbacks and gradients"])
p("C12","Embedding lookups and their sparse gradients address exactly the named rows",
 "An embedding returns for each id exactly the row (or, hashed, the sum of the rows) determined by that id, the same in every batch and process, and its gradient adds each output gradient to exactly those rows and nothing else, repeated ids adding up. Id remapping applies the table with the default for unknown ids, hashing and n-gram features are the documented hash functions of their input, and an out-of-range id is rejected.",
 ["inputs","histories"],"All id batches (empty, repeated, 64-bit), seeds, table sizes and mapping tables; sparse feature batches of any lengths; premapped tables.",
 "Tests check shapes, one or two lookups and that a loss decreases.",
 ["layers/embed.py","layers/hashembed.py","layers/remap_ids.py","layers/premap_ids.pyx","layers/sparselinear.pyx","layers/strings2arrays.py","layers/uniqued.py","backends/numpy_ops.pyx","backends/ops.py","backends/cpu_kernels.hh"],
 [("hash","backends/numpy_ops.pyx: NumpyOps.hash"),("gather_add/scatter_add","backends/numpy_ops.pyx, cpu_kernels.hh"),("remapping","layers/remap_ids.py, layers/premap_ids.pyx"),("sparse linear","layers/sparselinear.pyx")],
 ["Embed","HashEmbed","SparseLinear","remap_ids","premap_ids","Ops.hash","Ops.ngrams","Ops.gather_add","Ops.scatter_add"])
p("C13","Minibatching yields every item exactly once, aligned, in every pass",
 "One pass over a minibatch iterator yields every item of the input exactly once, in order unless shuffled and in some permutation if shuffled, in batches of the requested sizes except possibly the last; parallel sequences stay aligned and keep their container type. Its reported length is the number of batches it yields, and it can be iterated again with the same guarantee, also when the batch size is a schedule.",
 ["inputs","histories","configurations"],"All sequence lengths, batch sizes and size schedules, buffer sizes, shuffling on and off, container types, and repeated or interrupted passes.",
 "Tests check a few lengths divisible or not by the size and one shuffled pass.",
 ["backends/ops.py","types.py","util.py"],
 [("minibatch","backends/ops.py: Ops.minibatch"),("multibatch","backends/ops.py: Ops.multibatch"),("SizedGenerator","types.py: SizedGenerator"),("_get_batch_sizes","backends/ops.py")],
 ["Ops.minibatch","Ops.multibatch"])
p("C14","Schedules are the documented function of the step and the score history",
 "Every stateless schedule returns, for any step queried in any order and any number of times, the documented value for that step; composed and wrapped schedules return what their parts return at the corresponding step. A plateau schedule decays exactly when the best score has not improved for the configured patience, and generator-backed schedules return the values in order, the same value for repeated queries of one step, and the last value after exhaustion where so documented.",
 ["histories","inputs","configurations"],"All parameter settings, all non-decreasing step sequences with repeats and gaps, all score histories, nested compositions.",
 "Tests compare the first few values of each schedule; order, repetition, gaps and histories of scores are not explored.",
 ["schedules.py","optimizers.py"],
 [("schedules","schedules.py"),("generator wrapper","optimizers.py: _wrap_generator"),("plateau","schedules.py: plateau")],
 ["Schedule.__call__","Schedule.to_generator","Optimizer schedule attributes"])
p("C15","The optimizer applies the documented update to exactly the given parameter",
 "Every optimizer call changes the given weights by exactly the documented rule (SGD, Adam, RAdam; L2 as gradient or weight decay; clipping by norm; learning-rate scale; moving average) using the schedule values of the current step and the history of that parameter's own key, and zeroes the gradient. State of different keys is independent, the step advances only when asked, and the recorded averages are the documented running average of the weights after each update.",
 ["histories","configurations","inputs"],"All settings of the options and all interleavings of updates of several keys, step advances and score reports.",
 "Tests check that an update changes weights and that defaults parse; the values of the update and the interplay of options over several steps and keys are not compared.",
 ["optimizers.py","backends/ops.py","backends/numpy_ops.pyx"],
 [("update rule","optimizers.py: Optimizer.__call__, _adam, _radam"),("kernel","backends/numpy_ops.pyx: adam"),("clipping and averages","backends/ops.py: clip_gradient, update_averages")],
 ["Optimizer.__call__","Optimizer.averages","Optimizer.step","Optimizer.last_score"])
p("C16","Losses and their gradients honour masks, smoothing and normalization",
 "For every loss, the gradient is the documented function of guesses and truths: zero exactly where a truth is missing, negated labels give no positive evidence, smoothed labels sum to one, and it is divided by the batch size exactly when normalization is on; the loss value is the documented function of that gradient. A sequence loss returns per sequence exactly what the same loss returns for that sequence in the batch, and truths given as class ids, strings or one-hot rows are equivalent.",
 ["inputs","configurations"],"All guesses on an exact grid, all truth encodings including missing and negative ones, all option combinations, all sequence partitions.",
 "Tests check a few fixed matrices per option; combinations of masks, smoothing, normalization and sequence splitting are not covered.",
 ["loss.py","util.py"],
 [("CategoricalCrossentropy","loss.py"),("SequenceCategoricalCrossentropy","loss.py"),("L2Distance","loss.py"),("CosineDistance","loss.py"),("to_categorical","util.py")],
 ["loss(guesses, truths)","loss.get_grad","loss.get_loss","to_categorical"])
p("C17","Dropout masks are consistent and never applied at prediction time",
 "At prediction time, when disabled or with rate zero, dropout returns its input unchanged. In training every element is either zeroed or scaled by the inverse of the keep probability, the backward pass multiplies the gradient by exactly the same factors, drawn anew for every pass, and setting the rate on a model changes exactly the nodes that have one; input and gradient arrays are left unmodified.",
 ["inputs","histories","configurations"],"All containers (array, list, ragged, padded), rates, enabled states and interleavings of several training batches with predictions.",
 "Tests check all-or-nothing rates and shapes for one batch.",
 ["layers/dropout.py","backends/ops.py","model.py","layers/relu.py","layers/maxout.py","layers/embed.py","layers/hashembed.py"],
 [("dropout layer","layers/dropout.py"),("mask","backends/ops.py: get_dropout_mask"),("rate setting","model.py: set_dropout_rate")],
 ["Dropout forward and callback","set_dropout_rate","layers with a dropout option"])
p("C18","Initialization infers exactly the dimensions the data implies",
 "Initializing a composed model from sample data, from the dimensions already given, or both sets every dimension that they determine to the width that flows through that layer, allocates every parameter with the shape its dimensions imply using the given initializers, and changes no dimension when repeated. A missing or contradictory dimension raises, at initialization or at the latest in the first pass, and sums never broadcast silently; resizing an output layer keeps the existing rows and their outputs.",
 ["programs","configurations","inputs"],"All compositions with any subset of dimensions given, with X only, Y only, both or none, in all containers.",
 "Tests initialise a few two-layer models with both X and Y.",
 ["model.py","layers/chain.py","layers/add.py","layers/concatenate.py","layers/residual.py","layers/linear.py","layers/maxout.py","layers/resizable.py","layers/softmax.py","util.py"],
 [("init functions","layers/*.py: init"),("get_width","util.py: get_width"),("resizable","layers/resizable.py")],
 ["Model.initialize","Model.get_dim","Model.get_param","resize callback"])
p("C19","Passes are pure: inputs, gradients and other batches are left alone",
 "A forward pass changes neither its input, nor the parameters, nor the gradients; prediction gives the same output as the training-time forward pass of a model without dropout, and repeating it gives the same output. A backward callback changes neither the gradient it was given nor arrays of other batches, and callbacks of several batches may be called in any order with the same results as if each batch had been run alone.",
 ["histories","schedules","programs"],"All layer expressions and containers, several batches in flight, all interleavings of forward, predict and backward.",
 "Tests run one batch at a time and never look at the inputs afterwards.",
 ["layers/chain.py","layers/add.py","layers/concatenate.py","layers/residual.py","layers/tuplify.py","layers/maxout.py","layers/layernorm.py","layers/lstm.py","layers/embed.py","backends/numpy_ops.pyx"],
 [("closure state per call","layers/*.py: forward"),("no in-place updates of caller-owned arrays","layers/*.py, backends/ops.py")],
 ["arrays passed in and returned by begin_update, predict and callbacks"])
p("C20","Activation operations agree across variants and are true derivatives",
 "For each activation the in-place and out-of-place variants, both precisions, contiguous and strided inputs and the optimised and generic backends agree, and the piecewise-linear ones return exactly the documented values. Each backward operation returns the upstream gradient times the derivative of the forward operation, to within the stated tolerance for smooth activations, and softmax rows are distributions that do not depend on other rows.",
 ["inputs","configurations"],"All activations, shapes, precisions, strides, in-place flags, and inputs on a fine grid including the break points and saturated tails.",
 "Tests compare most activations against PyTorch on random contiguous arrays; in-place, strided, tail and cross-backend combinations are not enumerated.",
 ["backends/ops.py","backends/numpy_ops.pyx","backends/cpu_kernels.hh"],
 [("activations and backprop_*","backends/ops.py"),("optimised versions","backends/numpy_ops.pyx, cpu_kernels.hh")],
 ["Ops activation methods","activation layers"])
p("C21","A wrapped PyTorch module trains, saves and substitutes like a native layer",
 "Calling a wrapped module converts data in both directions without changing it, returns exactly the module's output, and its callback returns exactly the gradients that the module's computation has for its tensor inputs, adding parameter gradients until the next update. An update applies the optimizer once to every parameter with a gradient, saving and loading restores the module's parameters, temporary parameters are undone, and training and evaluation mode follow the call.",
 ["histories","programs","inputs"],"All interleavings of training calls, callbacks, updates, predictions, save/load and temporary parameters, with positional, keyword and nested inputs.",
 "Tests train one step of one linear module.",
 ["shims/pytorch.py","layers/pytorchwrapper.py","util.py"],
 [("shim","shims/pytorch.py: PyTorchShim"),("argument conversion","layers/pytorchwrapper.py, util.py: convert_recursive")],
 ["PyTorchWrapper forward and callback","finish_update","to_bytes/from_bytes","use_params"])
p("C22","Threads do not disturb each other's models or settings",
 "Models created concurrently in any number of threads never share an identity. Backend selection, operator overloads and validation settings made inside a scope in one thread are not visible in another, and predictions, training passes and temporary-parameter scopes on different models running concurrently give the results they would give alone.",
 ["schedules"],"All interleavings of model creation, scope entry and exit, and passes in several threads.",
 "One test starts a thread and reads one setting; interleavings are not controlled.",
 ["model.py","backends/__init__.py","util.py"],
 [("id lock","model.py: Model.global_id_lock"),("context variables","model.py, backends/__init__.py, util.py")],
 ["Model.id","get_current_ops","operators on Model","data validation"])
p("C23","Recurrent layers process each sequence independently in time order",
 "The output of a recurrent layer for a sequence depends only on that sequence's own steps up to the current one and the layer's parameters, not on the other sequences of the batch, their order or the amount of padding; padding positions contribute nothing to any gradient. Outputs are those of the LSTM equations and the callback returns the gradients of these equations, for any number of layers, one or two directions, and every representation of the batch.",
 ["inputs","programs"],"All batches of sequences with any mixture of lengths, one or several stacked layers, one or two directions, all parameter values including saturating ones, on both backends and through PyTorch.",
 "Tests check shapes and a few fixed values for one batch.",
 ["layers/lstm.py","backends/ops.py","backends/numpy_ops.pyx","layers/with_padded.py"],
 [("lstm forward/backward","backends/numpy_ops.pyx, backends/ops.py"),("padding","backends/ops.py: list2padded")],
 ["LSTM","with_padded(LSTM)"])
p("C24","Layers compute their documented function and its gradient",
 "Dense layers with every activation and option, softmax outputs with temperature, several softmax outputs side by side, layer normalization, parametric attention with and without a key transformation, and Cauchy similarity return the documented function of their input and parameters, for each row (or sequence) on its own, alone or chained, in training and at prediction. The callback returns the gradient of that function with respect to the input and adds exactly its gradient with respect to each parameter (softmax output layers take the gradient of their scores), and scores that were not normalized cannot be trained on.",
 ["inputs","programs","configurations"],"All chains of these layers, parameter values, temperatures and options, batches in all representations including empty sequences, both backends, and interleavings of several passes.",
 "Tests check shapes, one or two forward values and that a loss decreases; parameter gradients of most of these layers are compared with nothing.",
 ["layers/mish.py","layers/gelu.py","layers/swish.py","layers/hard_swish.py","layers/hard_swish_mobilenet.py","layers/dish.py","layers/clipped_linear.py","layers/sigmoid.py","layers/softmax.py","layers/multisoftmax.py","layers/layernorm.py","layers/parametricattention.py","layers/parametricattention_v2.py","layers/cauchysimilarity.py","layers/softmax_activation.py","layers/sigmoid_activation.py"],
 [("forward/backprop closures","layers/*.py: forward"),("sequence softmax","backends/ops.py: softmax_sequences, backprop_softmax_sequences"),("moments","layers/layernorm.py: _get_moments, _get_d_moments")],
 ["Model.begin_update","Model.predict","returned callback","Model.get_grad"])
p("C25","Array operations return exactly the documented array for every layout and size",
 "Matrix products with every combination of transposition and optional output array, affine maps, tiling, allocation, conversion, copying, reshaping and one-hot encoding return exactly the documented values, shape and data type, whatever the memory layout, precision and size (including zero) of the operands, on every CPU backend. Operands that do not fit are refused, operands and refused output arrays are left as they were, and recursive conversion and width inference treat exactly the matching leaves of nested containers.",
 ["inputs","configurations"],"All shapes including empty ones, strided, transposed, reversed and broadcast views, both precisions, output arrays that fit or not, backends with and without BLIS, and nested containers of arrays.",
 "Tests call gemm, the allocators and the converters on a few contiguous arrays.",
 ["backends/ops.py","backends/numpy_ops.pyx","util.py"],
 [("gemm, affine, tile, alloc*, as*, reshape*","backends/ops.py, backends/numpy_ops.pyx"),("conversion and inference","util.py: convert_recursive, to_categorical, get_width, xp2torch")],
 ["Ops methods","thinc.util functions"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert x['statement'].count('. ')<=2, x['id']
