#!/usr/bin/env python3
"""Writes properties.jsonl (the list lives here so that it stays readable)."""
import json
N = "prima_undine/src/devices/naive/"
F = "prima_undine/src/functions/"
O = "prima_undine/src/operators/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Elementwise arithmetic and activations compute their mathematical function",
  "Addition, subtraction, multiplication, division, powers, negation and the elementwise functions (sqrt, abs, sin, cos, tan, exp, ln, tanh, sigmoid, softplus, relu, leaky relu, prelu, elu) give, at every element, the mathematical value of that function up to 32-bit rounding, also for large and small finite magnitudes. This holds for tensor-tensor, tensor-constant and scalar-tensor operands in either order and ownership, and a minibatch of one is repeated over the other operand's minibatch.",
  ["inputs"], "every finite operand value in the function's domain, every tensor shape, every pairing of operand kinds and minibatch sizes",
  "unit tests compare a dozen fixed elements per function at one or two shapes; they do not reach other shapes, scalar operands with minibatches on either side, large magnitudes, or all operator-overload variants",
  [F+"arithmetic/tensor.rs", F+"basic/tensor.rs", N+"common.rs", N+"add.rs", N+"powf.rs", N+"powi.rs"],
  [("kernel macros looping over minibatch and volume", N+"common.rs"), ("operator overloads choosing the scalar or elementwise kernel", F+"arithmetic/tensor.rs"), ("per-function kernels", N+"*.rs")],
  ["Device::tensor_to_vector of the result tensor"])
p("C02", "In-place += and -= accumulate exactly, with minibatch expansion and reduction",
  "Adding or subtracting a tensor in place changes the target by exactly the operand, element by element; a minibatch-of-one operand is applied to every sample of the target, and a minibatch-of-one target receives the sum over the operand's samples. Multiplying a tensor in place by a constant scales every element; nothing else changes.",
  ["inputs", "histories"], "every shape, every pair of compatible minibatch sizes, every sequence of in-place updates",
  "tests cover a single update of small tensors with one minibatch pairing each, not sequences nor other shapes",
  [N+"add_assign.rs", N+"sub_assign.rs", N+"mul_assign.rs", F+"arithmetic/tensor.rs", F+"arithmetic/device.rs"],
  [("minibatch skip in the in-place kernels", N+"add_assign.rs"), ("AddAssign/SubAssign/MulAssign overloads", F+"arithmetic/tensor.rs")],
  ["values of the target and the operand after each update"])
p("C03", "Reductions and the softmax family match their definitions along any dimension",
  "Sum, max, min, log-sum-exp, broadcast, softmax, log-softmax and (sparse) softmax cross entropy along any dimension equal their mathematical definition evaluated over that dimension, per sample, up to 32-bit rounding, without overflow for finite inputs of large magnitude.",
  ["inputs"], "every tensor shape up to eight dimensions, every dimension index (also past the depth), every minibatch size, every finite content",
  "tests use one or two 3-d shapes with extents of 2 to 3 and small values",
  [N+"sum.rs", N+"max.rs", N+"min.rs", N+"logsumexp.rs", N+"broadcast.rs", F+"basic/device.rs", F+"basic/tensor.rs"],
  [("stride arithmetic over the reduced dimension", N+"sum.rs"), ("running maximum in log-sum-exp", N+"logsumexp.rs"), ("softmax family composed from log-sum-exp, broadcast and pick", F+"basic/tensor.rs")],
  ["Device::tensor_to_vector of the result tensor"])
p("C04", "Matrix product, transpose and triangular parts equal their definition",
  "The matrix product, the transpose, the identity matrix and the lower/upper triangular parts with any diagonal offset equal their textbook definition per sample, for any extents (vectors and scalars count as matrices with extent one) and with minibatch repetition of either operand.",
  ["inputs"], "every pair of conforming matrix shapes including extents around and above the kernel's block sizes, every minibatch pairing, every diagonal offset",
  "tests multiply a few small matrices, so block boundaries, rectangular extents, and offsets beyond the matrix are not reached",
  [N+"matmul.rs", N+"transpose.rs", N+"triangular_l.rs", N+"triangular_u.rs", N+"identity.rs"],
  [("blocked product loop", N+"matmul.rs"), ("offset comparison per element", N+"triangular_l.rs")],
  ["Device::tensor_to_vector of the result tensor"])
p("C05", "Slicing, picking, concatenation, reshaping and minibatch moves are exact",
  "Slice, split, pick, concat, reshape, flatten, flip, dimension permutation and their minibatch counterparts place exactly the selected elements at the positions their definition states, bit for bit, in first-dimension-fastest order per sample. Splitting and concatenating back, flipping twice and permuting back restore the original tensor.",
  ["inputs"], "every shape, dimension, range, id list (including repeated ids, one id for a whole minibatch, several ids for a minibatch of one) and operand count",
  "tests fix a handful of shapes and id lists and mostly one operand order",
  [N+"slice.rs", N+"pick.rs", N+"concat.rs", N+"batch_slice.rs", N+"batch_pick.rs", N+"batch_concat.rs", N+"batch_sum.rs", N+"flip.rs", N+"permute_dims.rs", F+"basic/device.rs"],
  [("offset and skip arithmetic in the copy kernels", N+"slice.rs"), ("shape rules deciding the result layout", "prima_undine/src/shape_ops.rs")],
  ["Device::tensor_to_vector of each result"])
p("C06", "Argmax, argmin and argsort return correct positions, first among ties",
  "Argmax and argmin return, per line of the chosen dimension and per sample in order, the smallest index at which the extreme value occurs. Argsort returns, at each position of every line along the dimension, the flat index of the element that belongs there when that line is sorted in ascending order, so that each line of indices is a permutation of the line's own positions.",
  ["inputs"], "every shape, dimension and finite content, with and without ties",
  "tests use one tensor of distinct values per function",
  [N+"argmax.rs", N+"argmin.rs", N+"argsort.rs"],
  [("strict comparison keeps the first extreme", N+"argmax.rs"), ("index sort", N+"argsort.rs")],
  ["the returned index vectors"])
p("C07", "Gradients of elementwise operations are the true derivatives",
  "Back-propagating any incoming gradient through an elementwise operation adds to each operand's gradient exactly the vector-Jacobian product of that operation, up to 32-bit rounding; where operands were repeated (scalar operand or minibatch of one) the contributions are summed. Existing gradient content of the operand is added to, never overwritten. At a corner (abs, ReLU, leaky ReLU, PReLU or ELU at zero) any value between the one-sided derivatives counts.",
  ["inputs"], "every elementwise operation, operand kind and order, shape, minibatch pairing, incoming gradient and prior gradient content",
  "kernel-level tests use one fixed shape and upstream gradient; the graph operators that route to the kernels have no gradient tests",
  [N+"common.rs", O+"common.rs", O+"elu.rs", O+"neg.rs", F+"arithmetic/node.rs", N+"powf.rs", N+"div.rs"],
  [("backward kernels accumulate into the operand gradient", N+"common.rs"), ("graph operators select the kernel", "prima_undine/src/operators.rs")],
  ["gradient tensors passed to the leaf operators"])
p("C08", "Gradients of reductions, softmax and losses are the true derivatives",
  "Back-propagating any incoming gradient through sum, max, min, log-sum-exp, broadcast, softmax, log-softmax and (sparse) softmax cross entropy adds to the operand's gradient the vector-Jacobian product along the reduced dimension, up to 32-bit rounding. For max and min with ties, the incoming gradient goes to elements attaining the extreme and its total is preserved.",
  ["inputs"], "every shape, dimension (also past the depth), minibatch pairing, content and incoming gradient; for dense cross entropy, targets normalised along the dimension",
  "tests cover one 3-d shape per kernel and no graph-level gradients of the composed losses",
  [O+"sum.rs", O+"max.rs", O+"logsumexp.rs", O+"softmax_cross_entropy.rs", O+"broadcast.rs", N+"max.rs"],
  [("backward passes of the reducing operators", O)], ["gradient tensors passed to the leaf operators"])
p("C09", "Gradients of matrix, movement and minibatch operations are true derivatives",
  "Back-propagating any incoming gradient through the matrix product, transpose, triangular parts, slice, split, pick, concat, reshape, flatten and the minibatch operations adds to each operand's gradient the vector-Jacobian product: elements used several times receive the sum, unused elements receive nothing. Operations with several outputs route each output's gradient to the part it came from.",
  ["inputs"], "every shape, dimension, range, id list with repetitions, operand count, minibatch pairing and incoming gradient",
  "several of these graph operators' backward passes are never executed by a test",
  [N+"slice.rs", N+"pick.rs", N+"batch_slice.rs", N+"batch_pick.rs", N+"matmul.rs", O+"concat.rs", O+"split.rs", O+"batch_split.rs", O+"batch_concat.rs", F+"basic/device.rs"],
  [("backward passes of the moving operators", O), ("routing of backward kernel names", F+"basic/device.rs")],
  ["gradient tensors passed to the leaf operators"])
p("C10", "Back-propagation is correct on every computation graph",
  "For any acyclic graph of operations, with values shared by several users, unused branches and multi-output operations used partly, calling backward on a value leaves in every input it depends on the gradient of the sum of that value's elements. Values it does not depend on contribute nothing and receive nothing.",
  ["programs", "inputs"], "every acyclic composition of the operations over any inputs and any choice of root",
  "tests build a few hand-made expressions; order of processing and sharing patterns form an unbounded space",
  ["prima_undine/src/graph.rs", O, F+"basic/node.rs", F+"arithmetic/node.rs"],
  [("depth-ordered processing of reached operators", "prima_undine/src/graph.rs backward()"), ("seeding and lazy allocation of gradients", "prima_undine/src/graph.rs backward()")],
  ["Parameter gradients", "Node::inner_gradient"])
p("C11", "Parameter gradients accumulate across graphs and are only cleared on request",
  "Every backward pass adds its gradient to each parameter used, on top of what earlier passes over the same or other graphs left there. Gradients return to zero only by an explicit reset or an optimizer update, and parameters not used by a pass keep their gradient unchanged.",
  ["histories"], "every sequence of building graphs over shared parameters, running backward (also repeatedly and on several roots), resetting and updating",
  "tests run at most one or two passes over one parameter",
  ["prima_undine/src/graph.rs", O+"parameter.rs", "prima_undine/src/parameter.rs", "prima_undine/src/optimizer.rs"],
  [("parameter operator adds its gradient into the parameter", O+"parameter.rs"), ("reset_gradient", "prima_undine/src/parameter.rs")],
  ["Parameter::gradient after each step"])
p("C12", "Lazy graph evaluation equals eager tensor evaluation",
  "For any expression, the shape of each lazily built value is known before evaluation and equals the shape the eager computation yields, and evaluating it gives bit for bit the numbers the eager tensor functions give for the same inputs.",
  ["programs", "inputs"], "every expression in the shared operation vocabulary, every ownership variant of operands",
  "the graph functions are only tested on a few operations",
  [F+"basic/node.rs", F+"arithmetic/node.rs", O, "prima_undine/src/graph.rs", F+"basic/tensor.rs"],
  [("shape inference of each operator", O+"*.rs forward_shape"), ("graph functions building operators", F+"basic/node.rs")],
  ["Node shape before and value after forward", "Device::tensor_to_vector"])
p("C13", "Each operation is evaluated at most once, on demand, operands first",
  "Evaluating a value runs exactly the operations it depends on that have not run yet, each once, after all of its operands; evaluating again runs nothing and leaves values unchanged. A backward pass visits each operation the root depends on exactly once, after every user of its outputs among them.",
  ["programs", "schedules"], "every graph and every order of forward and backward requests on its nodes",
  "no test counts evaluations or inspects their order",
  ["prima_undine/src/graph.rs"],
  [("forwarded flag and depth-ordered heap", "prima_undine/src/graph.rs forward()"), ("depth-ordered heap", "prima_undine/src/graph.rs backward()")],
  ["calls observed by user-defined operators inserted in the graph"])
p("C14", "A minibatch computation equals the per-sample computations",
  "Evaluating any expression on inputs with minibatches gives for each sample what the same expression gives on that sample alone, whatever samples accompany it; parameter gradients of the minibatch are the sum of the per-sample gradients.",
  ["programs", "inputs"], "every expression over sample-wise operations, every minibatch size, every mixture of batched and unbatched inputs",
  "tests have fixed minibatches of two or three samples on single operations",
  [N, "prima_undine/src/shape.rs", "prima_undine/src/graph.rs"],
  [("minibatch skip arithmetic in every kernel", N)], ["values and gradients of the batched and the per-sample runs"])
p("C15", "Optimizers follow their published update rules over any history",
  "After any sequence of gradients and updates, SGD, momentum SGD and Adam have moved every registered parameter by their update rule applied step by step from its gradient, with statistics kept per parameter and the epoch counted per update; each update then clears the gradient. Parameters that were not added to the optimizer never change.",
  ["histories", "configurations"], "every optimizer and hyper-parameter setting, every set of parameter shapes, every gradient history",
  "tests run two or three steps on one parameter with default settings",
  ["prima_undine/src/optimizer.rs", "prima_undine/src/optimizers.rs", "prima_undine/src/optimizers/adam.rs", "prima_undine/src/optimizers/sgd.rs"],
  [("update loop over registered parameters", "prima_undine/src/optimizer.rs update()"), ("update rules", "prima_undine/src/optimizers/")],
  ["Parameter value, gradient and statistics after each update"])
p("C16", "Weight decay, clipping and learning-rate scaling act as documented",
  "Weight decay adds strength times the value to every gradient before anything else; gradient clipping rescales all gradients together so that their joint Euclidean norm does not exceed the threshold, leaving them alone when it already does not; learning-rate scaling multiplies the step. A strength or threshold of zero switches the feature off; a negative one, or a negative scaling, is refused and changes no setting.",
  ["inputs", "configurations"], "every combination of settings, every set of parameters and gradients, norms below, at and above the threshold",
  "tests do not combine these settings over several parameters",
  ["prima_undine/src/optimizer.rs", "prima_undine/src/optimizers.rs"],
  [("decay and clipping ahead of the update loop", "prima_undine/src/optimizer.rs update()")],
  ["Parameter value after one update"])
p("C17", "Shapes are canonical and their arithmetic is exact",
  "Two shapes are equal exactly when they agree in every dimension (absent dimensions count as one) and in minibatch size; extents, depth, volume, lower volume, total size, equality up to one dimension, and dimension or minibatch updates agree with exact integer arithmetic on the list of extents. A shape whose element count does not fit the index type, that has a zero extent, or that has too many dimensions is refused rather than wrapped.",
  ["inputs", "histories"], "every list of up to eight extents, minibatch size and sequence of updates",
  "tests list a few example shapes; none is near the representable limit",
  ["prima_undine/src/shape.rs", "prima_undine/src/shape_ops.rs"],
  [("trimming of trailing ones and volume computation", "prima_undine/src/shape.rs")], ["Shape accessors"])
p("C18", "Calls are accepted exactly when their operands are well-formed",
  "Every tensor and graph operation accepts operands exactly when their shapes, minibatch sizes, dimension indices, ranges and ids satisfy the documented rule, and otherwise refuses with a panic (for lazily built values at the latest when evaluated) instead of computing anything. The result shape of an accepted call is the documented one.",
  ["inputs"], "every operation with well-formed and ill-formed operands, near the acceptance boundary",
  "tests have a few should_panic examples per shape rule and none for most operations",
  ["prima_undine/src/shape_ops.rs", F+"basic/device.rs", F+"arithmetic/device.rs", O],
  [("shape rules", "prima_undine/src/shape_ops.rs"), ("assertions ahead of each kernel call", F+"basic/device.rs")],
  ["whether the call panics", "Tensor shape"])
p("C19", "Device buffers are owned exclusively, recycled safely and released exactly once",
  "At any time distinct live tensors that own memory own distinct, non-overlapping buffers of at least their size; a released buffer may be handed out again only after its owner dropped it; every buffer obtained from the backend is returned to it exactly once, at the latest when the device is dropped. Memory in use follows the live tensors and does not grow over repeated identical work.",
  ["histories"], "every sequence of allocations and releases of any sizes, including graphs and optimizers running on the device",
  "the pool has a few example tests of fixed allocation sequences",
  ["prima_undine/src/memory_pool.rs", "prima_undine/src/tensor.rs", "prima_undine/src/device.rs", "prima_undine/src/devices/naive.rs"],
  [("size-bucketed free lists", "prima_undine/src/memory_pool.rs"), ("Drop of Tensor", "prima_undine/src/tensor.rs")],
  ["calls received by a recording backend"])
p("C20", "Results depend only on inputs, and operations leave their inputs unchanged",
  "Every operation gives the same bits whatever previously occupied the memory it works in, reads nothing outside its operands and writes nothing outside its results; operand tensors are unchanged after it. Repeating a computation in any later state of the process gives the same bits.",
  ["inputs", "histories"], "every operation, shape and prior content of recycled memory",
  "tests run on fresh memory that happens to be clean",
  [N, "prima_undine/src/memory_pool.rs", F],
  [("kernels write every result element before reading it", N)], ["results on a device whose buffers are pre-filled with garbage and surrounded by guard zones"])
p("C21", "A device shared by threads behaves as if each thread had it alone",
  "Threads that share one device and compute on their own or commonly read tensors obtain the results they would obtain alone, without data races on buffers, deadlock or crash, while memory is recycled between them.",
  ["schedules", "histories"], "every interleaving of allocation, computation and release by several threads on one device",
  "all tests are single-threaded",
  ["prima_undine/src/memory_pool.rs", "prima_undine/src/device.rs", N+"random.rs", "prima_undine/src/tensor.rs"],
  [("mutex around the free lists", "prima_undine/src/memory_pool.rs"), ("Send and Sync of Tensor and Device", "prima_undine/src/device.rs")],
  ["results and backend calls per thread"])
p("C22", "Serialised shapes, tensors, parameters and models load back unchanged",
  "Serialising a shape, tensor, parameter or model and deserialising it, in text or binary form, gives back the same shape, values, gradients and statistics bit for bit for all finite numbers; the loaded object can be moved to a device and used like the original.",
  ["inputs"], "every shape, minibatch size and finite content, any number of parameters and statistics",
  "tests round-trip one or two fixed objects",
  ["prima_undine/src/tensor.rs", "prima_undine/src/parameter.rs", "prima_undine/src/shape.rs", "prima_undine/src/model.rs", "prima_undine_derive/src/lib.rs"],
  [("Tensor serialisation through the device", "prima_undine/src/tensor.rs"), ("derived serialisation", "prima_undine/src/parameter.rs")],
  ["values after load and move_to_device"])
p("C23", "Training that is saved and resumed equals uninterrupted training",
  "Saving a model's parameters at any point between updates, loading them on a fresh device and continuing with an optimizer of the same settings set to the same epoch yields bit for bit the same parameters and statistics as never having stopped. Registering the loaded parameters again keeps their saved statistics.",
  ["crash_points", "histories"], "every save point in every training history, every optimizer and setting",
  "no test resumes training from a saved state",
  ["prima_undine/src/optimizers/adam.rs", "prima_undine/src/parameter.rs", "prima_undine/src/model.rs", "prima_undine/src/optimizer.rs"],
  [("statistics stored with the parameter", "prima_undine/src/parameter.rs"), ("epoch is readable and settable, registration skips existing statistics", "prima_undine/src/optimizers/adam.rs")],
  ["parameters after resuming"])
p("C24", "Deriving a model collects exactly the parameters of its fields",
  "For any struct with named fields that are parameters, vectors of parameters, models or vectors of models, deriving the model trait makes moving it to a device and registering it with an optimizer reach every parameter of every field not marked skip exactly once, in any nesting, and touch no skipped field.",
  ["programs"], "every struct definition in that family, including generic parameters, several lifetimes and nested models",
  "tests derive three small structs",
  ["prima_undine_derive/src/lib.rs", "prima_undine/src/model.rs", "prima_undine/src/optimizer.rs"],
  [("field walk in the derive macro", "prima_undine_derive/src/lib.rs"), ("Model for vectors", "prima_undine/src/model.rs")],
  ["which parameters change on an update, which are moved to the device"])
p("C25", "Random tensors and initializers fill every element with their distribution",
  "Bernoulli, uniform and normal tensors and the constant, uniform, normal and Xavier initializers fill every element with a value from the stated distribution and bounds, independently across elements and calls; scale and bounds for Xavier follow the shape.",
  ["inputs", "histories"], "every shape (odd sizes, minibatches), every parameter setting",
  "tests look at one shape and only check that some values were written",
  [N+"random.rs", "prima_undine/src/random.rs", "prima_undine/src/initializers.rs", F+"random"],
  [("randomizer fills the buffer", "prima_undine/src/random.rs"), ("initializers", "prima_undine/src/initializers/")],
  ["moments, bounds and repeats of the drawn values"])
p("C26", "Dropout zeroes or rescales, and only when enabled",
  "With dropout enabled at a rate below one, every output element is either zero or the input divided by the keep probability, dropped with the stated rate, for whole slices at once in the per-dimension form; at rate one everything is zero and when disabled the input passes through unchanged. The gradient flows through kept elements with the same scale and not through dropped ones.",
  ["inputs"], "every shape, rate, dimension choice and switch setting, for tensors and graphs",
  "tests check one shape and rate, and no gradient",
  ["prima_undine_contrib/src/functions/contrib/tensor.rs", "prima_undine_contrib/src/functions/contrib/node.rs", "prima_undine_contrib/src/functions"],
  [("bernoulli mask scaled by the keep probability", "prima_undine_contrib/src/functions")],
  ["outputs and gradients compared element by element"])
p("C27", "Means, slice sums and normalisation layers match their formula and gradient",
  "Mean, minibatch mean, slice sum, batch normalisation and layer normalisation equal their formula over the stated dimension, minibatch or sample up to rounding, for tensors and graphs alike, and their gradients are the derivatives of that formula.",
  ["inputs"], "every shape, minibatch size, scale, bias and epsilon in a well-conditioned range",
  "tests check one small example each and no gradient",
  ["prima_undine_contrib/src/functions/contrib/tensor.rs", "prima_undine_contrib/src/functions/contrib/node.rs", "prima_undine_contrib/src/functions"],
  [("composition of basic functions", "prima_undine_contrib/src/functions")],
  ["values and gradients"])
p("C28", "A device runs exactly the kernels registered on it",
  "Calling a kernel by name on a device runs the one registered last under that name on that device and of that kind, with the operands and data given, once; a name that was never registered is refused. Every public function computes through the device its operands live on, so replacing a kernel changes exactly the functions that use it.",
  ["histories", "configurations"], "every sequence of registrations on several devices and every call",
  "no test registers a kernel",
  ["prima_undine/src/device.rs", "prima_undine/src/device_impl.rs", F, O],
  [("name tables per kernel kind", "prima_undine/src/device.rs")], ["calls received by registered kernels"])
p("C29", "A refused call leaves the device and all tensors usable and unchanged",
  "When a call is refused because of bad operands, no operand, target or other tensor changes, no buffer leaks or is released twice, and the device (including its random source) continues to work correctly for all later calls.",
  ["fault_sequences", "histories"], "every refused call at any point of a history of valid work",
  "tests with refused calls end at the panic",
  ["prima_undine/src/device.rs", F+"basic/device.rs", F+"arithmetic/device.rs", N+"random.rs", "prima_undine/src/memory_pool.rs"],
  [("checks ahead of kernel calls", F), ("unwinding through Drop of Tensor", "prima_undine/src/tensor.rs")],
  ["values of all live tensors and backend calls after the refusal"])
p("C30", "Deep and wide graphs evaluate, differentiate and drop within ordinary stack",
  "Graphs of a hundred thousand chained operations, of wide fan-in or fan-out, or with exponentially many paths are evaluated, differentiated and released correctly within ordinary stack and time, giving the value and gradient of the composed function.",
  ["programs"], "graph size and topology up to those bounds",
  "tests build graphs of at most a few nodes",
  ["prima_undine/src/graph.rs"],
  [("worklist traversal instead of recursion", "prima_undine/src/graph.rs")], ["values, gradients and process survival"])
p("C31", "Tensors keep their contents through copy, reset, reference, reshape and move",
  "A tensor's contents change only when it (or, for a reference view, its referent) is written: copies are independent, views show their referent's current contents, moves keep contents, taking over another tensor's memory leaves that one empty without duplicating ownership, and changing the shape keeps the element order. Creating a tensor from a constant, a list or host values gives exactly those values.",
  ["histories"], "every sequence of these operations on any tensors",
  "tests perform single operations",
  ["prima_undine/src/tensor.rs", "prima_undine/src/device.rs", "prima_undine/src/parameter.rs"],
  [("handle ownership and references", "prima_undine/src/tensor.rs"), ("reset and copy kernels", N+"reset_tensor.rs")],
  ["values of all live tensors after each step"])

import sys, os
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
