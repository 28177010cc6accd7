#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
RC="src/tensor/rc_tensor.rs"; RAW="src/tensor/raw_tensor.rs"; UT="src/tensor/utils.rs"; TL="src/tensor/tensor_like.rs"
TV="src/tensor/tensor_view.rs"; EW="src/tensor/functional/element_wise_ops.rs"; MI="src/tensor/functional/misc.rs"
JV="src/tensor/autograd/jvp.rs"; LI="src/nn/linear.rs"; FF="src/nn/feed_foward.rs"; SG="src/optim/sgd.rs"; NU="src/tensor/numeric.rs"
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","Element reads follow row-major order and the broadcast indexing rules",
 "Reading an element of a tensor built from flat data and a shape returns exactly the row-major element that the index names. Extra leading coordinates are ignored, an axis of extent one accepts any coordinate, and leading axes may be left out of the index only where their extent is one. Every other index is reported as an error value: it is never answered with some element and never crashes.",
 ["inputs"],"every shape (any rank, any positive extents, including scalars) and every index vector, in or out of range, shorter or longer than the rank",
 "Four example shapes with a handful of in-range indices are tested; shorter, longer and out-of-range indices over all shapes are not.",
 [UT,RAW,RC],[("index to offset arithmetic",UT+" global_index"),("element access",RAW+" get / Index")],obs=["TensorLike::get","RawTensor Index"])
p("C02","Every way of building a tensor gives the described shape and elements",
 "Building a tensor from nested arrays or vectors, from flat data plus a shape, from a filler value or from a single value gives a tensor with exactly the described shape, element count and row-major elements, for plain and for reference-counted tensors alike. Data that does not fit (wrong length, ragged nesting) is refused. Two tensors compare equal exactly when their shapes and all their elements are equal.",
 ["inputs"],"every nesting depth and extents, every flat length against every shape, every element type, every pair of tensors compared",
 "Tests build a few literals and compare them with a few others; refusal and inequality are never tested.",
 [RAW,RC],[("nested conversion",RAW+" From<Vec<U>> / From<[U; N]>"),("length check",RAW+" new"),("equality",RAW+" PartialEq")],obs=["RawTensor::new","RcTensor::new","From","new_with_filler","scalar","PartialEq"])
p("C03","Index enumeration visits every position once, in row-major order",
 "Enumerating the indices of a tensor or of a slice yields every valid index of its shape exactly once, in row-major order, and then ends. A scalar yields exactly one empty index; a shape with an extent of zero yields none.",
 ["inputs"],"every shape of any rank and extents, for tensors and slices",
 "Two literal shapes are tested.",
 [UT,TL],[("odometer increment",UT+" increment_index / reset_trailing_indices"),("iterator",UT+" IndexIterator")],obs=["TensorLike::iter_indices"])
p("C04","A slice denotes exactly the selected window of its tensor",
 "A slice of a tensor has the extents of its ranges and its elements are exactly those of the selected window, consistently for its shape, element count, indexed reads, first element, sum, copy to a tensor, and equality against any tensor or slice. A range that is reversed or reaches outside the tensor, or a wrong number of ranges, is refused. Reading a slice outside its own extents reports an error value and never reveals an element outside the window.",
 ["inputs"],"every base shape, every list of ranges (including empty and full ones), every index, every pair compared",
 "Tests look at four slices of three tensors with in-range reads only.",
 [TV,UT,RAW],[("window bounds and shape",TV+" TensorView::new"),("offset addressing",UT+" global_index"),("comparison",TV+" PartialEq")],obs=["TensorLike::slice","RcTensor::view","TensorView::get","to_tensor","sum","count","=="])
p("C05","An operation on a slice equals the operation on its materialised copy",
 "Every operation that accepts a tensor-like operand (addition, element-wise and scalar multiplication from either side, dot product, matrix multiplication on either side, element-wise maps) gives for a slice exactly the result it gives for a copy of that slice made as a tensor of its own. This includes broadcasting a slice whose extent along an axis is one.",
 ["inputs"],"every base shape and window, every operation, slice on the left, the right or both sides",
 "No test passes a slice to any operation other than sum and equality.",
 [TV,TL,MI,EW,UT],[("scalar multiplication",TL+" left/right_scalar_multiplication"),("dot",MI+" dot_raw"),("broadcast reads",UT+" global_index"),("bmm reads",MI+" bmm_raw")],obs=["operators on RawTensor/RcTensor/TensorView"])
p("C06","Slicing a slice composes, and reshaping keeps row-major order",
 "Taking a slice of a slice selects from the elements of the first slice, so any chain of slices and reshapes equals the same chain carried out on materialised copies. Reshaping a slice keeps its elements in row-major order under the new shape; a shape with another element count is refused.",
 ["inputs","histories"],"every chain of slice and reshape steps on every base shape",
 "Neither slicing a slice nor reshaping is tested at all.",
 [TV],[("slice of a view",TV+" slice"),("reshape",TV+" reshape")],obs=["TensorView::slice","TensorView::reshape","to_tensor"])
p("C07","Addition, subtraction and negation follow numpy broadcasting",
 "Adding or subtracting two tensors of broadcast-compatible shapes (aligned at the last axis, extents equal or one) gives the broadcast shape, and each element is exactly the sum or difference of the corresponding operand elements; negation negates each element and keeps its position. Every operator form (by value, by reference, plain or reference-counted tensors) gives the same result. Incompatible shapes are refused.",
 ["inputs"],"every pair of shapes of any rank with positive extents, all element values, every supported element type",
 "One broadcast pair and a few same-shape literals are tested.",
 [EW,RC,RAW,TL],[("broadcast test",TL+" broadcastable"),("result shape",EW+" max_shape"),("element loop",EW+" generic_binop_raw"),("unary loop",EW+" generic_unary_op")],obs=["Add","Sub","Neg"])
p("C08","Products are element-wise for equal shapes and scale by scalars",
 "Multiplying two tensors of the same shape multiplies them element by element; multiplying by a scalar tensor on either side scales every element and keeps the other operand's shape. Any other pair of shapes is refused. All operator forms and the explicit scalar-multiplication calls agree.",
 ["inputs"],"every shape, values and element type; every pair of unequal shapes",
 "Two vector literals and one vector-times-scalar are tested.",
 [RAW,RC,TL,MI],[("dispatch on scalar operands",RAW+" Mul"),("element-wise product",MI+" element_wise_multiplication"),("scaling",TL+" left/right_scalar_multiplication")],obs=["Mul","left_scalar_multiplication","right_scalar_multiplication"])
p("C09","Matrix multiplication is exact for matrices and batches of matrices",
 "Multiplying a matrix, or a batch of matrices, by a matrix gives the result shape rows by columns (with the batch extent in front) and every element is the inner product of the corresponding row and column. Operands whose inner extents differ, or whose ranks do not fit, are refused. Plain and reference-counted forms agree.",
 ["inputs"],"all extents of batch, rows, inner and columns, all values, every element type",
 "A few 2x2, 8x2 and 3x2 products are tested, no batch of matrices, and never sizes beyond a few elements.",
 [MI,RC,RAW],[("parallel row-by-column loops",MI+" bmm_raw")],obs=["TensorLike::bmm","TensorLike::bmm_rc"])
p("C10","Sum and dot reduce over every element exactly once",
 "The sum of a tensor or slice is a scalar equal to the sum of all its elements; the dot product of two tensors of the same shape is a single element equal to the sum of the products of corresponding elements, and tensors of different shapes are refused. Every element contributes exactly once, whatever the rank and size.",
 ["inputs"],"every shape and values, every element type, tensors and slices",
 "Sums and dots of three-element vectors are tested.",
 [RAW,TV,MI],[("sum",RAW+" sum; "+TV+" sum"),("dot",MI+" dot_raw")],obs=["TensorLike::sum","functional::dot","functional::dot_no_derivative","RawTensor::dot"])
p("C11","abs, relu and tanh act on each element and keep shape and order",
 "abs, relu and tanh return a tensor of the same shape whose every element is the absolute value, the larger of zero and the element, or the hyperbolic tangent of the element at the same position. This holds for every finite or infinite value, of any sign, at any position of any shape; a caller's own element-wise function is applied in the same way.",
 ["inputs"],"every shape, every finite or infinite element value",
 "Six values are tested for abs; relu and tanh values are never checked.",
 [EW],[("unary loop",EW+" generic_unary_op"),("functions",EW+" abs_raw / relu / tanh")],obs=["RcTensor::abs","functional::relu","functional::tanh","functional::generic_unary_op"])
p("C12","backward gives the true gradient for every composition of operations",
 "For every expression built from add, subtract, negate, sum, dot, matrix multiplication, abs, relu and tanh that ends in one element, calling backward adds to every tensor the result depends on (inputs and intermediate results) exactly the derivative of the result with respect to it, away from points where a function has no derivative. Tensors reached along several paths receive the sum over all paths, and the upstream derivative always enters multiplicatively. Any operation may stand at the end, in the middle or at the start, whatever the rank of the one-element result.",
 ["programs","inputs"],"all expression graphs over the differentiable operations (sharing allowed), all shapes and values",
 "Tests differentiate about ten fixed expressions, nearly all ending in sum over a single chain with all-ones upstream gradient.",
 [JV,EW,MI,RC],[("reverse sweep",JV+" compute_jvp"),("per-operation products",EW+" generic_unary_jvp, generic_binop_jvp, tanh_derivative_outer; "+MI+" bmm_jvp, dot_jvp; "+JV+" ones"),("seed",RC+" backward")],
 state=[("grad","accumulated gradient of a tensor",RAW+" RawTensor.grad"),("grad_fn","recorded operation and inputs",RAW+" RawTensor.grad_fn")],obs=["RcTensor::backward","RcTensor::grad"])
p("C13","Gradients through broadcasting are summed back to the operand's shape",
 "After backward through an addition or subtraction of broadcast operands, each operand's gradient has exactly that operand's shape, and each of its elements is the (signed) sum of the upstream derivative over all result positions that the element was broadcast to.",
 ["inputs"],"every pair of broadcast-compatible shapes of any rank, every upstream derivative",
 "One vector case with a length-one operand is tested with explicit values.",
 [EW,JV],[("reduction over broadcast axes",EW+" jvp_from_diagonal_broadcast, generic_binop_jvp"),("reshaping to the input",JV+" compute_jvp")],obs=["RcTensor::grad"])
p("C14","Matrix multiplication gradients are exact for every size and batch",
 "For C = A B and any upstream derivative G, backward gives A the gradient G times B transposed and B the gradient A transposed times G, each in its operand's shape, for matrices of every size; for a batch of matrices on the left the same holds per matrix, with B receiving the sum over the batch. Each element lands at its own position however large the operands are.",
 ["inputs"],"all extents (batch, rows, inner, columns), all values and upstream derivatives",
 "Two tiny cases (at most 9 elements) are tested, one of them with a one-sided tolerance that a wrong answer can pass; sizes that need more than one work segment are never tested.",
 [MI],[("scatter of products to segments",MI+" bmm_jvp, SplitArrayWriter")],state=[("segments / channels","slices of the gradient buffer and the queues feeding them",MI+" SplitArrayWriter")],obs=["RcTensor::grad"])
p("C15","Gradients accumulate over any history of backward and reset calls",
 "A tensor's gradient always equals the sum of the contributions of all backward passes and explicit gradient updates since it was created or last reset, each counted once; resetting clears only that tensor. Repeating backward on the same result adds the same contribution again, and clones of a reference-counted tensor share one gradient.",
 ["histories"],"every sequence of building results, backward calls (repeated or on different results), explicit updates, resets, clones and reads",
 "Tests make at most two backward calls and never check the accumulated value.",
 [RAW,RC,JV],[("accumulate",RAW+" update_grad"),("reset",RAW+" zero_grad"),("sharing",RC+" RcTensor(Arc)")],state=[("grad","accumulated gradient",RAW+" RawTensor.grad")],obs=["grad","zero_grad","update_grad","backward"])
p("C16","Computing leaves every other tensor untouched",
 "No operation ever changes the elements or shape of any existing tensor, and forward operations and reads never change or create a gradient on any existing tensor or leave one on their result. A backward pass changes the gradients of exactly the tensors that its result was computed from (and not the result's own). A deep copy and an accumulated gradient are independent tensors: nothing done later to or through one reaches the other.",
 ["histories","programs"],"every operation sequence on a pool of tensors",
 "Tests check results, never the untouched operands or bystanders.",
 [RAW,RC,TL,JV],[("immutability behind a shared pointer",RC+" RcTensor(Arc<RawTensor>)"),("interior mutability only for gradients",RAW+" grad: RwLock"),("deep copy",TL+" deep_clone")],obs=["get","shape","grad","deep_clone"])
p("C17","A refused operation changes nothing and leaves its operands usable",
 "When an operation is refused (a mismatching shape, backward from a result with several elements or without a recorded operation, an incompatible explicit gradient, a bad construction, slice or index) no tensor's elements or gradient have changed. All operands remain fully usable afterwards: reads, arithmetic, backward, reset and accumulation all work and give the results they would have given without the refused call.",
 ["fault_sequences","histories"],"every refused call at every point of a history, followed by every further operation",
 "No test makes a refused call.",
 [RAW,RC,MI,EW,TV],[("checks before effects",RC+" backward; "+EW+" generic_binop_raw; "+MI+" bmm_raw"),("lock handling",RAW+" update_grad")],obs=["grad","get","backward after a caught panic"])
p("C18","Network forward passes compute the composed affine maps",
 "A linear layer maps a batch X to its activation applied to X W + b with the bias broadcast over rows, also for batches of matrices; without an activation it is the affine map itself. A multi-layer network is the composition of its layers in order. The result depends only on the input and the current parameters, and rows of a batch are independent of each other.",
 ["inputs","configurations"],"all layer counts, widths, activations, bias layouts, batch sizes and values",
 "One 2x2 layer is compared with an expected value; multi-layer networks are only constructed.",
 [LI,FF],[("affine map and activation",LI+" forward"),("fold over layers",FF+" forward")],obs=["Module::forward"])
p("C19","Parameter lists and updates round-trip through every layer",
 "A module lists its parameters layer by layer, weights before bias, and these are the very tensors the forward pass uses (gradients of a forward result appear on them). Installing a list of parameters makes exactly those tensors the module's parameters in the same order, so listing them returns them and forward uses them; all layers are updated and none is mixed up.",
 ["histories","configurations"],"all module configurations and sequences of parameter updates, listings and forward passes",
 "No test lists or installs parameters (the only training test is disabled).",
 [LI,FF],[("order of layers and of weights/bias",FF+" params, update_params; "+LI+" params, update_params")],obs=["Module::params","Module::update_params","Module::forward"])
p("C20","An SGD step moves each parameter by minus step size times its own gradient",
 "One SGD step replaces every parameter of the module by itself minus the step size times its accumulated gradient, element by element and in its own shape, for every layer and for weights and bias alike. The new parameters start without a gradient, and the tensors that were the parameters before keep their values and gradients.",
 ["inputs","configurations"],"all module configurations, parameter values, gradients and step sizes",
 "The optimiser is only used in a disabled test.",
 [SG,FF,LI],[("update rule",SG+" sgd_step")],obs=["sgd_step","Module::params"])
p("C21","Training histories match the reference at every step",
 "Over any sequence of forward, backward, SGD steps, gradient resets, accumulated backward passes and parameter replacement, the parameters, outputs and gradients at every point equal those of a reference gradient-descent computation. Each step starts afresh: a pass after a step never changes the values or gradients of parameters replaced earlier.",
 ["histories"],"all sequences of training operations on small networks, for several samples and step sizes",
 "The only training loop test is disabled and checks only that the loss gets small.",
 [SG,LI,FF,JV,RAW],[("fresh parameters",SG+" sgd_step"),("chain of layers",FF+" forward"),("gradient bookkeeping",RAW+" update_grad / zero_grad")],obs=["params","grad","forward"])
p("C22","Repeating a computation cycle keeps no history",
 "Repeating the same cycle (accumulating into a gradient, training steps, forward passes whose results are dropped, resets, slicing) reaches a steady state: after the results of a cycle are dropped, one more cycle holds no more memory than the one before. Work per cycle does not grow with the number of cycles done before, so long runs neither exhaust memory nor overflow the stack.",
 ["histories"],"every cycle of operations, repeated any number of times",
 "Tests run each computation once or twice.",
 [RAW,SG,JV],[("gradient accumulation without recorded history",RAW+" update_grad"),("detached parameters",SG+" sgd_step")],state=[("grad_fn","references to the inputs of the operation",RAW+" RawTensor.grad_fn")],obs=["live heap bytes per cycle","completion of long runs"])
p("C23","Concurrent backward passes lose no gradient",
 "When several threads run backward passes (on different results or on the same one) or explicit gradient updates that share tensors, then after all have finished every shared tensor's gradient equals the one obtained by running them one after another. All of them finish: no schedule deadlocks.",
 ["schedules"],"all interleavings of two or three threads over shared inputs",
 "Every test is single-threaded in its use of tensors.",
 [RAW,JV],[("atomic accumulate under the gradient lock",RAW+" update_grad")],state=[("grad","shared gradient slot",RAW+" RawTensor.grad")],obs=["grad after join"])
p("C24","Concurrent gradient reads, resets and updates are linearizable",
 "For each tensor, concurrent gradient reads, resets and accumulations by several threads behave as if each happened at one instant between its start and end, in some order consistent with each thread's own order. A read never sees a partial sum or a gradient that no such order explains, and no schedule deadlocks.",
 ["schedules"],"all interleavings of two or three threads with a few operations each on one tensor",
 "Every test is single-threaded in its use of tensors.",
 [RAW,RC],[("reader-writer lock around the gradient",RAW+" update_grad, zero_grad; "+RC+" get_grad")],state=[("grad","shared gradient slot",RAW+" RawTensor.grad")],obs=["grad","zero_grad","update_grad"])
p("C25","Parallel matrix multiplication does not depend on the schedule",
 "Whatever the number of worker threads (one or more), whether the call comes from an ordinary thread or from inside the worker pool, and in whatever order tasks run, matrix multiplication finishes and returns the same, complete result. Several multiplications running at the same time do not disturb each other.",
 ["schedules","configurations"],"all schedules of the worker tasks, pool sizes, calling contexts, and concurrent callers",
 "Tests run with the default pool from ordinary threads, one lucky schedule each.",
 [MI],[("one task per output element writing its own slot; scope waits for all",MI+" bmm_raw")],obs=["bmm"])
p("C26","Parallel matrix-multiplication gradients do not depend on the schedule",
 "Whatever the number of worker threads (one or more), whether backward is called from an ordinary thread or from inside the worker pool, and in whatever order tasks run and messages arrive, the backward pass of a matrix multiplication finishes and delivers every contribution exactly once to its own position. Several such passes running at the same time do not disturb each other.",
 ["schedules","configurations"],"all schedules of producer and consumer tasks, pool sizes, calling contexts, and concurrent callers",
 "Tests run with the default pool from ordinary threads, one lucky schedule each.",
 [MI],[("producers send products, consumers add them to segments; scope waits for all",MI+" bmm_jvp, SplitArrayWriter")],state=[("channels and segments","queues feeding each gradient segment",MI+" SplitArrayWriter")],obs=["backward","grad"])
p("C27","Threads computing on shared tensors get the results of running alone",
 "Threads that compute (forward passes, backward passes, training of their own networks) on tensors shared with other threads obtain exactly the values and, for tensors only they use, exactly the gradients that they would obtain running alone. Dropping, cloning or slicing shared tensors in one thread never affects another.",
 ["schedules"],"all interleavings of two or three threads running small programs over shared inputs",
 "Every test is single-threaded in its use of tensors.",
 [RC,RAW,JV,LI],[("immutable shared data",RC+" RcTensor(Arc<RawTensor>)"),("per-tensor gradient lock",RAW+" grad: RwLock")],obs=["values and gradients per thread"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
