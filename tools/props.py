TO = C + 'tensor/ops/'
VJ = C + 'tensor/gradient/'
IN = ['inputs', 'configurations']
SAMPLED = 'No test in the suite calls it through the tensor API; the kernel tests sample a few fixed arrays with one layout each.'

p('P01', 'Views and shape operations address exactly the documented elements',
  'Any chain of reshape, flatten, squeeze, unsqueeze, transpose, permute, broadcast, slice (any start, end and step, negative included), repeat and contiguous yields the documented shape, '
  'and reading the result back, using it in an operation or making it contiguous gives exactly the elements that chain selects from the original tensor.',
  ['inputs', 'programs'], 'all data; all chains of view operations over small shapes (single operations exhaustively, longer chains seeded)',
  'There is no test of the tensor-level view operations; chains multiply layouts beyond what samples reach.',
  [TO + 'shape.rs', TO + 'shape_memory.rs', C + 'types/layout.rs', C + 'tensor/vec.rs', C + 'tensor/bytes.rs', K + 'ops_memory.c'],
  [('strided layouts', C + 'types/layout.rs'), ('contiguous copy', K + 'ops_memory.c')], 'sym')

p('P02', 'Binary, comparison, logical and selection operations broadcast elementwise',
  'For operands of any broadcastable shapes and memory layouts, add, sub, mul, div, pow, rem, maximum, minimum, the comparisons, the logical operations, where3, masked_fill and clamp '
  'produce the broadcast shape, and each result element is the operation applied to the corresponding operand elements.',
  IN, 'all real data in the box, shape pairs and layouts enumerated', SAMPLED,
  [TO + 'binary.rs', TO + 'cmp.rs', TO + 'selection.rs', K + 'ops_binary.c', C + 'be_cpu/storage/ops_binary.rs'],
  [('broadcast layouts and metadata', C + 'op_metadatas.rs'), ('strided and contiguous kernel paths', K + 'ops_binary.c')], 'sym')

p('P03', 'Unary and scalar operations compute their function elementwise',
  'Every unary operation (activations, exponentials, logarithms, trigonometric and hyperbolic functions, roots, rounding, sign tests) and every operation with a scalar '
  'maps each element of a tensor of any shape and layout through its mathematical function, in f32 and f64.',
  IN, 'all real data in each function’s box, layouts and sizes (vector bodies and tails) enumerated', SAMPLED,
  [TO + 'unary.rs', K + 'ops_unary.c', K + 'math_utils.h', C + 'be_cpu/storage/ops_unary.rs'],
  [('per-element formulas', K + 'ops_unary.c'), ('vectorised contiguous paths', K + 'ops_unary_openblas.c')], 'sym')

p('P04', 'Reductions combine exactly the elements of the reduced dimensions',
  'sum, mean, max, min, prod, std, var, the norms, logsum, logsumexp, argmax, argmin, any, all and sum_to_shape, over any set of dimensions (negative included, none meaning all), with or without '
  'kept dimensions and for any input layout, have the documented shape and equal the mathematical reduction over exactly those elements.',
  IN, 'all real data; dimension subsets, shapes and layouts enumerated', SAMPLED,
  [TO + 'reduce.rs', K + 'ops_reduce.c', C + 'be_cpu/storage/ops_reduce.rs'], [('reduction metadata', C + 'op_metadatas.rs'), ('reduction kernels', K + 'ops_reduce.c')], 'sym')

p('P05', 'matmul and dot are matrix products under batch broadcasting',
  'matmul of operands of any compatible ranks, batch shapes and layouts (transposed, sliced, broadcast) is the batched matrix product, and dot the plain product of vectors and matrices.',
  IN, 'all real data; ranks, batch shapes and layouts enumerated', SAMPLED,
  [TO + 'matrix.rs', K + 'ops_matrix.c', K + 'ops_matrix_openblas.c', C + 'be_cpu/storage/ops_matrix.rs'], [('batch offsets and strides', K + 'ops_matrix.c'), ('BLAS call parameters', K + 'ops_matrix_openblas.c')], 'sym')

p('P06', 'Convolutions equal their defining sums',
  'conv1d, conv2d, conv3d, their transposed forms and their weight-gradient forms compute the defining cross-correlation sums for every stride, padding, output padding and dilation, '
  'with the documented output shape, for any operand layout.',
  IN, 'all real data; small sizes with all combinations of the parameters', SAMPLED,
  [TO + 'conv.rs', K + 'ops_conv.c', K + 'ops_conv_openblas.c', C + 'be_cpu/storage/ops_conv.rs'], [('direct kernels', K + 'ops_conv.c'), ('im2col and GEMM path', K + 'ops_conv_openblas.c')], 'sym')

p('P07', 'Window reductions and pooling combine exactly the window elements',
  'reduce_window with max, min, sum or mean, and the max, average and adaptive pooling layers built on it, reduce exactly the elements under each window, for every window, stride and padding.',
  IN, 'all real data; window, stride and padding combinations enumerated', SAMPLED,
  [TO + 'windowing.rs', K + 'ops_windowing.c', 'crates/hodu_nn/src/modules/pooling.rs'], [('window kernels', K + 'ops_windowing.c')], 'sym')

p('P08', 'Joining, splitting, flipping, scanning and padding move the right elements',
  'concat, cat, stack, split, chunk, flip, cumsum and every padding mode produce the documented shape and place (or accumulate) exactly the right input elements, for any number of inputs, dimension and layout.',
  IN, 'all real data; input counts, dimensions, layouts and pad widths enumerated', SAMPLED,
  [TO + 'concat_split.rs', TO + 'padding.rs', TO + 'scan.rs', TO + 'shape_memory.rs', K + 'ops_concat_split.c', K + 'ops_padding.c', K + 'ops_scan.c', K + 'ops_shape_memory.c'],
  [('concat metadata', C + 'op_metadatas.rs'), ('index maps of the kernels', K + 'ops_padding.c')], 'sym')

p('P09', 'Resizing interpolates by its documented mode',
  'resize in nearest, linear and cubic mode with each coordinate transformation produces the requested shape, and every output element is the interpolation that mode prescribes.',
  IN, 'all real data; sizes and modes enumerated', SAMPLED,
  [TO + 'resize.rs', K + 'ops_resize.c'], [('coordinate transformation', K + 'ops_resize.c')], 'sym')

p('P10', 'Indexing operations read and write exactly the indexed elements',
  'index_select, gather, index_put, scatter and its add, max and min forms, and onehot, for every index tensor (negative indices wrap), dimension and layout, read or write exactly the elements the indices '
  'name and leave all others untouched.',
  IN, 'all real data; index tensors exhaustively over small shapes', SAMPLED,
  [TO + 'indexing.rs', K + 'ops_indexing.c', C + 'be_cpu/storage/ops_indexing.rs'], [('index kernels', K + 'ops_indexing.c')], 'sym')

p('P11', 'topk, sort, unique, nonzero and compress order and select correctly',
  'For every input, topk (largest or smallest, sorted) returns the extreme elements in order with the indices they come from, unique the distinct values in order with matching inverse and counts, '
  'and nonzero and compress exactly the selected positions or elements in order.',
  IN, 'all orderings of small inputs (symbolic data), layouts enumerated', SAMPLED,
  [TO + 'sort.rs', TO + 'indexing.rs', K + 'ops_sort.c'], [('sort kernels', K + 'ops_sort.c')], 'sym')

p('P12', 'einsum computes the sum its equation denotes',
  'For every well-formed equation, explicit or implicit, with repeated, batched and transposed subscripts, einsum equals the sum over the non-output indices of the product of the operands, and equations that do not fit the operands are refused.',
  ['inputs', 'programs'], 'all real data; equations enumerated and generated', SAMPLED,
  [C + 'einsum.rs', TO + 'einsum.rs', K + 'ops_einsum.c'], [('equation parser', C + 'einsum.rs'), ('index loops', K + 'ops_einsum.c')], 'sym')

p('P13', 'Linear algebra results satisfy their defining equations',
  'For every non-singular matrix, batched or not and in any layout, inv(A)·A = I, A·solve(A, B) = B, det equals the Leibniz determinant whatever the pivoting, and trace is the sum of the diagonal.',
  IN, 'all non-singular real matrices up to 3×3; for 4×4 to 6×6 matrices with up to two symbolic elements, every pivoting order they reach', SAMPLED,
  [TO + 'linalg.rs', K + 'ops_linalg.c'], [('elimination with pivoting', K + 'ops_linalg.c')], 'sym')

p('P14', 'Integer and bitwise kernels are exact for every operand and layout',
  'For every integer type, the CPU kernels for add, sub, mul, div, rem, maximum, minimum (also with a scalar operand), comparisons, logical and bitwise operations, shifts by less than the width, neg, abs, sign, square, '
  'sum, prod, max, min, argmax, argmin, any, all, cumsum, matmul and dot give the exact two-complement (wrapping) result for every operand value, size, stride and offset, threaded or not; '
  'unsigned subtraction stops at 0, division and remainder by 0 give 0, and no operand makes the process stop.',
  IN, 'all operand values bit-precisely; sizes, strides and offsets symbolic within small bounds (rank up to 2, 3 in the thorough tier, extents up to 3)', 'Tests use a few small positive numbers.',
  [K + 'ops_binary.c', K + 'ops_bitwise.c', K + 'ops_unary.c', K + 'ops_reduce.c', K + 'ops_scan.c', K + 'ops_matrix.c'], [('kernel macros', K + 'ops_binary.c')], 'cbmc')

p('P15', 'Casts convert every value as the language does',
  'Casting a tensor between any two of the fifteen element types gives, for every value, size, stride and offset, threaded or not: the same number where the destination has it; between integers the low bits; from a float to an integer '
  'the value truncated toward zero (unspecified where that is outside the destination or NaN); to a float the nearest value (to the small floats by way of f32); to bool whether it differs from zero.',
  IN, 'all bit patterns of the source types; sizes, strides and offsets symbolic within small bounds', 'Tests convert a few small values.',
  [K + 'ops_cast.c', TO + 'cast_memory.rs'], [('cast kernels', K + 'ops_cast.c')], 'cbmc')

p('P16', 'Small float formats convert and compute bit-exactly',
  'In the kernels, decoding f16, bf16, f8e4m3 and f8e5m2 gives the number each encoding stands for; encoding an f32 gives the nearest value, ties to even, with subnormals, signed zeros, infinities and NaN as the format has them '
  '(f16 and bf16 overflow to infinity, the f8 formats stop at their largest finite value); and arithmetic, comparisons, activations and functions on them are those of f32 on the decoded operands, encoded again.',
  ['inputs'], 'all 2^32 f32 bit patterns, all encodings, all pairs of encodings', 'Tests convert a few values.',
  [K + 't_f16.h', K + 't_bf16.h', K + 't_f8e4m3.h', K + 't_f8e5m2.h', K + 'ops_binary.c', K + 'ops_unary.c'], [('conversion functions', K + 't_f16.h')], 'cbmc')

p('P17', 'Kernels stay inside their buffers',
  'For every well-formed metadata block and every index value, kernels read only the input elements the layout addresses and write only the output elements.',
  IN, 'all index values and small symbolic layouts', 'Tests do not check bounds.',
  [K + 'ops_indexing.c', K + 'ops_memory.c', K + 'ops_concat_split.c'], [('index clamping and skips', K + 'ops_indexing.c')])

p('P18', 'Gradients of elementwise operations are the true derivatives',
  'backward through any unary, scalar, binary or selection operation gives every input, of any layout or broadcast shape, the exact derivative of the result weighted by the incoming gradient, with the shape of the input.',
  IN, 'all real data away from kinks; layouts and broadcasts enumerated', 'No test computes a gradient of these operations.',
  [VJ + 'vjp_unary.rs', VJ + 'vjp_binary.rs', VJ + 'vjp_utils.rs'], [('vector-Jacobian products', VJ + 'vjp_unary.rs'), ('reduction to the input shape', VJ + 'vjp_utils.rs')], 'sym')

p('P19', 'Gradients of shape, join, index, scan and reduction operations are the true derivatives',
  'backward through any view, join, split, pad, resize, index, scatter, select, scan, window, sort or reduction operation gives every input exactly the derivative of the weighted result, with the shape of the input.',
  IN, 'all real data away from ties; parameters as in the value checks', 'No test computes a gradient of these operations.',
  [VJ + 'vjp_shape.rs', VJ + 'vjp_reduce.rs', VJ + 'vjp_indexing.rs', VJ + 'vjp_concat_split.rs', VJ + 'vjp_padding.rs', VJ + 'vjp_windowing.rs'],
  [('vector-Jacobian products', VJ + 'vjp_shape.rs')], 'sym')

p('P20', 'Gradients of matrix, convolution, einsum and linear-algebra operations are the true derivatives',
  'backward through matmul, dot, every convolution, einsum, det, inv, solve and trace gives every operand exactly the derivative of the weighted result.',
  IN, 'all real data; parameters as in the value checks', 'No test computes a gradient of these operations.',
  [VJ + 'vjp_matrix.rs', VJ + 'vjp_conv.rs', VJ + 'vjp_einsum.rs', VJ + 'vjp_linalg.rs'], [('vector-Jacobian products', VJ + 'vjp_conv.rs')], 'sym')

p('P21', 'Backpropagation accumulates correctly through any computation graph',
  'For any program of differentiable operations, in which tensors may be reused, branch, merge, be detached or not require gradients, and for any sequence of backward, zero_grad and further backward calls and nested gradient contexts, each leaf’s gradient is the sum over all paths of the '
  'true derivatives of the last backward call that reached it, whatever handles have been dropped, and tensors that take no part get none.',
  ['inputs', 'programs', 'histories'], 'generated programs and histories over symbolic data', 'One history of a few calls would be tested at most.',
  [C + 'tensor/gradient.rs', C + 'tensor/gradient/tape.rs', C + 'tensor/registry.rs'], [('tape and gradient store', C + 'tensor/gradient/tape.rs')], 'sym')

p('P22', 'A captured snapshot denotes the same function as eager execution',
  'For every program of tensor operations captured on the CPU, the snapshot (inputs, constants, nodes with parameters, layouts and element types, targets) is self-contained and in order, and running it node by node, reading every operand through the layout recorded for it, gives for all input data exactly what eager execution of the program computes, also after to_bytes and from_bytes. A data-dependent extent is recorded by its bound.',
  ['inputs', 'programs'], 'all real input data; every operation behind each kind of view, and generated programs', 'No test captures a snapshot.',
  [C + 'snapshot.rs', C + 'snapshot/capture/board.rs', C + 'tensor/ops'], [('capture of operations', C + 'snapshot/capture')], 'sym')

p('P23', 'Tensors survive every save and load path bit for bit',
  'Writing tensors to bytes, to the binary tensor format or to JSON, and reading them back, restores shape, element type and every element bit for bit, whatever the layout of the saved tensor.',
  IN, 'all element bit patterns; types, shapes and layouts enumerated', 'Tests cover no round trip.',
  [C + 'format/hdt.rs', C + 'format/json.rs', C + 'tensor/bytes.rs'], [('encoders', C + 'format/hdt.rs')])

p('P24', 'Scalar arithmetic and conversion agree with the element types',
  'Conversions of a dynamically typed scalar to any element type give the value truncated and saturated as a direct conversion of that value would be (floats rounded to nearest, NaN to zero), construction for a type yields that type, '
  'and arithmetic on two scalars of one type gives the exact result wherever it is representable in the type.',
  ['inputs'], 'all values of all types', 'No test.', [C + 'scalar.rs'], [('scalar operators', C + 'scalar.rs')], 'kani')

p('P25', 'Symbolic shapes and layouts agree with concrete ones',
  'Shape and layout computations (broadcasting, strides, offsets, reshaping, slicing, contiguity, symbolic dimensions and their evaluation) satisfy the row-major algebra for every extent, stride and offset: each element of the result is addressed where the corresponding element of the source is, and a request that has no such result is refused.',
  ['inputs'], 'all extents, strides and indices within small bounds', 'Tests sample shapes.',
  [C + 'types/layout.rs', C + 'types/shape.rs', C + 'types/dim.rs', C + 'types/symbolic_layout.rs'], [('layout algebra', C + 'types/layout.rs')], 'kani')

p('P26', 'Data loading delivers every sample exactly once per epoch, batched as asked',
  'For every dataset length, batch size, shuffling and drop-last setting, a data loader yields batches that contain each sample exactly once (or drop exactly the documented remainder), with data and targets aligned, and split or subset wrappers partition the indices.',
  IN, 'lengths, batch sizes and flags enumerated; data symbolic', 'No test.',
  ['crates/hodu_datasets/src'], [('index batching', 'crates/hodu_datasets/src')], 'sym+kani')

p('P27', 'Neural network layers compute their documented function',
  'Linear, embedding, convolution, normalisation, pooling, recurrent, attention, dropout and activation layers compute, for all inputs, parameters and options, the documented function of their parameters, and in evaluation mode use the statistics gathered in training.',
  ['inputs', 'configurations', 'histories'], 'all real inputs and parameters; options enumerated', 'No test.',
  ['crates/hodu_nn/src/modules'], [('forward functions', 'crates/hodu_nn/src/modules')], 'sym')

p('P28', 'Loss functions equal their definitions and have the true gradients',
  'Every loss equals its mathematical definition (reduced as documented: mean over all elements for MSE, BCE, cross entropy, NLL, smooth L1 and cosine embedding, over the batch for MAE, Huber and KL divergence) for all predictions and targets, under each option, and has the true gradient with respect to predictions and differentiable targets.',
  IN, 'all real inputs in the domain; options enumerated', 'No test.', ['crates/hodu_nn/src/losses'], [('loss formulas', 'crates/hodu_nn/src/losses')], 'sym')

p('P29', 'Optimizer steps follow their update rules over any history',
  'Over any sequence of step and zero_grad calls with any gradients, SGD, Adam, AdamW, RMSprop and Adagrad with every option change parameters exactly by their published recurrences.',
  ['inputs', 'configurations', 'histories'], 'all real gradients; option combinations and up to three steps', 'No test.', ['crates/hodu_nn/src/optimizers'], [('update rules', 'crates/hodu_nn/src/optimizers')], 'sym')

p('P30', 'Plugin messages round-trip and identify tensors faithfully',
  'Requests, responses, notifications and tensor payloads exchanged with plugins over JSON-RPC decode to what was encoded, for every message.',
  ['inputs'], 'all messages', 'Tests sample a few messages.', ['crates/hodu_plugin/src', 'crates/hodu_plugin_runtime/src'], [('rpc types', 'crates/hodu_plugin/src')],
  na='serde_json string processing over heap maps is outside what the symbolic engines here can encode; a concrete round trip would be sampling')

p('P31', 'Command line input parsing accepts exactly the documented forms',
  'The command line maps input specifications, shapes, devices and output formats to the intended tensors and settings, and rejects all others with an error.',
  ['inputs'], 'all argument strings', 'Few tests.', ['hodu-cli/src'], [('argument parsing', 'hodu-cli/src')],
  na='a binary crate whose logic is string handling and process plumbing; Kani does not scale to it and sampling strings is not solver-based')

p('P32', 'Invalid arguments are rejected with an error',
  'Operations given incompatible shapes, out-of-range dimensions or unsupported element types return an error; they neither panic nor return a tensor.',
  ['inputs', 'configurations'], 'parameter values enumerated around their valid ranges', 'No test.', [C + 'utils/valid.rs', TO], [('validation', C + 'utils/valid.rs')])

p('P33', 'Concurrent use of tensors is linearisable',
  'Threads that create, compute on and drop tensors and build gradients at the same time see the results each would see alone.',
  ['schedules'], 'all interleavings', 'Schedules cannot be sampled.', [C + 'tensor/registry.rs', C + 'tensor/gradient.rs'], [('sharded registry, global flags', C + 'tensor/registry.rs')],
  na='the shared state is dashmap with raw locks and atomics spread over several crates; the symbolic engines here (LLVM instrumentation, CBMC on C, Kani) cannot encode threads of this Rust code, and loom cannot be injected without replacing dashmap')
