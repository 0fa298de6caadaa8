"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop('C01', 'Built-in rules declare only true facts about their operation',
 'For every operation that ships with a Laplacian rule, what the rule declares about it - elementwise, linear, linear in its first or in every single operand, a product, a pure selection/rearrangement of operand entries, which operands are indices, derivative-free - is true of that operation for all operands and parameters, and the rule evaluates the very operation it is registered for. '
 'A rule never claims a structure (for instance linearity) that would let a non-zero derivative term be skipped.',
 ['inputs', 'programs', 'configurations'], 'every registered operation, every operand position, every parameter value',
 'The tests call about half of the registered operations, at random points and one operand mix each; a wrong declaration on an untested operation, or on a tested one in an operand mix that is not sampled, passes.',
 ['folx/wrapped_functions.py', 'folx/wrapper.py', 'folx/api.py'],
 [('registry of rules', 'folx/wrapped_functions.py:_LAPLACE_FN_REGISTRY'), ('flag bit layout', 'folx/api.py:FunctionFlags')],
 ['result triple of every registered operation'])
prop('C02', 'Derivatives are dropped only where they are identically zero',
 'An operation applied to a differentiated value returns a plain value (no Jacobian, no Laplacian) only if its derivative is zero almost everywhere: sign, stop_gradient, comparisons, boolean/bitwise operations, finiteness tests and conversion to an integer or boolean type. '
 'Every other operation, including conversion between floating and complex types, returns value, Jacobian and Laplacian for at least every operand that carries one.',
 ['programs', 'inputs'], 'every operation in a traced program, every operand type, every target dtype',
 'Dropping a derivative is silent (the result is a smaller Laplacian); tests only notice it on the few compositions they differentiate.',
 ['folx/wrapper.py', 'folx/wrapped_functions.py', 'folx/api.py'],
 [('derivative-free wrapper', 'folx/wrapper.py:warp_without_fwd_laplacian'), ('dtype conversion', 'folx/api.py:FwdLaplArray.astype')])
prop('C03', 'Jacobian and first-order Laplacian follow the chain rule',
 'For every operation f of operands a_1..a_n - any subset of them differentiated, each with sparse or dense Jacobian, real or complex - the returned value is f(a), the returned Jacobian is the sum over differentiated operands of (df/da_i) J_i, and the Laplacian contains the sum of (df/da_i) L_i. '
 'No operand is omitted, counted twice, swapped or paired with another operand\'s derivative, and which of the evaluation strategies (dense/sparse, joint/one operand at a time, elementwise shortcut) runs does not change the result.',
 ['inputs', 'programs', 'configurations'], 'every operation, operand mix, sparsity state and evaluation strategy',
 'Strategy selection depends on shapes, sparsity and the number of differentiated operands; the tests fix a handful of shapes and mostly one differentiated operand.',
 ['folx/jvp.py', 'folx/wrapper.py', 'folx/utils.py'],
 [('strategy dispatch', 'folx/jvp.py:get_jvp_function'), ('dense rules', 'folx/jvp.py:dense_*'), ('sparse rules', 'folx/jvp.py:sparse_*')],
 ['FwdLaplArray returned by a rule'])
prop('C04', 'Second-order Laplacian term is complete under every strategy',
 'The Laplacian returned by an operation f contains exactly tr(J H_f J^T) - the full double sum over all pairs of differentiated operands, cross terms counted twice and diagonal terms once - whichever Hessian strategy (explicit Hessian, Hessian-vector products, trace form, off-diagonal block, dot product, closed form) is selected. '
 'The term is skipped only when f is linear in the differentiated operands jointly, and restricting the computation to a subset of input indices or output entries never loses a non-zero contribution.',
 ['inputs', 'programs', 'configurations'], 'every operation, operand mix, size relation and sparsity pattern',
 'Which strategy runs depends on run-time sizes (K versus D), flags and index overlap; an error in a rarely selected strategy or in the index restriction only shows for particular shapes.',
 ['folx/hessian.py', 'folx/utils.py', 'folx/custom_hessian.py', 'folx/wrapper.py'],
 [('strategies', 'folx/hessian.py'), ('zero short-cuts', 'folx/hessian.py:get_jacobian_hessian_jacobian_trace'), ('index set selection', 'folx/hessian.py:find_out_idx')])
prop('C05', 'Closed-form rules equal the calculus they shortcut',
 'The hand-written derivative rules - division, complex absolute value, (complex) log-determinant and its phase - return exactly the first and second derivatives of the function they stand for, for real and complex operands, any operand mix, any batch shape and sparse or dense Jacobians (including index patterns in which one input index occurs several times).',
 ['inputs', 'configurations'], 'every real/complex operand, batch shape and Jacobian representation',
 'The tests check each rule at a few random points; wrong factors that vanish for square-free, real, unbatched or duplicate-free inputs survive.',
 ['folx/custom_hessian.py', 'folx/wrapped_functions.py'],
 [('div', 'folx/custom_hessian.py:div_jac_hessian_jac'), ('abs', 'folx/custom_hessian.py:complex_abs_jac_hessian_jac'), ('slogdet', 'folx/custom_hessian.py:slogdet_jac_hessian_jac'), ('custom jvps', 'folx/wrapped_functions.py:slogdet_jvp,complex_abs_jvp')])
prop('C06', 'Inputs are seeded with the weighted identity Jacobian and zero Laplacian',
 'Before evaluation every input entry carries a zero Laplacian and, as Jacobian, its weight times the unit vector of its position in the flattened argument list (arguments in call order, row-major), in sparse and in dense mode alike. '
 'Sparse and dense seeds denote the same matrix, and inputs that already carry derivatives are used unchanged.',
 ['inputs', 'configurations'], 'every argument pytree, shapes, weights, sparse and dense mode',
 'Tests use a single array argument almost everywhere and never pass weights.',
 ['folx/interpreter.py', 'folx/utils.py'],
 [('seeding', 'folx/interpreter.py:init_forward_laplacian_state'), ('flattening', 'folx/utils.py:ravel')])
prop('C07', 'Sparse Jacobian storage always denotes the dense Jacobian',
 'Whenever a Jacobian is stored sparsely, entry by entry its index pattern names the input each stored value belongs to; padding (index -1) contributes nothing, repeated indices add up, and materialising it - fully or for a chosen index set - yields the same matrix as dense evaluation. '
 'Combining, reducing, broadcasting or re-indexing sparse Jacobians keeps every value paired with its own index.',
 ['inputs', 'programs', 'histories'], 'every sparse Jacobian reachable by any sequence of operations',
 'The tests compare sparse and dense runs on a few networks; patterns with padding, duplicates or broadcast axes arise only in particular compositions.',
 ['folx/api.py', 'folx/jvp.py', 'folx/utils.py'],
 [('materialisation', 'folx/api.py:FwdJacobian.materialize_for_idx,get_index_mask,dense_array'), ('addition', 'folx/api.py:FwdJacobian.__add__'), ('reduction', 'folx/jvp.py:sparse_sum_jvp')])
prop('C08', 'Sparsity patterns are trace-time constants with a dense fallback',
 'The index pattern of every sparse Jacobian is a concrete NumPy array at trace time, never a traced value, also inside jit, vmap and loops. '
 'When a pattern cannot be computed at trace time (data-dependent indexing) the operation falls back to dense Jacobians and still returns correct derivatives.',
 ['programs', 'configurations'], 'every operation and every tracing context',
 'Only tracing under jit with particular operands exposes a leaked tracer; the tests trace few compositions.',
 ['folx/jvp.py', 'folx/api.py', 'folx/hessian.py', 'folx/utils.py', 'folx/interpreter.py'],
 [('compile-time evaluation', 'folx/jvp.py:sparse_index_jvp,sparse_scatter_jvp; folx/hessian.py:find_out_idx'), ('fallback', 'folx/jvp.py:sparse_index_jvp')])
prop('C09', 'The sparsity threshold is interpreted, forwarded and enforced',
 'A threshold of 0 means dense everywhere; a value strictly between 0 and 1 means that fraction of the total number of input entries (over all arguments); any other value is an absolute count. '
 'The same threshold reaches every operation, including those in nested calls, loops and decomposed contractions, and an operation that computes a new index pattern (reduction, scatter) with more entries than the threshold returns a dense Jacobian instead.',
 ['inputs', 'configurations', 'programs'], 'every threshold value, argument list and nesting',
 'Results are the same when the threshold is ignored - only cost changes - so output-comparing tests cannot see it.',
 ['folx/interpreter.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/wrapped_functions.py'],
 [('interpretation', 'folx/interpreter.py:forward_laplacian'), ('enforcement', 'folx/jvp.py:sparse_sum_jvp,sparse_jvp,sparse_scatter_jvp')])
prop('C10', 'Component-wise views act on value, Jacobian and Laplacian alike',
 'Real part, imaginary part, complex conjugate and dtype conversion of a differentiated value apply the same component-wise operation to its value, to its Jacobian data and to its Laplacian, and leave the index pattern unchanged; so do the operations registered as plain liftings.',
 ['inputs', 'programs'], 'every differentiated value, every component-wise operation',
 'Tests exercise real/imag/conj on one network and compare the final Laplacian only.',
 ['folx/api.py', 'folx/wrapper.py', 'folx/wrapped_functions.py'],
 [('views', 'folx/api.py:FwdLaplArray,FwdJacobian'), ('lifting wrapper', 'folx/wrapper.py:wrap_elementwise')])
prop('C11', 'Every traced equation is evaluated once, in order, by the right rule',
 'Evaluating a traced program visits each equation once, in program order: with undifferentiated operands only it executes the primitive itself with its own parameters; otherwise it uses the registered rule of that primitive (or of the named inner function), the loop, nested-call or custom-derivative handling, or the generic full-Hessian rule when nothing is registered. '
 'Operands are passed in order with the equation\'s parameters, and each result is bound to its own output variable.',
 ['programs', 'configurations'], 'every jaxpr: equation kinds, nesting, multiple results, literals, constants',
 'Tests trace a dozen programs; multi-result equations, constants in nested calls and unregistered primitives hardly occur.',
 ['folx/interpreter.py', 'folx/wrapped_functions.py'],
 [('dispatch', 'folx/interpreter.py:eval_jaxpr_with_forward_laplacian'), ('rule lookup', 'folx/wrapped_functions.py:get_laplacian')])
prop('C12', 'Intermediate values live exactly until their last use',
 'While a traced program is evaluated, a variable\'s value is available at every use - however often it occurs as operand, including twice in one equation - and program outputs stay available to the end. '
 'An intermediate value (neither input, constant nor output of the program) is released once the equation holding its last use has read it, and intermediate values that are never used are not retained; literals are never counted.',
 ['programs', 'histories'], 'every jaxpr and every read/write order',
 'Early release crashes and late release leaks only for particular sharing patterns between equations.',
 ['folx/interpreter.py', 'folx/experimental/memory.py'],
 [('environment', 'folx/interpreter.py:JaxExprEnvironment'), ('memory environment', 'folx/experimental/memory.py:MemoryExprEnvironment')],
 state=[('reference_counter', 'uses left per variable', 'folx/interpreter.py')])
prop('C13', 'Loops propagate derivatives like the unrolled program',
 'A scan over undifferentiated inputs with differentiated carry or constants returns the carry and stacked outputs, with Jacobians and Laplacians, of the unrolled loop: constants, carry and per-step inputs keep their positions, length, direction and unrolling are passed on, index patterns of the carry are preserved and a step that would change them is rejected. '
 'In stacked outputs the loop axis leads the value and Laplacian, and comes after the Jacobian axis in the Jacobian.',
 ['programs', 'inputs'], 'every scan/fori_loop/while-free loop in a traced program',
 'There is no test that contains a loop.',
 ['folx/interpreter.py', 'folx/utils.py'],
 [('scan handling', 'folx/interpreter.py:eval_scan'), ('pattern re-attachment', 'folx/utils.py:extract_jacobian_mask')])
prop('C14', 'Failures surface and fallbacks recompute the same thing',
 'An exception raised while evaluating an operation reaches the caller; it is caught only where an alternative evaluation of the same operation on the same operands follows, and unsupported constructs (scanning over differentiated inputs, mismatching carry types or patterns) raise instead of returning a result. '
 'A fallback returns exactly what the primary path was meant to return.',
 ['programs', 'fault_sequences'], 'every exception at every operation',
 'Tests never make an operation fail.',
 ['folx/interpreter.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/experimental/vmap.py'],
 [('re-raise', 'folx/interpreter.py:eval_jaxpr_with_forward_laplacian'), ('fallbacks', 'folx/jvp.py:sparse_index_jvp; folx/hessian.py:find_out_idx; folx/experimental/vmap.py')])
prop('C15', 'Process-wide state is left as it was found',
 'After any call - returning or raising - the root logger\'s handlers, standard output, warning filters, JAX tracing mode and the rule registry are what they were before; only the explicit register/deregister functions change the registry, and they change exactly the named entry.',
 ['histories', 'fault_sequences'], 'every call sequence, including calls that raise',
 'Tests do not look at global state, and the exceptional exits are never taken.',
 ['folx/utils.py', 'folx/experimental/memory.py', 'folx/wrapper.py', 'folx/wrapped_functions.py'],
 [('logging prefix', 'folx/utils.py:LoggingPrefix'), ('stdout capture', 'folx/experimental/memory.py:Capturing'), ('registry', 'folx/wrapped_functions.py:register_function,deregister_function')])
prop('C16', 'Caller-owned data is never modified',
 'No call modifies arrays, index patterns, lists, dictionaries, parameter mappings or Jacobians passed to it or shared with other results; every in-place update inside the library acts on storage created in the same call.',
 ['inputs', 'histories'], 'every call, every alias between arguments, results and caches',
 'An in-place update of a shared index pattern corrupts a later, unrelated result; tests check one result per input.',
 ['folx/api.py', 'folx/utils.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/interpreter.py', 'folx/vmap.py'],
 [('in-place updates', 'every subscript/attribute store and mutating call in folx/')])
prop('C17', 'Batched vmap equals vmap',
 'For every function, batch size, axis specification (input axes including unmapped arguments and pytrees, integer output axes), the batched map returns what a plain vmap of the function returns, keyword arguments being passed on unmapped: each batch element is processed exactly once and appears at its own position, on the requested output axis. '
 'At most the requested number of elements is processed per step.',
 ['inputs', 'configurations'], 'every batch length N and batch size M (dividing or not), axes, argument structure',
 'Tests use a few (N, M) pairs and mostly axis 0.',
 ['folx/vmap.py'],
 [('splitting and reassembly', 'folx/vmap.py:batched_vmap')])
prop('C18', 'All Laplacian operators return trace of the Hessian and flat gradient',
 'For a real scalar function of one array of any shape, the forward, loop and parallel Laplacian operators all return the same pair: the scalar sum of all unmixed second derivatives over the flattened input, and the gradient as a flat array in row-major order. Each operator calls the function with the input in its original shape.',
 ['inputs', 'programs'], 'every scalar function and input shape',
 'The tests only run the forward operator, on one function of a vector.',
 ['folx/operators.py'],
 [('operators', 'folx/operators.py')])
prop('C19', 'Complex-aware AD helpers return the true complex derivatives',
 'The helpers for vector-Jacobian products, Jacobians (forward and reverse) and Hessians return the plain complex derivative for real-to-real, real-to-complex and holomorphic functions (arguments all real or all complex) - real and imaginary parts with the right sign and conjugation, one row per output entry and one column per input entry in order - and agree with each other.',
 ['inputs', 'programs'], 'every real/complex input-output combination and every (multi-argument) function',
 'Tests compare against jax on three functions; conjugation and sign errors cancel for symmetric test functions.',
 ['folx/ad.py'],
 [('vjp', 'folx/ad.py:vjp,vjp_rc'), ('jacobians', 'folx/ad.py:jacrev,jacfwd'), ('hessian', 'folx/ad.py:hessian')])
prop('C20', 'Contractions produce the dot_general result layout for all dimension numbers',
 'For every combination of batch, contracting and free dimensions of the two operands - any order, any ranks, none or several of each - a contraction of differentiated values returns its axes as batch dimensions, then free dimensions of the left, then of the right operand, contracts exactly the paired dimensions, and does so on the sparse short-cuts exactly as on the general path.',
 ['inputs', 'configurations'], 'every dimension_numbers and operand ranks/shapes',
 'The tests use a handful of matmul shapes; the short-cut conditions depend on size coincidences they do not produce.',
 ['folx/wrapped_functions.py'],
 [('contraction rule', 'folx/wrapped_functions.py:dot_general,rearrange')])
prop('C21', 'Memory estimation counts every live tensor once',
 'The estimate is the peak, over the equations in program order, of the bytes of all tensors live at that equation (inputs and constants stay live), plus the peak of the nested call or loop body being evaluated: every tensor is added once when written and every intermediate one is removed once after its last use, in bytes of its own dtype and size, and static arguments are excluded. The number printed last is returned and all other captured output is printed.',
 ['programs', 'inputs'], 'every traced program',
 'There are no tests of the estimator.',
 ['folx/experimental/memory.py'],
 [('accounting', 'folx/experimental/memory.py:MemoryExprEnvironment,_compute_jaxpr_memory'), ('capture', 'folx/experimental/memory.py:compute_memory')])
prop('C22', 'Automatic batching solves the linear memory model safely',
 'The automatic batch size is the largest positive integer n for which base + n * per-element cost stays within the allowed fraction of device memory, where both costs come from measurements with one and two elements; zero per-element cost means unbounded, less than one means one. The map always runs with the caller\'s arguments and axes, and any failure while estimating leads to batch size one, not to a failure or another function.',
 ['inputs', 'configurations', 'fault_sequences'], 'every measured cost pair, memory limit and fraction',
 'There are no tests; the estimate is device dependent.',
 ['folx/experimental/vmap.py'],
 [('batch size', 'folx/experimental/vmap.py:auto_batched_vmap')])
prop('C23', 'Tree utilities compute the named operation leaf by leaf',
 'The tree helpers scale, shift, add, subtract, multiply, index, slice, expand, concatenate, split, and reduce (sum, dot product, squared norm) pytrees of arrays leaf by leaf with operands in order, on the requested axis, and keep the tree structure; splitting by sizes returns consecutive pieces that concatenate to the input.',
 ['inputs'], 'every pytree, axis, index and size list',
 'There are no direct tests; only the few helpers on the main path are exercised, at one axis.',
 ['folx/tree_utils.py'],
 [('helpers', 'folx/tree_utils.py')])
prop('C24', 'The transformed function is called and answers like the original',
 'forward_laplacian passes positional and keyword arguments through to the function exactly as given, returns its output tree structure with a differentiated value at every leaf position in order, whether or not jit is disabled, and differentiates with respect to all positional arguments and no keyword argument.',
 ['programs', 'inputs', 'configurations'], 'every signature, output structure and option',
 'Tests call functions of one positional array returning one array.',
 ['folx/interpreter.py', 'folx/__init__.py'],
 [('transformation', 'folx/interpreter.py:forward_laplacian')])
prop('C25', 'Value, Jacobian and Laplacian of a result share its dtype',
 'The value, Jacobian data and Laplacian of every differentiated result have the dtype that the operation itself returns for its operands; intermediate buffers take the dtype of the data they hold, so single precision, double precision and complex inputs are neither promoted nor truncated. Only the component discarded by a complex-to-real operation may be dropped.',
 ['inputs', 'configurations'], 'every operation and operand dtype',
 'One test checks the dtype of one network in one precision.',
 ['folx/wrapper.py', 'folx/api.py', 'folx/utils.py', 'folx/jvp.py'],
 [('final cast', 'folx/wrapper.py:wrap_forward_laplacian'), ('buffers', 'folx/utils.py:extend_jacobians,broadcast_dim; folx/api.py:construct_jac_for')])
prop('C26', 'Computed Laplacians are accurate to working precision',
 'For well-conditioned programs the returned value, Jacobian and Laplacian agree with exact arithmetic up to a small multiple of the unit round-off of the working dtype, also near branch points, poles and for large intermediate values.',
 ['inputs', 'programs'], 'every program and input',
 'Tests compare a few random points with loose tolerances.',
 ['folx/jvp.py', 'folx/hessian.py', 'folx/custom_hessian.py'], [('all arithmetic', 'folx/')])
prop('C27', 'Sparse patterns contain no more entries than the threshold allows',
 'At every point of a program the number of stored entries per output of a sparse Jacobian is at most the threshold, and patterns contain only inputs the output really depends on.',
 ['programs', 'inputs', 'configurations'], 'every program',
 'Pattern sizes are not observable from results.',
 ['folx/jvp.py', 'folx/api.py'], [('pattern computation', 'folx/jvp.py')])
prop('C28', 'Transformed functions compose with jit, vmap, grad and pmap',
 'The transformed function can itself be jitted, vmapped and differentiated, and gives the same results as the untransformed composition.',
 ['programs', 'configurations'], 'every composition of transformations',
 'The tests jit only.',
 ['folx/interpreter.py'], [('tracing', 'folx/interpreter.py:forward_laplacian')])
prop('C29', 'Forward Laplacian is not slower or larger than the Hessian trace it replaces',
 'Time and memory of the transformed function stay within a constant factor of (number of inputs) times one evaluation, and sparsity never increases either.',
 ['programs', 'inputs'], 'every program',
 'No performance tests exist.',
 ['folx/jvp.py', 'folx/hessian.py'], [('strategy choice', 'folx/hessian.py:general_jac_hessian_jac')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
