"""Writes MANIFEST.json from the table below (checks that exist in folxsa/checks) and the not-applicable list."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the sources (symbolic tensors, index sets, dtypes) against derivative polynomials'
CHECKS = {
    'C01': ('declaration checking: facts derived by abstract interpretation', 'Every recorded declaration is compared with derivatives computed from the operation model and with frozen fact tables.'),
    'C02': (AI, 'Registry entries that drop derivatives and every operand mix are decided; operations outside the library model are undecided and quiet.'),
    'C03': (AI, 'All branches of each rule are followed; value, Jacobian and first-order terms are compared as polynomials.'),
    'C04': (AI, 'All branches of each rule are followed; terms quadratic in the Jacobians are compared as polynomials.'),
    'C05': (AI, 'Closed-form rules are compared with derivatives of the operation model.'),
    'C07': (AI + '; symbolic index-set terms', 'The index pattern of each result is compared with the set of inputs its values belong to.'),
    'C08': ('binding-time (stage) analysis by abstract interpretation', 'Stages of all values are tracked; patterns must be known at trace time and traced indices must give dense, correct results.'),
    'C18': ('abstract interpretation with opaque functions and symbolic entries', 'All three operators on seven shapes; the forward operator also on symbolic dense and sparse Jacobians.'),
    'C19': ('abstract interpretation with opaque functions and symbolic entries', 'Every entry of Jacobians, cotangents and Hessians is compared with the partial derivative of an arbitrary function; shapes up to four entries, one to three arguments.'),
    'C20': (AI, 'All branches of the contraction rule for 23 dimension arrangements and 8 operand mixes, including the traced short-cuts.'),
    'C10': (AI, 'Component-wise rules are compared on value, Jacobian data, Laplacian and pattern.'),
    'C06': ('abstract interpretation of the seeding code (symbolic shapes, index sets)', 'Seeds for 13 argument arrangements, weights and thresholds are compared with the weighted identity.'),
    'C09': ('abstract interpretation: path conditions against the threshold', 'The threshold every rule receives is compared with its definition for concrete sizes; new patterns must be guarded by a test against a symbolic threshold.'),
    'C11': ('abstract interpretation of the equation evaluator over abstract programs', 'Rules and primitives are recording stand-ins; the recorded evaluation is compared with a direct reading of the program.'),
    'C12': ('abstract interpretation of the equation evaluator: liveness of the variable environment', 'Values reachable from the environment at each equation are compared with the live variables of the program.'),
    'C13': ('abstract interpretation of the loop handling over abstract programs', 'Loop bodies are followed on the initial and on traced carries; operands, loop parameters, layout and index patterns of the results and rejected loops are decided.'),
    'C14': ('abstract interpretation with forked exception paths', 'Operations fail at chosen places on abstract programs; the exception has to reach the caller or the fallback has to compute the same thing.'),
    'C15': ('effect analysis by abstract interpretation, library calls made to fail in turn', 'Stores of process-wide state before and after returning, raising and falling-back calls; registry histories of length three.'),
    'C16': ('ownership (alias and effect) analysis by abstract interpretation', 'Every in-place update on the analysed paths of rules, evaluator, seeds and utilities is checked to act on storage that nobody else owns.'),
    'C17': ('abstract interpretation with an opaque mapped function', 'The batched map is evaluated on symbolic arguments for 31 argument arrangements and 10 size pairs and compared with the model of vmap.'),
    'C21': ('abstract interpretation on abstract programs with concrete shapes', 'The estimate for 434 combinations of program, sizes and call arrangement is compared with the peak read off the program.'),
    'C22': ('abstract interpretation with recording stand-ins', 'The batch size is compared with the solution of the linear model for 572 combinations of costs, limit and fraction; failures by forked exception paths.'),
    'C23': ('abstract interpretation on symbolic trees', 'Every helper on 7 tree shapes with indices, slices, axes and size lists, compared leaf by leaf with the named operation.'),
    'C24': ('abstract interpretation of the public transformation over argument and result trees', 'Call arguments, keyword arguments and result structure are compared leaf by leaf.'),
    'C25': ('dtype inference by abstract interpretation', 'Symbolic operand dtypes, JAX promotion rules; weakly typed or unknown dtypes are not judged.'),
}
NOTE = ' Trusts the library models in folxsa/m_*.py; sizes generic; paths that leave the modelled fragment are reported as undecided in the evidence and never raise an alarm.'
NA = {
    'C26': 'accuracy to working precision quantifies over rounding errors of floating-point runs; no static argument over this source bounds them (the formulas are compared as exact polynomials instead, C03-C05)',
    'C27': 'how many inputs an output depends on is a run-time property of the traced program; sums of patterns and the addition of Jacobians legitimately over-approximate, so there is no source construct whose absence is a violation (the enforced clause is C09)',
    'C28': 'commutation with jit/vmap/grad/pmap is a property of the JAX tracing machinery on arbitrary user programs; only its structural ingredient, trace-time constant patterns, is visible in the source and is claimed as C08',
    'C29': 'time and memory of compiled programs are decided by XLA, not by this source',
}
for p in CHECKS:
    NA.pop(p, None)
m = {
    'version': 1,
    'setup_cmd': 'python3 -m folxsa.selftest',
    'checks': [{'property': p, 'quick_cmd': f'python3 -m folxsa.run {p}', 'thorough_cmd': f'python3 -m folxsa.run {p}', 'technique': t, 'level': 'other', 'level_note': n + NOTE}
               for p, (t, n) in sorted(CHECKS.items())],
    'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
    'notes': 'Checks parse /repo/folx/*.py on every run; nothing of /repo is imported or executed. Evidence lists the functions analysed, obligations and undecided items.',
}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
