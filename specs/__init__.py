"""Contracts per property; SPECS maps a property to its specification entry points."""
KINDS = ('proved by discharging every obligation generated from the current source, for all sizes, shapes, bounds and '
         'values: numeric arrays (any rank), vectors and scalars, simplex arrays, positive-definite matrices, '
         'dictionaries with any number of members and arrays of any shape of any pattern (members known by the contract '
         'of Pattern only, which gives every nesting depth by induction). ')
TRUST = ('Machine floats are treated as reals; numpy, scipy and autograd functions are assumed to meet the contracts in '
         'pv/ (assumption list in the evidence). A bounded run-time check of the same contracts on the real library '
         'accompanies the proof and is not counted in it.')
NOTES = {
    'C10': 'proved for numeric arrays, vectors and scalars and dictionaries of any number of patterns (the property '
           'claims nothing else). ',
    'C12': 'proved for any pattern meeting the contract of Pattern (which C01, C05 and C11 establish), and directly for '
           'the patterns of the package; files are modelled by the contract of numpy.savez and numpy.load (what is loaded '
           'under a name is what was last saved under it). ',
    'C13': 'proved as an invariant: a dictionary with any number of members, one operation, and the state is that of a '
           'dictionary freshly filled with the surviving members; locking covers every way a dictionary can become a '
           'member. ',
    'C14': 'proved for any number of wrapped arguments (a symbolic count, and each form the arguments can be given in for '
           'one to three), any patterns meeting the contract of Pattern, any function. ',
    'C15': 'proved for any number of wrapped return values (a symbolic count, and each form they can be given in for one '
           'to three), any patterns meeting the contract of Pattern, any function. ',
    'C16': 'proved for a vector of any length, any flat shape, any Hessian and any order of the setters (each operation '
           'after each setter, plus a frame check that every setter sets anew whatever any setter changes). ',
    'C17': 'proved for symmetric matrices of any size, with the eigendecomposition taken by its contract (orthonormal '
           'eigenvectors, ascending eigenvalues). ',
    'C18': 'proved as an invariant over histories: an arbitrary reachable state of the log, one operation, for any '
           'function of the argument. ',
    'C19': 'proved for any number of observations, groups and trailing dimensions; the derivative rules are proved to be '
           'the derivative of the function and its adjoint. ',
    'C20': 'proved for matrices of any size, dense and sparse, arguments of one and two dimensions and unknown solvers; '
           'differentiability to every order follows from the rules being made of differentiable functions only. ',
    'C21': 'proved for matrices of any size, single or stacked to any rank, right-hand sides with further leading '
           'dimensions, from the equations that define the derivative (A J + G X = 0); special functions by the table of '
           'their derivatives, where gamma and psi are finite. Stacked log determinants are refused (documented). ',
    'C23': 'proved for matrices of any size and an arbitrary permutation, with the contract of the sparse Cholesky '
           'factorization (P H P^T = L L^T). ',
    'C22': KINDS + 'Aliasing is tracked by the storage identity of the interpreted arrays. ',
}
SPECS = {p: {'level': 'proof', 'note': NOTES.get(p, KINDS) + TRUST}
         for p in ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23']}

REAL = 'floating-point numbers are real numbers, machine integers are mathematical integers; NaN is out of scope'
MEMBER = 'members of user-defined classes meet the contract of Pattern (pv/sympat.py); the classes of the package are proved to'
CHOL = 'numpy.linalg.cholesky: the unique lower triangular factor with positive diagonal of a positive-definite matrix'
GRAD = 'autograd operators give exact derivatives of functions made of operations with exact rules; its own rules are exact'
JSONC = 'json.loads(json.dumps(x)) = x for strings, numbers, booleans, None, lists and dictionaries with string keys'
ASSUME = {
    'C01': [MEMBER, CHOL], 'C02': [MEMBER, CHOL], 'C03': [MEMBER, 'numpy.random gives arbitrary values in the documented ranges'],
    'C04': [MEMBER, CHOL], 'C05': [MEMBER, CHOL, 'the rounding allowance for sums and symmetry is the one of the source'],
    'C06': [MEMBER], 'C07': [MEMBER], 'C08': [MEMBER], 'C09': [MEMBER, CHOL, GRAD], 'C10': [MEMBER, GRAD],
    'C11': [MEMBER, JSONC], 'C12': [MEMBER, JSONC, 'what numpy.load gives under a name is what numpy.savez was given'],
    'C13': [MEMBER, 'keys are compared by equality and are hashable'],
    'C14': [MEMBER, 'numpy.argsort is stable on distinct integers'], 'C15': [MEMBER, 'numpy.argsort is stable on distinct integers'],
    'C16': [GRAD, 'numpy.linalg.inv and scipy.sparse.linalg solvers invert exactly'],
    'C17': [GRAD, 'numpy.linalg.eigh: orthonormal eigenvectors, ascending eigenvalues'],
    'C18': [GRAD], 'C19': [], 'C20': ['the given solvers are linear functions'],
    'C21': ['numpy.linalg.inv, solve, slogdet by their defining equations', 'derivatives of the gamma family by table, away from poles'],
    'C22': [MEMBER], 'C23': ['the sparse Cholesky factorisation gives P H P^T = L L^T and solves with its factors exactly'],
}
for _p, _d in SPECS.items():
    _d['assumptions'] = [REAL] + ASSUME[_p]
