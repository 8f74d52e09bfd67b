import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=['paragami/'+f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where='paragami/'+b) for a,b in mech],
        observe_at=observe or [],hook_needed=None)))

p('C01','Folding a flattened value gives the value back',
 'For every pattern (numeric arrays, vectors and scalars with any bounds, simplex arrays, positive-definite matrices, and dictionaries and arrays with any number of members, nested to any depth) and every valid folded value, flattening the value and folding the result in the same mode returns a value equal to the original, with the same shape and, for dictionaries, the same keys in the pattern\'s order. In the non-free mode this holds for every valid value; in the free mode it holds for every value strictly inside the constraint set.',
 ['inputs','configurations'],'all pattern constructions (shape, bounds, sizes, nesting), both modes, all valid folded values (over the reals)',
 'Tests try one or two random values of a few small fixed patterns per class, with unit-scale bounds; the claim quantifies over every shape, bound combination, nesting and value.',
 ['numeric_array_patterns.py','simplex_patterns.py','psdmatrix_patterns.py','pattern_containers.py'],
 [('bound transforms','numeric_array_patterns.py:_unconstrain_array/_constrain_array'),('softmax pair','simplex_patterns.py:_unconstrain_simplex_matrix/_constrain_simplex_matrix'),('log-Cholesky pair','psdmatrix_patterns.py:_pack_posdef_matrix/_unpack_posdef_matrix'),('offset bookkeeping','pattern_containers.py:PatternDict.fold/flatten, PatternArray.fold/flatten')],
 observe=['Pattern.fold','Pattern.flatten'])
p('C02','Flattening a folded vector gives the vector back',
 'For every pattern and every real vector of the pattern\'s free length, folding it in free mode and flattening the result in free mode returns the same vector, so the free parameterization is a bijection. For every vector of the non-free length that folds successfully in non-free mode, flattening the folded value in non-free mode returns the same vector, element for element.',
 ['inputs','configurations'],'all patterns and nestings, all real vectors of the right length',
 'The tests only start from folded values and never enumerate free vectors; the bijection must hold for every vector and every size.',
 ['numeric_array_patterns.py','simplex_patterns.py','psdmatrix_patterns.py','pattern_containers.py'],
 [('free transforms','numeric_array_patterns.py'),('vectorized triangle order','psdmatrix_patterns.py:_vectorize_ld_matrix/_unvectorize_ld_matrix'),('segment offsets','pattern_containers.py')],
 observe=['Pattern.fold','Pattern.flatten'])
p('C03','Folding any free vector, and empty and random, give valid values',
 'For every pattern and every free vector of the right length with finite entries, folding it in free mode yields a value in the constraint set: numeric entries lie within the bounds (and are never NaN), each simplex is non-negative and sums to one, and each matrix is symmetric positive definite with diagonal at least its lower bound. The valid "empty" value and every "random" value of a pattern also lie in the constraint set and have the pattern\'s folded shape.',
 ['inputs','configurations'],'all patterns, bounds, sizes; all finite free vectors, including very large and very small entries',
 'Tests fold a handful of vectors with entries in [0,1]; large entries, one-sided bounds and other sizes are never reached.',
 ['numeric_array_patterns.py','simplex_patterns.py','psdmatrix_patterns.py','pattern_containers.py','base_patterns.py'],
 [('constraining maps','numeric_array_patterns.py:_constrain_array'),('in-bounds value','numeric_array_patterns.py:_get_inbounds_value'),('softmax','simplex_patterns.py:_constrain_simplex_matrix'),('LL^T + lb','psdmatrix_patterns.py:_unpack_posdef_matrix')],
 observe=['Pattern.fold(free=True)','Pattern.empty','Pattern.random','Pattern.validate_folded'])
p('C04','Flat lengths and folded shapes are exactly as declared',
 'For every pattern, flattening a valid value in a given mode yields a one-dimensional array with exactly the number of entries the pattern reports as its flat length for that mode, and folding yields the pattern\'s folded shape; the reported lengths are those of the parameter type (for an n-by-n matrix n*n non-free and n(n+1)/2 free, for k-simplexes k and k-1 entries each, otherwise the number of entries, and for containers the sum over the members). Folding anything other than a one-dimensional vector of exactly the right length raises ValueError.',
 ['inputs','configurations'],'all patterns and nestings, both modes, all vectors of every length and dimension',
 'Tests check len() for a few shapes and one wrong-length vector per class.',
 ['base_patterns.py','numeric_array_patterns.py','simplex_patterns.py','psdmatrix_patterns.py','pattern_containers.py'],
 [('declared lengths','base_patterns.py:Pattern.flat_length'),('length checks','*.py:fold'),('container sums','pattern_containers.py:PatternDict._update_flat_length, PatternArray.__init__')],
 observe=['Pattern.flat_length','Pattern.flatten','Pattern.fold'])
p('C05','Validation accepts exactly the valid values',
 'Checking a folded value reports it valid exactly when its shape is right (for dictionaries: every key of the pattern is present) and, if value checking is on, every entry obeys the pattern\'s constraint (inclusive bounds; non-negative simplexes that sum to one up to rounding; symmetric matrices with diagonal at least the bound; members of a container all valid); otherwise it returns False with a message and does not raise. Flattening, and folding in non-free mode, raise ValueError exactly when that check fails. Whether values are checked is decided by the explicit argument when given, else by the pattern\'s own default, at every level of nesting.',
 ['inputs','configurations'],'all patterns, all folded values of every shape with real (not NaN) entries, all settings of the value-check argument and of the defaults',
 'Tests try one bad value per error message, always in a fixed position and with default settings.',
 ['numeric_array_patterns.py','simplex_patterns.py','psdmatrix_patterns.py','pattern_containers.py'],
 [('checks','*.py:validate_folded'),('shape checks','*.py:_validate_folded_shape'),('propagation','pattern_containers.py:PatternDict.validate_folded, PatternArray.validate_folded')],
 observe=['Pattern.validate_folded','Pattern.flatten','Pattern.fold'])
p('C06','The free mode is resolved once and applied uniformly',
 'In every operation that takes it, an explicit free/non-free argument decides the mode; if it is omitted the pattern\'s default decides, and if there is no default either the operation raises ValueError. A container resolves the mode once with its own default and applies it to every member, whatever the members\' own defaults are.',
 ['inputs','configurations'],'all patterns and nestings, all combinations of explicit argument, own default and members\' defaults',
 'Tests vary the default only on the outermost pattern, with members that have none.',
 ['base_patterns.py','pattern_containers.py','numeric_array_patterns.py','simplex_patterns.py','psdmatrix_patterns.py'],
 [('resolution','base_patterns.py:Pattern._free_with_default'),('propagation','pattern_containers.py:PatternDict.*, PatternArray.*')],
 observe=['Pattern.fold','Pattern.flatten','Pattern.flat_length','Pattern.flat_indices','PatternDict.flat_names'])
p('C07','The flat layout is row-major, member by member, and names follow it',
 'A numeric array or (non-free) matrix or simplex array flattens in row-major order; an array of patterns flattens as the concatenation of its elements\' flat values in row-major order of the array indices, and a dictionary as the concatenation of its members\' flat values in insertion order, in both modes. The names reported for the flat entries are as many as the flat entries, and the i-th one names the i-th entry: for numeric arrays the bracketed indices of that entry, for dictionaries the member\'s key, the delimiter and the member\'s own name.',
 ['inputs','configurations'],'all shapes, nestings, member orders and modes',
 'Round-trip tests cannot see a layout that is consistently permuted; no test looks at the order of flat entries or at the names.',
 ['pattern_containers.py','numeric_array_patterns.py','simplex_patterns.py','psdmatrix_patterns.py','base_patterns.py'],
 [('concatenation','pattern_containers.py:PatternDict.flatten, PatternArray.flatten'),('slices','pattern_containers.py:PatternArray._stacked_obs_slice'),('names','*.py:flat_names')],
 observe=['Pattern.flatten','Pattern.fold','Pattern.flat_names'])
p('C08','Flat indices locate exactly the selected entries',
 'In non-free mode the indices returned for a folded boolean selection pick out of the flat vector exactly the selected entries, each once and in increasing order. In free mode they contain the index of every free entry on which some selected entry depends, are distinct and lie within the free vector, never name an entry of a different array element, simplex or dictionary member than a selected one, and for numeric arrays are exact; an all-False selection gives an empty integer array.',
 ['inputs','configurations'],'all patterns and nestings, all boolean selections, both modes',
 'The test only sets one entry at a time in five fixed patterns and accepts any superset; selections of several entries, nesting below arrays, and dictionaries with other member orders are not reached.',
 ['numeric_array_patterns.py','simplex_patterns.py','psdmatrix_patterns.py','pattern_containers.py'],
 [('index caches','numeric_array_patterns.py:NumericArrayPattern.__init__'),('offsets','pattern_containers.py:PatternDict.flat_indices, PatternArray.flat_indices'),('simplex blocks','simplex_patterns.py:SimplexArrayPattern.flat_indices')],
 observe=['Pattern.flat_indices'])
p('C09','Jacobians are the derivatives of the free and flat maps',
 'At every value strictly inside the constraint set (of a matrix pattern, of size at least one), the freeing Jacobian is the matrix of partial derivatives of the free flat vector with respect to the flat vector, and the unfreeing Jacobian that of the flat vector with respect to the free flat vector, with rows and columns in flat order; for containers they are block diagonal in member order. The sparse and the dense forms hold the same matrix (the dense one as a plain two-dimensional array), and freeing times unfreeing is the identity.',
 ['inputs','configurations'],'all patterns and nestings, all interior values, both output forms',
 'Tests compare with automatic differentiation at one random value of a few small patterns, and never for dictionaries.',
 ['base_patterns.py','numeric_array_patterns.py','simplex_patterns.py','psdmatrix_patterns.py','pattern_containers.py'],
 [('elementwise derivatives','numeric_array_patterns.py:_unconstrain_array_jacobian/_constrain_array_jacobian'),('softmax Jacobians','simplex_patterns.py:_constrain_simplex_jacobian/_unconstrain_simplex_jacobian'),('autodiff default','base_patterns.py:Pattern.freeing_jacobian/unfreeing_jacobian'),('custom autodiff rules','psdmatrix_patterns.py:_unvectorize_ld_matrix_vjp/_jvp'),('block assembly','pattern_containers.py')],
 observe=['Pattern.freeing_jacobian','Pattern.unfreeing_jacobian'])
p('C10','Log determinants match the Jacobians',
 'For numeric arrays, vectors and scalars with any bounds, and for dictionaries of such patterns nested to any depth, the reported log absolute determinants of the freeing and of the unfreeing Jacobian equal the logarithm of the absolute determinant of the corresponding Jacobian at every interior value. The two are therefore negatives of each other.',
 ['inputs','configurations'],'all bounds, shapes, nestings and interior values',
 'No existing test calls these functions.',
 ['numeric_array_patterns.py','pattern_containers.py'],
 [('log determinants','numeric_array_patterns.py:log_abs_det_*'),('sums over members','pattern_containers.py:PatternDict.log_abs_det_*')],
 observe=['Pattern.log_abs_det_freeing_jacobian','Pattern.log_abs_det_unfreeing_jacobian'])
p('C11','JSON restores an identical pattern; equality means identical',
 'For every registered pattern, nested to any depth, converting it to JSON and back (through its own class or through the type-dispatching loader) yields a pattern of the same type that compares equal and has every constructor setting of the original: shape or size, bounds, value-check default, free default, and members in the same order. Two patterns compare equal exactly when they have the same type and the same settings. Reading JSON of a different pattern type, or of an unregistered one, or registering the same type twice without allowing overwriting, raises an error.',
 ['inputs','configurations'],'all constructor settings of all pattern types, all nestings',
 'Tests round-trip a few patterns with default settings and use the pattern\'s own equality as the oracle, which cannot see a setting that equality itself ignores.',
 ['base_patterns.py','pattern_containers.py','numeric_array_patterns.py','simplex_patterns.py','psdmatrix_patterns.py'],
 [('describing dictionaries','*.py:as_dict'),('readers','*.py:from_json'),('registry','pattern_containers.py:register_pattern_json/get_pattern_from_json'),('equality','base_patterns.py:Pattern.__eq__')],
 observe=['Pattern.to_json','Pattern.from_json','get_pattern_from_json','Pattern.__eq__'])
p('C12','Saving to disk and loading restores value, pattern and extras',
 'For every registered pattern and every valid folded value, saving it to a file and loading that file returns an equal pattern, an equal folded value, and every additional named array unchanged. An invalid value is refused at save time rather than written.',
 ['inputs','configurations'],'all patterns, valid values and extra arrays',
 'One dictionary pattern with one extra array is tested.',
 ['pattern_containers.py'],
 [('save and load','pattern_containers.py:save_folded/load_folded')],
 observe=['save_folded','load_folded'])
p('C13','Dictionary patterns stay consistent under any history; locks hold',
 'After any sequence of setting, replacing and deleting members, a dictionary pattern\'s keys are the surviving ones in insertion order, each key maps to the last pattern set for it, and both flat lengths are the sums over the current members. Once a dictionary is locked, whether explicitly or by being made a member of another dictionary, every attempt to set, replace or delete a member raises ValueError and leaves it unchanged, so a containing pattern\'s lengths never become stale.',
 ['histories'],'all finite sequences of set, replace, delete, lock and nesting operations',
 'One fixed short history is tested.',
 ['pattern_containers.py'],
 [('mutators','pattern_containers.py:PatternDict.__setitem__/__delitem__'),('lock','pattern_containers.py:PatternDict.lock/_check_lock'),('lengths','pattern_containers.py:PatternDict._update_flat_length')],
 state=[('member dictionary','ordered map from key to pattern','pattern_containers.py:PatternDict'),('lock flag','whether members may change','pattern_containers.py:PatternDict'),('flat lengths','cached sums','base_patterns.py:Pattern')],
 observe=['PatternDict.keys','PatternDict.__getitem__','Pattern.flat_length'])
p('C14','Wrapping a function\'s inputs only converts the chosen arguments',
 'A function wrapped to take flat (or folded) inputs, called with any arguments, returns exactly what the original returns when each chosen positional argument is folded (or flattened) with its own pattern and its own free flag, and every other positional and keyword argument is passed through unchanged and in place. This holds for any number of patterns, any distinct argument positions given in any order, and free flags given singly or per pattern; inconsistent numbers of patterns, positions or flags, or repeated positions, are rejected at construction with ValueError.',
 ['inputs','configurations'],'all functions, patterns, distinct argument positions in every order, modes, extra arguments',
 'Tests use at most two patterns and four arguments in a few orders.',
 ['function_patterns.py'],
 [('argument rewriting','function_patterns.py:TransformFunctionInput.__call__'),('construction checks','function_patterns.py:TransformFunctionInput._validate_args'),('convenience classes','function_patterns.py:FoldFunctionInput/FlattenFunctionInput')],
 observe=['TransformFunctionInput','FoldFunctionInput','FlattenFunctionInput'])
p('C15','Wrapping a function\'s outputs only converts the chosen return values',
 'A function wrapped to return flat (or folded) values returns exactly the original\'s return values with each chosen one flattened (or folded) with its own pattern and free flag and all others unchanged and in place, whatever the number and order of the chosen positions; a function returning a single value that is not a tuple gets that value converted. Choosing a position that the function does not return raises ValueError, as do repeated positions or inconsistent numbers at construction. The combined input-and-output wrappers equal wrapping the outputs and then the inputs.',
 ['inputs','configurations'],'all functions, numbers of return values, distinct positions in every order, patterns and modes',
 'Tests use at most two patterns and four return values; the error cases are not tested.',
 ['function_patterns.py'],
 [('return rewriting','function_patterns.py:TransformFunctionOutput.__call__'),('construction checks','function_patterns.py:TransformFunctionOutput._validate_args'),('combined wrappers','function_patterns.py:FoldFunctionInputAndOutput/FlattenFunctionInputAndOutput')],
 observe=['TransformFunctionOutput','FoldFunctionOutput','FlattenFunctionOutput','FoldFunctionInputAndOutput','FlattenFunctionInputAndOutput'])
p('C16','A preconditioned function is the original composed with its preconditioner',
 'Whatever sequence of preconditioners has been set, evaluating the preconditioned function at a point of the preconditioned space equals evaluating the original at the un-preconditioned point under the most recently set preconditioner; initially that is the identity. With a matrix preconditioner A, dense or sparse, un-preconditioning multiplies by A, preconditioning multiplies by the given inverse or by the inverse of A, so the two undo each other, and the reported matrices are A and its inverse; the consistency check raises ValueError exactly when the two operators fail to invert each other on the given vector beyond the tolerance.',
 ['inputs','histories','configurations'],'all functions, all invertible matrices of every size, dense and sparse, with or without a supplied inverse, all setter sequences',
 'Tests use one 3-by-3 matrix and a fixed sequence.',
 ['optimization_lib.py','autograd_supplement_lib.py'],
 [('operators','optimization_lib.py:PreconditionedFunction.set_preconditioner_matrix/set_preconditioner_functions'),('evaluation','optimization_lib.py:PreconditionedFunction.__call__/precondition/unprecondition'),('matrix extraction','optimization_lib.py:_get_matrix_from_operator')],
 state=[('operators','multiplication by the preconditioner and by its inverse','optimization_lib.py:PreconditionedFunction')],
 observe=['PreconditionedFunction'])
p('C17','Hessian preconditioning uses the inverse root of the clipped Hessian',
 'Setting the preconditioner from a symmetric matrix whose clipped eigenvalues are positive makes the preconditioner the symmetric inverse square root of the matrix with the same eigenvectors and each eigenvalue clipped to the given limits (clipping being skipped for a limit not given), so that sandwiching the clipped matrix between two copies of the preconditioner gives the identity, and the inverse operator undoes it. Clipping never changes an eigenvalue already within the limits, never mutates its input and is exact for any numeric type; giving both or neither of a point and a Hessian raises ValueError, and a Hessian is evaluated at the given point when a point is given.',
 ['inputs','configurations'],'all symmetric matrices of every size, all limits, both ways of specifying the Hessian',
 'Tests use two small well-conditioned matrices and float eigenvalues.',
 ['optimization_lib.py'],
 [('clipping','optimization_lib.py:truncate_eigenvalues'),('spectral functions','optimization_lib.py:transform_eigenspace/_get_sym_matrix_inv_sqrt_funcs'),('setter','optimization_lib.py:PreconditionedFunction.set_preconditioner_with_hessian')],
 observe=['PreconditionedFunction.set_preconditioner_with_hessian','truncate_eigenvalues','transform_eigenspace'])
p('C18','The optimization objective counts, prints and logs faithfully',
 'After any sequence of evaluations, resets and changes of the print and log intervals, evaluating returns the original function\'s value, the evaluation count is the number of evaluations since it was last reset (derivative evaluations not counted), and an evaluation is printed (respectively logged) exactly when the corresponding interval is positive and divides the count before it. Each log entry keeps the count, the argument and the value as they were at that evaluation even if the caller later changes the argument in place, and the log keeps all entries since it was last cleared, in order; the gradient, Hessian and Hessian-vector product are those of the original function.',
 ['histories','inputs'],'all sequences of evaluations, resets and interval changes',
 'Tests run a dozen fixed sequences and look only at the number of lines and entries, never at their contents.',
 ['optimization_lib.py'],
 [('evaluation','optimization_lib.py:OptimizationObjective.f'),('log','optimization_lib.py:OptimizationObjective.log_value/reset_log')],
 state=[('evaluation count','evaluations since the last reset','optimization_lib.py:OptimizationObjective'),('log','recorded evaluations','optimization_lib.py:OptimizationObjective')],
 observe=['OptimizationObjective'])
p('C19','Grouped sums and replacement are right, with right derivatives',
 'Summing an array by groups gives, for each group, the sum of exactly the entries assigned to it, for arrays of any dimension and any number of (possibly empty) groups; replacing entries gives a new array equal to the replacement at the given distinct indices and to the original elsewhere. Their registered forward and reverse derivative rules are the exact derivative and its adjoint in every differentiable argument; mismatched lengths or out-of-range groups raise ValueError, and no input is modified.',
 ['inputs'],'all arrays, group vectors, numbers of groups, index sets, tangents and cotangents',
 'Tests use contiguous groups of equal size and one index set; the automatic gradient checks sample one point.',
 ['autograd_supplement_lib.py'],
 [('grouped sum','autograd_supplement_lib.py:grouped_sum/_ungroup'),('replace','autograd_supplement_lib.py:replace')],
 observe=['grouped_sum','replace'])
p('C20','Differentiable products and solvers have exact derivative rules',
 'The differentiable multiplication functions made from a matrix multiply by it and by its transpose, for vectors and for two-dimensional arguments, and the differentiable solvers apply the given solvers; their registered forward rules are the derivative and their reverse rules its adjoint, to every order of differentiation. Different matrices or solvers give independent functions, and arguments of more than two dimensions or matrices that are not two-dimensional raise ValueError.',
 ['inputs'],'all matrices, solvers, arguments, tangents and cotangents',
 'Tests check gradients numerically at one random point and one shape.',
 ['autograd_supplement_lib.py'],
 [('product','autograd_supplement_lib.py:get_sparse_product'),('solver','autograd_supplement_lib.py:get_differentiable_solver')],
 observe=['get_sparse_product','get_differentiable_solver'])
p('C21','The added forward-mode derivative rules are exact',
 'The forward-mode derivative rules that importing the package registers for matrix inversion, linear solving (in either argument, for vector, matrix and stacked right-hand sides), log determinants, and the gamma family of special functions equal the exact derivative of the function at every argument and in every direction.',
 ['inputs'],'all matrices and right-hand sides of every size and stacking, all arguments in the domain of the special functions, all tangents',
 'Tests compare numerically at a few points of one size.',
 ['autograd_supplement_lib.py'],
 [('linear algebra rules','autograd_supplement_lib.py:inv_jvp/jvp_solve/slogdet_jvp'),('special function rules','autograd_supplement_lib.py (module level defjvp calls)')],
 observe=['autograd.make_jvp of the registered functions'])
p('C22','Operations do not modify or alias what they are given',
 'No pattern operation (folding, flattening, validation, indices, Jacobians, log determinants, names, JSON) modifies its array or dictionary arguments or changes the pattern\'s own state, so repeating it gives the same answer. The result of flattening in either mode, and of folding in free mode, never shares storage with the argument, so later in-place changes to either do not affect the other.',
 ['inputs','histories'],'all patterns, both modes, all arguments and sequences of operations',
 'No test mutates a result or compares the argument before and after.',
 ['numeric_array_patterns.py','simplex_patterns.py','psdmatrix_patterns.py','pattern_containers.py','base_patterns.py'],
 [('copies','numeric_array_patterns.py:_unconstrain_array/_constrain_array (copy.copy)'),('fresh results','*.py:flatten')],
 observe=['Pattern.fold','Pattern.flatten','Pattern.flat_indices','Pattern.as_dict'])
p('C23','Sparse Cholesky preconditioners are a square root and its inverse',
 'For every sparse symmetric positive-definite matrix H, the two returned functions are linear maps S and its inverse with S transposed times S equal to H, whatever fill-reducing permutation the factorization uses, so that preconditioning with the inverse turns H into the identity; both can be differentiated with exact rules. A dense matrix is rejected with ValueError.',
 ['inputs'],'all sparse symmetric positive-definite matrices, all permutations chosen by the factorization',
 'Tests use one 5-by-5 matrix that is dense in all but type.',
 ['sparse_preconditioners_lib.py','autograd_supplement_lib.py'],
 [('square root','sparse_preconditioners_lib.py:_get_cholesky_sqrt_mat/_get_sparse_square_root_operators'),('entry point','sparse_preconditioners_lib.py:get_sym_matrix_inv_sqrt_funcs')],
 observe=['get_sym_matrix_inv_sqrt_funcs'])
p('C24','Free transforms keep floating-point accuracy near the constraint',
 'For every pattern and every folded value representable in double precision strictly inside the constraint set, the free round trip returns the value within a small relative error, however close to the boundary it lies.',
 ['inputs'],'all double-precision interior values',
 'Tests use values well inside the constraint set, to six decimals.',
 ['numeric_array_patterns.py','simplex_patterns.py','psdmatrix_patterns.py'],
 [('transforms','numeric_array_patterns.py:_constrain_array')],
 observe=['Pattern.fold','Pattern.flatten'])
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+'\n')
print(len(P))
