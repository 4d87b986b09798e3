import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)
CORE='uncertainties/core.py'; UM='uncertainties/umath_core.py'; UN='uncertainties/unumpy/core.py'

p('C01','Nominal values are exactly those of the plain float computation',
 "Every supported arithmetic operator and math function applied to numbers with uncertainties, alone or mixed in any operand position with plain Python or NumPy scalars, gives as nominal value exactly the float that the same operation gives on the operands' nominal values. It raises an exception exactly when the plain operation raises or (for powers) is not real, and never returns a wrong number instead. Functions given only plain numbers, and locally constant functions (floor, ceil, trunc, isnan, isinf, integer part, exponent), return exactly what the standard function returns, with the same type.",
 ['inputs'],"All operators and functions, all operand positions and scalar types, all float values including infinities, NaN, subnormals, huge and negative zero.",
 "Tests evaluate a few functions at a handful of ordinary points; the mixed-type, reversed-operand, exceptional and extreme cases form an unbounded input space.",
 [CORE,UM,'uncertainties/umath.py'],[('nominal evaluation in the function wrapper',CORE+': wrap'),('operator installation',CORE+': add_operators_to_AffineScalarFunc'),('math function wrapping',UM+': module loop, modf, ldexp, frexp, fsum')],
 ['return value / exception of each operation, next to the same operation on floats'])

p('C02','Every elementary operation records its true partial derivatives',
 "For each supported arithmetic operator (both operand orders, including powers and remainders) and each supported math function, at every point where it is differentiable, the derivative recorded with respect to each uncertain operand equals the mathematical partial derivative, to within floating-point accuracy (numerical-differentiation accuracy for the float remainder and gamma functions). This holds for every argument position and every way of passing plain and uncertain operands, over the whole range of magnitudes for which value and derivative are ordinary floats.",
 ['inputs'],"All elementary operations, argument positions, mixtures of exact/uncertain operands, and points of differentiability.",
 "Tests compare analytical with numerical derivatives at a few fixed points per function, so branches selected by sign, magnitude, parity or zero operands are mostly unvisited.",
 [CORE,UM],[('operator derivatives',CORE+': get_ops_with_reflection'),('math derivatives',UM+': fixed_derivatives'),('derivative evaluation',CORE+': wrap'),('numerical differentiation',CORE+': partial_derivative')],
 ['derivatives and std_dev of the result of one operation, against high-precision reference derivatives'])

p('C03','Undefined derivatives give NaN uncertainty; exact operands contribute nothing',
 "Where an operation has a value but no finite derivative (square root of 0, a fractional power of 0, a negative base with an uncertain exponent, arcsine at 1, ...) it returns the plain value without raising, and the uncertainty is NaN if an operand concerned has a non-zero uncertainty. Operands whose standard deviation is zero contribute exactly zero to every uncertainty, error budget and covariance even where the derivative is undefined, and their later update to a non-zero standard deviation reveals the undefined result as NaN.",
 ['inputs','histories'],"All operations at singular or boundary points, all combinations of exact and inexact operands, and later changes of the operands' standard deviations.",
 "Tests check powers and a few functions at selected singular points with one exact/inexact combination each.",
 [CORE,UM],[('exceptions in derivatives become NaN',CORE+': nan_if_exception'),('exact variables skipped',CORE+': error_components'),('power special cases',CORE+': get_ops_with_reflection (pow)'),('pow/fabs special cases',UM+': _deriv_*')],
 ['value, std_dev, error budget and covariance of results at singular points'])

p('C04','Composite expressions propagate correlations exactly to first order',
 "For any program that computes numbers from independent uncertain quantities through any sequence and nesting of supported operations, in any order and with arbitrary sharing of intermediate results, the derivative of each result with respect to each original quantity is the one given by the chain rule. Hence algebraically identical computations have equal uncertainties: what cancels (x-x, x/x, sums and differences of the same terms) has zero uncertainty and no spurious or missing dependence appears.",
 ['programs','inputs'],"All straight-line programs over the supported operations, all sharing patterns, shapes (chains, trees, DAGs), in-place operators and sizes.",
 "Tests evaluate a few short fixed formulas; the space of expression graphs, and the interplay of lazily expanded partial results, is unbounded.",
 [CORE],[('lazy linear combinations',CORE+': LinearCombination.expand'),('construction of linear parts',CORE+': wrap'),('derivatives cache',CORE+': AffineScalarFunc.derivatives')],
 ['derivatives and std_dev of every intermediate and final result against a shadow forward-mode model'],
 [('linear part','unexpanded or expanded combination of variable differentials',CORE+': LinearCombination.linear_combo')])

p('C05','Uncertainty, error budget, covariances and correlations are consistent',
 "For any set of results, each component of the error budget is |derivative| times the variable's standard deviation, the standard deviation is the square root of the sum of squared components (also when squares overflow or underflow), and the covariance of two results is the sum over their common variables of the products of derivatives and variances. The covariance matrix is symmetric, positive semi-definite up to rounding, has the variances on its diagonal and is invariant under reordering, and the correlation matrix is the covariance divided by both standard deviations.",
 ['inputs','programs'],"All sets of results, any number of shared/unshared variables, magnitudes from subnormal to near overflow, zero/NaN/infinite standard deviations.",
 "Tests check two- or three-element covariance matrices at ordinary magnitudes.",
 [CORE],[('error budget',CORE+': error_components'),('standard deviation',CORE+': std_dev property'),('covariance',CORE+': covariance_matrix'),('correlation',CORE+': correlation_matrix')],
 ['error_components(), std_dev, covariance_matrix(), correlation_matrix(), derivatives'])

p('C06','Standard deviation updates are validated and always seen by dependents',
 "Whenever the standard deviation of an original quantity is changed, every number already or later computed from it (evaluated before or not) reports uncertainties, error budgets and covariances for the new value, with nominal values and derivatives unchanged, and numbers not depending on it are unaffected. A negative standard deviation (including minus infinity) is refused on creation and update, leaving the previous value in force; zero, positive, infinite and NaN ones are accepted; nominal values cannot be reassigned and computed results cannot have their uncertainty set.",
 ['histories'],"All interleavings of creation, computation, reading, updating and rejected updates over any set of quantities and results.",
 "Tests change one standard deviation once or twice on one expression; histories mixing reads (which cache) with updates are unbounded.",
 [CORE],[('validated setter',CORE+': Variable.std_dev setter'),('uncertainty recomputed on read',CORE+': AffineScalarFunc.std_dev'),('read-only properties',CORE+': nominal_value')],
 ['std_dev / error_components / covariance reads after each history step'])

p('C07','Reading or using a number never changes it, even if interrupted',
 "Observing a number with uncertainty (value, uncertainty, derivatives, error budget, printing, formatting, comparing, hashing, copying, pickling, covariance, use as an operand or function argument) never changes what this or any other number later reports, whatever the number and order of observations (up to the rounding of floating-point sums), and repeated observations agree. An observation or computation interrupted by an exception at any point leaves every number intact: later observations give the same results as if the interrupted one had never been started.",
 ['histories','crash_points'],"All sequences and orders of observations over shared expression graphs, and an exception delivered at every executed line or bytecode boundary of the library during an observation.",
 "Tests observe each value once in a fixed order and never interrupt an evaluation.",
 [CORE,UM],[('in-place lazy expansion',CORE+': LinearCombination.expand'),('derivative caching',CORE+': AffineScalarFunc.derivatives'),('pickling state',CORE+': __getstate__')],
 ['full observation snapshot of all numbers before/after every observation and after each injected interruption'],
 [('linear part','replaced by its expanded form on first read',CORE+': LinearCombination.linear_combo')])

p('C08','Shared numbers and functions can be used concurrently from several threads',
 "When several threads concurrently read, print, compare, pickle, or compute with the same numbers with uncertainties, or call the same wrapped functions for the first time, each thread obtains the results that a sequential execution would give, no exception is raised, and the numbers report correct results afterwards. This holds for every interleaving of the threads' steps.",
 ['schedules'],"All interleavings, at bytecode granularity inside the library, of two or three threads performing observations or computations on shared numbers and shared wrapped functions.",
 "Tests are single-threaded, and natural scheduling almost never preempts inside the few vulnerable instructions.",
 [CORE],[('lazy expansion on first read',CORE+': LinearCombination.expand / AffineScalarFunc.derivatives'),('lazily filled derivative lists',CORE+': IndexableIter.__getitem__'),('keyword-derivative cache',CORE+': wrap / derivatives_all_kwargs')],
 ['per-thread results and final observations under controlled preemptive schedules'],
 [('linear part','unexpanded/expanded, replaced on first read',CORE+': LinearCombination.linear_combo'),('derivative cache','positional derivatives fetched so far',CORE+': IndexableIter.returned_elements')])

p('C09','Long computations cost linear work, no recursion limit and no leaks',
 "Building and then reading a long running sum, product or other chain of operations over N quantities takes a number of library steps proportional to N (not N squared), repeated reads do not redo the expansion, and neither computing, reading, copying, pickling nor releasing arbitrarily long chains hits a recursion limit. Numbers and results that are no longer referenced are released: computing, reading or printing keeps no hidden reference to them.",
 ['inputs','programs'],"All chain lengths and shapes (running sums, sum(), alternating operations, nested functions), all observation kinds.",
 "Tests time sums of a few sizes only; growth rate, recursion and retention are about all sizes.",
 [CORE],[('lazy linear parts',CORE+': AffineScalarFunc.__init__'),('iterative expansion',CORE+': LinearCombination.expand'),('pickling hooks',CORE+': LinearCombination.__getstate__')],
 ['count of executed library line events versus N; completion without RecursionError; live object counts after release'])

p('C10','Comparisons are consistent with the random-variable semantics',
 "Two numbers are equal exactly when their difference is zero with zero uncertainty, so a quantity equals itself and equal recomputations, and never equals an independent one of the same value unless both are exact; != is the negation of ==, < and > compare nominal values, <= and >= add equality, and truth is difference from zero. This holds in both operand orders against plain numbers of all real types; comparison with objects that are not real numbers never raises for == and != and returns False/True, and ordering against them raises the usual type error.",
 ['inputs'],"All pairs of independent, correlated, identical, exact and plain operands, including infinities and NaN, strings, None, containers, complex numbers.",
 "Tests compare a few hand-picked pairs; the relations must hold over all pairs and operand orders.",
 [CORE],[('comparison operators',CORE+': eq_on_aff_funcs … le_on_aff_funcs'),('operand conversion',CORE+': force_aff_func_args, to_affine_scalar'),('truth value',CORE+': __bool__')],
 ['results of the six comparisons, bool, hash, containment and sorting'])

p('C11','Copies have documented identity: copies of variables are independent',
 "A copy (shallow or deep) of an original uncertain quantity is a new independent quantity with equal value, standard deviation and tag: later updates of one do not affect the other and they are uncorrelated. A shallow copy of a computed result remains fully correlated with its variables, a deep copy is fully independent of all existing numbers while keeping its value, uncertainty and error-budget magnitudes. Copying never alters the original, whether or not it has been evaluated before, and works for every size of expression and kind of container.",
 ['inputs','histories'],"All quantities and results (lazily unevaluated or evaluated), copied directly or inside containers/arrays, followed by any updates.",
 "Tests copy one variable and one expression.",
 [CORE],[('copy hooks',CORE+': Variable.__copy__, __deepcopy__'),('result copy',CORE+': AffineScalarFunc.__deepcopy__'),('state hooks',CORE+': LinearCombination.__getstate__/__setstate__')],
 ['covariances, derivatives and std_dev of original and copy after updates'])

p('C12','Pickling round-trips values, uncertainties and correlations',
 "Any quantity, computed result, matrix, array or container of them survives pickling with every protocol and unpickling, in the same or another process: values, standard deviations, tags, error budgets and mutual correlations among the objects pickled together are preserved, and the restored quantities are new ones that can be updated and computed with independently of the originals. User-defined subclasses (with or without slots) and their extra attributes survive too, and pickling leaves the originals unchanged.",
 ['inputs','configurations'],"All object graphs of quantities and results, pickle protocols, subclass layouts, and evaluation states.",
 "Tests pickle a handful of values and three subclass layouts.",
 [CORE],[('state hooks',CORE+': AffineScalarFunc.__getstate__/__setstate__'),('linear part state',CORE+': LinearCombination.__getstate__/__setstate__')],
 ['observations of the restored graph (also in a fresh process) against the original'])

p('C13','Wrapped functions are faithful drop-in replacements',
 "A wrapped user function, called positionally or by keyword in any mixture, returns as nominal value what the original returns for the nominal values, with each uncertain argument's contribution given by the supplied derivative for that parameter or, if none is supplied, by numerical differentiation; derivatives are looked up for the right parameter whatever the calling form (positional, keyword, variable arguments, variable keywords, keyword-only, defaults, infinite derivative iterators). Called without uncertain arguments it returns the original result untouched; exceptions of the original propagate; the caller's arguments are never modified; and repeated calls in any order give the same results.",
 ['inputs','programs','histories'],"All function signatures, derivative specifications, call forms and sequences of calls.",
 "Tests cover about a dozen signature/call-form pairs, one call each.",
 [CORE],[('wrapper construction and call',CORE+': wrap'),('lazy derivative sequence',CORE+': IndexableIter'),('numerical derivatives',CORE+': partial_derivative')],
 ['arguments seen by the user function and derivatives; value and derivatives of the results'])

p('C14','Formatted numbers show correctly rounded values with the right digits',
 "For every format specification accepted, the printed nominal value and uncertainty are the true values rounded to the last displayed digit, both to the same decimal position when the uncertainty is finite and non-zero; the number of significant digits of the uncertainty is the requested one, or the Particle Data Group rule by default (which rounds up uncertainties starting with 950 to 999), and without uncertainty control the precision is that of the same float format. Exponent use follows the float rules applied to the larger of value and uncertainty, with one common exponent; an exactly zero uncertainty is shown as integer 0, and NaN/infinite parts are shown as such.",
 ['inputs'],"All values and uncertainties over the float range (special values included) and all combinations of precision, uncertainty control, type and options.",
 "Tests contain a table of a few hundred value/format pairs; rounding carries, PDG thresholds and exponent thresholds are dense in an infinite space.",
 [CORE],[('format parsing and precision',CORE+': AffineScalarFunc.__format__'),('PDG rule',CORE+': PDG_precision'),('digit limit',CORE+': signif_dgt_to_limit'),('rendering',CORE+': format_num')],
 ['the formatted strings, decoded by an independent reader'])

p('C15','Format layout options produce the documented layout',
 "Width, fill, alignment, sign, zero-padding, comma, percent and the pretty-print, LaTeX, shorthand and parentheses options of a format specification produce the documented layout in every combination: each part (or the whole, in shorthand) is padded to the width with the requested fill and alignment without altering or truncating digits, the sign option affects only the nominal value, and symbols, exponents, grouping and percent signs take the form of the requested notation. str(), format() with an empty specification and the format method agree, and unsupported specifications raise a value error.",
 ['inputs'],"All format specifications in the documented grammar and near misses, over all kinds of values.",
 "The option combinations multiply to hundreds of thousands, tests sample a few hundred.",
 [CORE],[('format parsing',CORE+': AffineScalarFunc.__format__'),('layout',CORE+': format_num, robust_align'),('notations',CORE+': EXP_PRINT, GROUP_SYMBOLS, to_superscript')],
 ['the formatted strings, reconstructed from the unpadded form and option semantics'])

p('C16','Printed numbers parse back to what was printed',
 "Every non-LaTeX string produced by printing or formatting a number (without thousands separators, percent signs or padding characters other than spaces, or zeros before the digits of a number) is accepted by the string parser and gives back exactly the value and uncertainty displayed, including pretty-print, shorthand, exponent, NaN and infinite forms. The plain representation of an untagged number parses back to exactly the same value and standard deviation.",
 ['inputs'],"All values/uncertainties and all eligible format specifications.",
 "Tests round-trip the rows of a fixed table.",
 [CORE],[('printing',CORE+': __repr__, __str__, __format__'),('parsing',CORE+': ufloat_fromstr, str_to_number_with_uncert, parse_error_in_parentheses')],
 ['format → parse → compare with decoded digits and original number'])

p('C17','String parsing accepts exactly the documented notations with their values',
 "Every string in a documented notation (value+/-uncertainty with either symbol, shorthand digits in parentheses with or without decimal point, implicit last-digit uncertainty, individual or factored exponents in e or times-ten-superscript form, NaN and infinite parts, enclosing parentheses, surrounding spaces) yields the mathematically intended value and uncertainty to float accuracy. Strings that are not a number with uncertainty raise a value error; they never yield a number silently.",
 ['inputs'],"All strings: all sentences of the documented grammar and arbitrary mutations of them.",
 "Tests parse about forty strings and reject a handful.",
 [CORE],[('parsing',CORE+': str_to_number_with_uncert'),('shorthand',CORE+': parse_error_in_parentheses'),('pretty-print floats',CORE+': to_float'),('superscripts',CORE+': nrmlze_superscript')],
 ['parsed value and uncertainty against an independent exact-decimal reader'])

p('C18','Creation, access and conversion rules hold for every accepted input form',
 "Creating a quantity from a value, a standard deviation and an optional tag (positional or keyword), or from the legacy tuple and string forms (with an obsolescence warning), gives a new independent quantity reporting exactly these; invalid creation inputs raise and legacy accessors warn but give the same results. The short and long access names and the nominal-value and standard-deviation utility functions agree for numbers with uncertainties, plain numbers and other objects; the standard score is the distance in standard deviations; and silent conversion to float, int or complex is refused.",
 ['inputs'],"All numeric types and values for value/uncertainty, tags, calling forms, legacy forms, and invalid inputs.",
 "Tests create a few variables in each form.",
 [CORE,'uncertainties/__init__.py'],[('creation',CORE+': ufloat, Variable.__init__'),('legacy',CORE+': ufloat_obsolete, CallableStdDev, set_std_dev'),('utilities',CORE+': nominal_value, std_dev, std_score'),('coercion refusal',CORE+': add_operators_to_AffineScalarFunc')],
 ['attributes, warnings and exceptions of each creation/access'])

p('C19','Correlated quantities reproduce the requested covariance matrix',
 "Creating correlated quantities from nominal values and any valid covariance matrix, or from (value, standard deviation) pairs and a correlation matrix, gives numbers with exactly these nominal values whose covariance matrix equals the requested one to within rounding relative to the standard deviations, including zero variances, perfectly correlated or singular matrices, widely different scales and any array-like input, which is left unmodified. The new quantities are independent of all others, carry the given tags on their underlying variables, and propagate these correlations through later computations.",
 ['inputs'],"All sizes, scales, ranks and correlation structures of positive semi-definite matrices and all input container types.",
 "Tests use a few 2x2 and 3x3 matrices.",
 [CORE],[('covariance input',CORE+': correlated_values'),('diagonalisation',CORE+': correlated_values_norm')],
 ['covariance_matrix of the created numbers and of functions of them'])

p('C20','Array operations act element by element like the scalar operations',
 "Arrays and matrices of numbers with uncertainties are created element-wise from values and standard deviations of any shape, every array math function and arithmetic operation gives for each element exactly what the scalar operation gives (same value, derivatives and correlations, result shape following broadcasting), and the nominal-value and standard-deviation accessors return float arrays of the same shape for arrays mixing uncertain and plain numbers. Array functions exist under NumPy's names for all supported scalar functions, locally constant ones give plain (e.g. boolean) arrays usable for indexing, and inputs are never modified.",
 ['inputs'],"All shapes (scalars, empty, multi-dimensional, non-contiguous views, broadcasting), element mixtures, functions and operators.",
 "Tests apply a few functions to 1-D arrays of two or three elements.",
 [UN,'uncertainties/unumpy/__init__.py'],[('vectorised functions',UN+': define_vectorized_funcs'),('creation',UN+': uarray, umatrix'),('access',UN+': nominal_values, std_devs')],
 ['element-wise observations against the scalar operations'])

p('C21','Matrix inverse and pseudo-inverse propagate uncertainties correctly',
 "The inverse and pseudo-inverse of any matrix with uncertain elements (arrays, matrices or nested lists, square or rectangular, correlated elements, plain elements mixed in) has the nominal values of the numerical inverse of the nominal values and the derivatives of the true matrix function with respect to every variable, so that the product with the original is the identity with zero uncertainty to rounding. Matrices keep matrix semantics (product, powers, transpose, inverse attribute, accessors), results have the matrix type when the input has it, the cutoff argument is honoured, and inputs are not modified.",
 ['inputs'],"All shapes, conditioning classes, full-rank patterns, container types, correlation structures and cutoff values.",
 "Tests invert a few small fixed matrices.",
 [UN,'uncertainties/unumpy/ulinalg.py'],[('derivative propagation',UN+': func_with_deriv_to_uncert_func'),('inverse',UN+': inv_with_derivatives'),('pseudo-inverse',UN+': pinv_with_derivatives'),('matrix class',UN+': matrix')],
 ['nominal values and derivatives of the result against independent numerical differentiation and A·A⁻¹ = 1'])

p('C22','The legacy code updater preserves program meaning',
 "Running the code updater on any program replaces each supported legacy construct (creation from tuples or strings, calls of standard-deviation attributes, setter calls, one-argument array creation), in dotted or undotted form, with or without tags and in any expression context, by its modern equivalent: the updated program computes the same results and no longer issues obsolescence warnings for these. Code using none of these constructs is left byte-for-byte unchanged, the output is always valid code, and updating twice changes nothing more.",
 ['programs'],"All programs mixing legacy, modern and unrelated constructs in arbitrary expression contexts, spacing and comments.",
 "Tests transform about twenty one-line snippets and compare text.",
 ['uncertainties/lib1to2/fixes/fix_ufloat.py','uncertainties/lib1to2/fixes/fix_uarray_umatrix.py','uncertainties/lib1to2/fixes/fix_std_dev.py','uncertainties/lib1to2/fixes/fix_std_devs.py','uncertainties/1to2.py'],
 [('creation fixer','uncertainties/lib1to2/fixes/fix_ufloat.py'),('array fixer','uncertainties/lib1to2/fixes/fix_uarray_umatrix.py'),('attribute fixers','uncertainties/lib1to2/fixes/fix_std_dev.py, fix_std_devs.py')],
 ['execution of the program before and after updating, and the updated text'])

p('C23','Everything but the array features works identically without NumPy',
 "When NumPy is not installed, the package and its math functions import and give, for any program using only scalar features (creation, computation, comparison, printing, parsing, covariance, copying, pickling, wrapping), exactly the same results as with NumPy installed. Only the documented NumPy-dependent features are absent, and using the array subpackage then raises an import error.",
 ['configurations','programs'],"All scalar-feature programs, in the two configurations with and without NumPy.",
 "The test suite runs in one configuration only.",
 [CORE,'uncertainties/__init__.py',UM],[('conditional definitions',CORE+': try: import numpy blocks'),('exports',CORE+': __all__'),('package init','uncertainties/__init__.py')],
 ['transcripts of the same generated programs executed in two interpreters, one with NumPy blocked'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
print(len(P))
for d in P:
    import re
    n=len(re.findall(r'[.](?:\s|$)',d['statement'])); 
    if n>3: print(d['id'],n)
