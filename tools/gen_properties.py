#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays readable)."""
import json, os
P = []
COL = 'casadi_extras/collocation/'

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if observe: a['observe_at'] = observe
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

prop('C01', 'Differentiation matrices are exact for polynomials',
     'For any set of n distinct nodes, in any order and on any scale, the differentiation matrix of the polynomial basis on these nodes maps the node values of every polynomial of degree at most n-1 to the node values of its exact derivative. The same holds for the Chebyshev differentiation matrix on the grid from t0 to tf, for every order and every t0 != tf (also t0 > tf).',
     ['inputs', 'configurations'], 'all node vectors with distinct entries, all polynomials of degree < n, all t0 != tf, all orders',
     'Tests compare the matrix for one Legendre grid of order 3 and Chebyshev grids of order 0-3 and 20 with two functions; nodes, scale and the polynomial are real-valued unknowns.',
     [COL + 'polynomial.py'], [('barycentric weights and differentiation matrix', 'polynomial.py PolynomialBasis.__init__'), ('Chebyshev grid and scaling', 'polynomial.py cheb')], ['PolynomialBasis.D', 'cheb()[0]'])
prop('C02', 'Polynomial interpolation reproduces node values and polynomials',
     'For any distinct nodes and any query point (at a node, between nodes or outside the range), the interpolation matrix, the barycentric interpolator and the polynomial interpolator return exactly the node value at a node, and the value of p at the query point whenever the node values are those of a polynomial p of degree below the number of nodes. Vector queries give, column by column, the results of the scalar queries. Integer data give the same results as the same numbers of floating-point type, and earlier calls do not influence later ones.',
     ['inputs', 'configurations', 'histories'], 'all distinct node vectors, node values, query points and numbers of nodes',
     'Tests query two points of one Legendre and one Chebyshev basis; whether a query coincides with a node is a data-dependent branch.',
     [COL + 'polynomial.py'], [('node/between-node branch of the barycentric formula', 'polynomial.py PolynomialBasis.interpolationMatrix'), ('interpolators', 'polynomial.py barycentricInterpolator, polynomialInterpolator')])
prop('C03', 'Lagrange basis polynomials and composition agree with interpolation',
     'Every basis polynomial is 1 at its own node, 0 at all others, and has degree (number of nodes - 1). Composing a coefficient matrix gives, for each of its rows, the polynomial sum of coefficient times basis polynomial, which takes the coefficients as values at the nodes and agrees with interpolation everywhere.',
     ['inputs', 'configurations'], 'all distinct node vectors, coefficient matrices and evaluation points',
     'Tests check one 2x3 coefficient matrix on one node set, using the basis polynomials themselves as oracle.',
     [COL + 'polynomial.py'], [('basis construction', 'polynomial.py PolynomialBasis.__init__'), ('composition', 'polynomial.py PolynomialBasis.compose')])
prop('C04', 'Collocation grids span the interval and are ascending',
     'The Chebyshev grid of order N has N+1 strictly monotone points, the first is exactly the left end and the last the right end of the requested interval, they are the affine image of (1-cos(k*pi/N))/2, and the grid is symmetric about the middle. For the other schemes the unit grid is 0 followed by the N collocation points of the scheme, strictly ascending within [0,1].',
     ['inputs', 'configurations'], 'all interval ends t0 != tf, all orders and schemes up to the bound',
     'Tests look at the grid of orders 0 and 1 only; the interval ends are real-valued unknowns.',
     [COL + 'polynomial.py'], [('grid formula', 'polynomial.py collocationPoints'), ('affine map of the grid', 'polynomial.py cheb')])
prop('C05', 'Butcher tableaus integrate polynomials exactly',
     'For any distinct collocation nodes, row i of A integrates every polynomial of degree below the number of nodes exactly from 0 to node i, b integrates it exactly from 0 to 1, and c holds the nodes; the tableau obtained by method name is the one for the collocation points of that method and order. A tableau whose A, b and c have inconsistent dimensions is refused. Tableaus made before do not influence later ones.',
     ['inputs', 'configurations', 'histories'], 'all distinct node vectors, all polynomials of degree < n, all array shapes up to the bound',
     'Tests use Legendre nodes of order 1-4 with one random polynomial each; no test for other nodes, Radau, or inconsistent shapes.',
     [COL + 'butcher.py'], [('integrated Lagrange polynomials', 'butcher.py butcherTableuForCollocationPoints'), ('shape checks', 'butcher.py ButcherTableau.__init__')])
prop('C06', 'Piecewise polynomials evaluate on the interval selected by continuity',
     'At every point strictly inside an interval the value is that of the interval\'s interpolating polynomial in the normalized coordinate; at an interior interval boundary it is the value from the right interval with right continuity (the default) and from the left interval with left continuity. Before the first and after the last bound the polynomial of the outermost interval is continued, a vector query gives one column per point in order, and any other continuity option is refused. Integer data give the same results as the same numbers of floating-point type, and earlier calls do not influence later ones.',
     ['inputs', 'configurations', 'histories'], 'all ascending interval bounds, coefficients, bases and query points (vectors included)',
     'Tests evaluate six small piecewise polynomials at a handful of points; which interval is selected is a data-dependent branch on real inputs.',
     [COL + 'piecewise_poly.py', COL + 'polynomial.py'], [('interval search and clipping', 'piecewise_poly.py PiecewisePoly.__call__'), ('normalization of the query point', 'piecewise_poly.py PiecewisePoly.__call__')])
prop('C07', 'The derivative of a piecewise polynomial is its exact derivative',
     'On every interval the derivative object represents the exact time derivative of the polynomial of that interval (scaled by that interval\'s own length), has the same intervals, and applying it repeatedly gives the higher derivatives. The original object is left unchanged. Integer data give the same results as the same numbers of floating-point type.',
     ['inputs', 'configurations', 'histories'], 'all ascending bounds with unequal interval lengths, coefficients, bases, query points and numbers of repeated differentiations',
     'No test calls it.',
     [COL + 'piecewise_poly.py'], [('differentiation matrix and chain rule', 'piecewise_poly.py PiecewisePoly.derivative')])
prop('C08', 'Interval polynomials of a piecewise polynomial agree with its values',
     'The list of polynomials returned for interval n has one polynomial per row, and each of them, evaluated at s, equals the corresponding row of the piecewise polynomial at (left bound of interval n) + s. This holds for every coefficient matrix, including those whose polynomial has a lower degree than the basis, and asking for the polynomials does not change the object.',
     ['inputs', 'configurations'], 'all bounds, coefficient matrices (degenerate degrees included), bases, intervals and offsets',
     'The test uses random coefficients, for which a vanishing leading coefficient has probability zero.',
     [COL + 'piecewise_poly.py'], [('composition and rescaling of coefficients', 'piecewise_poly.py PiecewisePoly.poly')])
prop('C09', 'Discretization covers each interval with steps not above the limit',
     'For every step size the sampled points of each interval are ascending, start at its left bound, end exactly at its right bound and are at most one step apart; the returned values are those of the interval\'s own polynomial at the sampled points (so an interior bound appears twice, once per side). Integer coefficients count as numbers, and sampling again with another step gives the samples for that step.',
     ['inputs', 'configurations', 'histories'], 'all ascending bounds, step sizes (larger and smaller than the intervals, dividing them or not) and coefficients',
     'The test runs one discretization and checks nothing.',
     [COL + 'piecewise_poly.py'], [('sampling of the normalized coordinate', 'piecewise_poly.py PiecewisePoly.discretize')])
prop('C10', 'Multi-interval differential quadrature differentiates exactly',
     'For a differential quadrature on several intervals the collocation points are ascending from the first to the last bound, contain every interval bound once, and have poly_order points per interval plus one. The derivative maps the point values of any function that is a polynomial of degree at most poly_order on each interval to its derivative at all points but the last, using the right interval at interior bounds. Bounds that are not in ascending order are refused.',
     ['inputs', 'configurations'], 'all ascending bounds, piecewise polynomials, polynomial orders and grid types whose last point is the interval end',
     'All tests of the class are disabled with unittest.skip.',
     [COL + 'collocation.py', COL + 'polynomial.py'], [('point vector and block differentiation matrix', 'collocation.py Pdq.__init__'), ('application', 'collocation.py Pdq.derivative')])
prop('C11', 'Differential quadrature integration inverts differentiation',
     'Integrating the derivative values of a function that is a polynomial of degree at most poly_order on each interval and continuous gives the increments of the function from the first point to each later point, for every number of rows and intervals. Differentiating the integral gives back the integrand.',
     ['inputs', 'configurations'], 'all ascending bounds, all right-hand sides, orders and numbers of intervals and rows',
     'No enabled test calls it.',
     [COL + 'collocation.py'], [('interval-wise linear solve and accumulation', 'collocation.py Pdq.integral')])
prop('C12', 'Quadrature interpolators honour the continuity option',
     'With option both, right or left, the interpolator reproduces on each interval the polynomial through all, all but the last, or all but the first of the interval\'s collocation points. At an interior interval bound options both and right use the right interval and option left uses the left interval; outside the range the outermost interval is continued, a wrong number of columns or an unknown option is refused. Integer values count as numbers, and an interpolator can be called repeatedly.',
     ['inputs', 'configurations', 'histories'], 'all ascending bounds, values at the points, query points, orders, and the three options',
     'One test evaluates a first-order trajectory at five points with the options both and right; left is never run.',
     [COL + 'collocation.py', COL + 'polynomial.py'], [('point groups per option', 'collocation.py _PdqInterpolator.__init__'), ('interval search', 'collocation.py _PdqInterpolator.__call__')])
prop('C13', 'System trajectories return stored state, algebraic state and input',
     'At every collocation point the state trajectory returns the stored state, and at all but the last one the algebraic state and input trajectories return their own stored values; between points each is the polynomial interpolation on the interval, and algebraic state and input never use values of the next interval. Data with a wrong number of columns is refused. Integer data count as numbers.',
     ['inputs', 'configurations'], 'all state, algebraic and input matrices, grids and query points',
     'The test looks at one scalar trajectory of order 1 and never queries the input.',
     ['casadi_extras/system_trajectory.py', COL + 'collocation.py'], [('choice of interpolator per signal', 'system_trajectory.py SystemTrajectory')])
prop('C14', 'Collocation equations vanish exactly on collocation solutions',
     'For every DAE (semi-explicit or implicit, any right-hand side and dimensions), grid, order and method, the equations consist of the DAE residual at every collocation point, with state (state at interval start + interval length times A-weighted derivatives of that interval), and the mismatch between the b-weighted interval end state and the next interval\'s state. Evaluating them gives these values for every assignment of the variables.',
     ['inputs', 'configurations', 'programs'], 'all DAE right-hand sides (uninterpreted functions), all values of x, K, Z, u, p; dimensions, grids, orders, methods and options within bounds',
     'Tests solve a few scalar problems on one or two equal intervals of the default method and compare end values.',
     [COL + 'collocation.py', COL + 'butcher.py', 'casadi_extras/dae_model.py'], [('assembly of the integration matrices and equations', 'collocation.py CollocationScheme.__init__')], ['CollocationScheme.eq', 'CollocationScheme.X'])
prop('C15', 'Quadratures are the tableau-weighted integral of the integrand',
     'The quadrature at the first grid point is zero, at each later one it has grown by the interval length times the b-weighted integrand of the interval in between, and at every collocation point it is the value at the start of the interval plus the A-weighted integrand of the same interval. This holds for every integrand, number of quadratures, grid, order and method.',
     ['inputs', 'configurations', 'programs'], 'all integrands (uninterpreted functions) and values of all variables; dimensions, grids and orders within bounds',
     'One test checks one quadrature on a single interval.',
     [COL + 'collocation.py'], [('accumulation over intervals', 'collocation.py CollocationScheme.__init__')], ['CollocationScheme.q', 'CollocationScheme.Q', 'CollocationScheme.quad'])
prop('C16', 'Inputs, parameters and time reach the right collocation points',
     'At every collocation point the DAE sees the input of the interval that contains it, the common parameter (or, with repeated parameters, the column of that point, and then equations demanding equal columns), the time (start of the interval + length times node) and the time-dependent parameter evaluated at that time. Expanding inputs of a differential quadrature repeats each interval\'s input for the points of that interval.',
     ['inputs', 'configurations', 'programs'], 'all DAE right-hand sides and signal values; grids, orders, option combinations within bounds',
     'Tests use one input on equal intervals and one time-dependent right-hand side; time-dependent parameters, repeated parameters and unequal intervals never occur.',
     [COL + 'collocation.py'], [('input expansion, time points, mapped DAE call', 'collocation.py CollocationScheme.__init__'), ('input expansion', 'collocation.py Pdq.expandInput')])
prop('C17', 'The reconstructed state trajectory is the collocation polynomial',
     'Given states at the interval starts and derivatives at the collocation points, the reconstructed trajectory on each interval starts at the given state, has the given derivatives at the collocation times, passes through the computed collocation states, and ends at the b-weighted end state. Evaluating the collocation states alone gives the same values.',
     ['inputs', 'configurations'], 'all state and derivative matrices; grids, orders and methods within bounds',
     'The only test that calls it cannot run here (licensed solver) and checks nothing of it.',
     [COL + 'collocation.py', COL + 'piecewise_poly.py'], [('interpolation through interval start and collocation states', 'collocation.py CollocationScheme.piecewisePolyX, evalX')])
prop('C18', 'Integrator outputs are one consistent solution of the collocation equations',
     'Whenever the root finder returns a root, all outputs of the collocation integrator describe the same solution: it starts at the given initial state, satisfies the collocation equations for the given input and parameters, the final states, collocation states, algebraic states, quadratures and times are those of this solution, and the final quadrature is the last one. The given algebraic guess is the starting point of the search at every collocation point.',
     ['inputs', 'configurations', 'programs'], 'all DAE right-hand sides, initial states, inputs, parameters, and all roots the root finder may return',
     'Tests compare end values for a few scalar systems; outputs X, Z, Q, x, K, tc are never looked at and no test has parameters.',
     [COL + 'collocation.py'], [('solve and substitution of the solution', 'collocation.py CollocationIntegrator.__init__')])
prop('C19', 'Converting a DAE to implicit form preserves it',
     'The implicit form of a semi-explicit DAE vanishes exactly where the state derivative equals the right-hand side and the algebraic equations hold, keeps all variables, dimensions and the quadrature, and converting an implicit DAE changes nothing.',
     ['inputs', 'configurations', 'programs'], 'all right-hand sides, argument values, dimensions and argument orders within bounds',
     'Only exercised indirectly with one or two scalar variables.',
     ['casadi_extras/dae_model.py'], [('conversion', 'dae_model.py SemiExplicitDae.makeImplicit'), ('function creation', 'dae_model.py Dae.createFunction')])
prop('C20', 'Inconsistent DAE definitions are refused',
     'A DAE is accepted exactly when states, algebraic states and inputs are symbolic columns, parameters and time-dependent parameters are symbolic, time is a symbolic scalar, equations are columns, and the numbers of equations match the numbers of the variables they determine. Reported dimensions always equal the numbers of elements of the given quantities, zero for omitted ones.',
     ['inputs', 'configurations'], 'all combinations of sizes (unbounded integers) and of the column / symbolic / scalar attributes, with and without the optional arguments',
     'No test passes an inconsistent definition.',
     ['casadi_extras/dae_model.py'], [('constructor checks', 'dae_model.py Dae, SemiExplicitDae, ImplicitDae')])
prop('C21', 'Parallel connection of DAE models keeps every model\'s equations',
     'Connecting time-invariant semi-explicit models in parallel gives one semi-explicit model whose variables, equations and quadratures are those of the models stacked in order, so that each block evaluates as the model would alone, for any number of models and dimensions.',
     ['inputs', 'configurations', 'programs'], 'all right-hand sides and variable values; number of models and dimensions within bounds',
     'No test calls it.',
     ['casadi_extras/dae_model.py'], [('stacking', 'dae_model.py parallel')])
prop('C22', 'Every structure is a bijection between entries and the flat vector',
     'The elements of all entries partition the flat index range: every flat index belongs to exactly one element of one entry, ordered by entry order (interleaved where entries are grouped), then repetition, nested structure and column-major element. Flat indices, index matrices, canonical indices and labels of any flat index agree with that order and are inverse to each other. The structure of a nested entry can be obtained by its name.',
     ['inputs', 'configurations'], 'all structure definitions within bounds (shapes, sparsity, repetition, nesting, grouping, explicit order) and all flat indices',
     'Tests only define structures of two plain vector entries.',
     ['casadi_extras/structure3.py'], [('canonical traversal and index map', 'structure3.py CasadiStructure.__init__, traverseCanonicalIndex'), ('lookup', 'structure3.py getCanonicalIndex, labels')], state=[('map', 'canonical index to flat indices', 'structure3.py CasadiStructure')])
prop('C23', 'Reading a structure returns exactly the selected elements',
     'For every structure kind (symbolic SX or MX, numeric, mutable) and every index made of names, integers (of Python or numpy type, negative ones count from the end), slices, lists, ellipsis, dictionaries, sets, callables and element indices, the result has the nesting and shape the index describes and contains exactly the selected elements of the flat vector. Prefixed access gives the same result as the full index. A prefix can be used repeatedly.',
     ['inputs', 'configurations', 'histories'], 'all contents of the vector, all integer indices, and all index forms within bounds',
     'Tests read whole entries by name and one last column.',
     ['casadi_extras/structure3.py'], [('index traversal', 'structure3.py traverseByPowerIndex'), ('getter', 'structure3.py GetterDispatcher, performExtraIndex'), ('split of MX vectors', 'structure3.py VertsplitStructure.buildMap')])
prop('C24', 'Writing to a structure changes the selected elements and nothing else',
     'After assigning through any index, reading through the same index returns the assigned values (scalars are broadcast, lists and dictionaries are distributed in the order of the index, numbers and arrays count as matrices, repeated() is repeated), and every element not selected by the index keeps its value, for numeric and both kinds of symbolic mutable structures and after any sequence of assignments. A refused assignment of a wrongly shaped matrix changes nothing.',
     ['inputs', 'configurations', 'histories'], 'all contents and assigned values, all index forms and assignment sequences within bounds',
     'Tests assign whole entries once and read them back.',
     ['casadi_extras/structure3.py'], [('setter', 'structure3.py SetterDispatcher'), ('distribution of right-hand sides', 'structure3.py payloadUnpack')])
prop('C25', 'Structures built from expressions contain these expressions in order',
     'A structure built from expressions, SX or MX, has as its flat vector the column-major nonzeros of the expressions in entry order, reading an entry gives the expression (for lists of expressions, element by element), and replacing an entry\'s expression of the same shape changes that entry only. A vector with an unassigned entry cannot be read, and assigning an expression of another shape to an MX structure is refused.',
     ['inputs', 'configurations', 'histories'], 'all expressions of the given shapes; definitions and replacement sequences within bounds',
     'Tests never read such a structure except through the collocation scheme.',
     ['casadi_extras/structure3.py'], [('MX storage and concatenation', 'structure3.py MXVeccatStruct'), ('SX assembly', 'structure3.py MatrixStruct.__init__')])
prop('C26', 'Symmetric matrix entries are and stay symmetric',
     'An entry of symmetric type stores only its upper triangle but reads as a full symmetric matrix, element (i,j) being the same value as (j,i) for every way of indexing. Assigning an element, submatrix or whole symmetric matrix and reading it back gives the assigned values in both triangles and leaves all other elements unchanged.',
     ['inputs', 'configurations', 'histories'], 'all contents and assigned values, all element indices, matrix sizes and repetitions within bounds',
     'No test uses a symmetric entry.',
     ['casadi_extras/structure3.py'], [('triangular storage', 'structure3.py CasadiStructEntry, GetterDispatcher, SetterDispatcher')])
prop('C27', 'Casting data to a structure puts every value in its place',
     'Casting a vector of the right length keeps its values in flat order, casting a scalar fills every element, casting a dictionary with exactly the structure\'s keys sets each entry to its value (scalars broadcast) and with any other key set or shape is refused. Parsing a matrix gives for every entry that is not repeated the side-by-side values of that entry in each column. The given dictionary is left as it was.',
     ['inputs', 'configurations'], 'all values, dictionaries, matrices and structure definitions within bounds',
     'Tests cast one dictionary and parse one 5x3 matrix.',
     ['casadi_extras/structure3.py'], [('casting', 'structure3.py CasadiStructureDerivable.__call__'), ('matrix parsing', 'structure3.py parseMatrix')])
prop('C28', 'Structured views of matrices address the right block',
     'Viewing a matrix as repeated, squared, product or repeated squared structure, reading by names gives the block of rows (and columns) belonging to these entries, for numeric and symbolic matrices. Writing through the view changes exactly that block of the underlying matrix, and matrices of the wrong dimensions are refused.',
     ['inputs', 'configurations', 'histories'], 'all matrix contents and assigned blocks; structures, repetitions and entry pairs within bounds',
     'No test uses a view.',
     ['casadi_extras/structure3.py'], [('views', 'structure3.py repeated, squared, product, squared_repeated, DataReference*')])
prop('C29', 'Rows and columns can be selected by the entries of another structure',
     'For an entry whose rows and columns are described by structures, selecting rows or columns by entry name, list of names or delayed index gives the submatrix of the flat indices of these entries in the describing structure, both for reading and writing. Using such an index on an entry or axis without a describing structure is refused.',
     ['inputs', 'configurations'], 'all contents; describing structures, names and index combinations within bounds',
     'No test uses such an entry.',
     ['casadi_extras/structure3.py'], [('delayed index', 'structure3.py delegation, performExtraIndex, DelegaterConstructor')])
prop('C30', 'Invalid structure definitions and indices are refused, never misread',
     'Unknown names, integer indices outside the repetition range, surplus indices, duplicate names, invalid orders, contradictory or unknown entry options and vectors of a wrong length raise an exception. None of them silently returns or modifies other elements.',
     ['inputs', 'configurations'], 'all integer indices (unbounded), all pairs of entry options, names and lengths within bounds',
     'Tests try one wrong key and one wrong shape.',
     ['casadi_extras/structure3.py'], [('argument checks', 'structure3.py CasadiStructEntry, EntryList, Structure'), ('index checks', 'structure3.py canonical, GetterDispatcher, SetterDispatcher')])
prop('C31', 'Structures survive saving, pickling and copying',
     'A structure or structured data that is pickled, deep-copied or saved to a file and loaded again has the same layout and the same values and accepts the same reads and writes. Several structured data objects that share a structure and are stored together each keep their own values, and storing does not change the originals.',
     ['inputs', 'configurations', 'histories'], 'all numeric contents; structure definitions and groups of objects stored together within bounds',
     'No test stores a structure.',
     ['casadi_extras/structure3.py'], [('state', 'structure3.py __getstate__/__setstate__ of CasadiStructure, CasadiStructured, DMStruct, CasadiStructEntry'), ('files', 'structure3.py save, struct_load')])
prop('C32', 'Inequalities keep bounds that match their expression',
     'An inequality holds exactly the given expression, lower bound, upper bound and nominal value; an omitted lower bound is minus infinity and an omitted upper bound plus infinity for every element, and anything whose shape differs from that of the expression is refused. A bounded variable is such an inequality over a fresh symbol with the shape of the nominal value.',
     ['inputs', 'configurations'], 'all bound values; shapes and combinations of omitted arguments within bounds',
     'Tests use vectors of length 2 and 3 and one wrong shape, for the lower bound only.',
     ['casadi_extras/inequality.py'], [('constructor', 'inequality.py Inequality.__new__, BoundedVariable.__new__')])
prop('C33', 'Concatenating inequalities keeps bounds with their expressions',
     'The concatenation of a list or dictionary of inequalities is the inequality whose expression, bounds and nominal value are those of the parts stacked in the same order, so that each element keeps its own bounds; parts of a dictionary are accessible by their key in all of them. Nominal values are present if all parts have them, and absent parts do not prevent concatenation.',
     ['inputs', 'configurations'], 'all bound values; numbers, shapes and order of the parts within bounds',
     'Tests concatenate two vector inequalities that have all attributes.',
     ['casadi_extras/inequality.py', 'casadi_extras/structure3.py'], [('concatenation', 'inequality.py vertcat')])

prop('C34', 'Structures stand for their flat vector in CasADi operations',
     'A structure object of any kind (numeric, SX or MX data, symbols, expressions) can be used wherever CasADi takes a matrix: in concatenations, arithmetic, products, function calls and, for symbols, as function inputs, outputs and in differentiation and substitution. It then stands for its flat vector as it is at that moment, also when the same structure occurs twice in one operation or entries were assigned before, and it reports the shape, size and density of that vector. A view of a matrix stands for the matrix, and a prefixed structure for the part it denotes.',
     ['inputs', 'operations', 'configurations'], 'all contents; all operations of the list; definitions within bounds',
     'Tests use structures in few operations with fixed values and never twice in one operation.',
     ['casadi_extras/structure3.py'], [('conversion', 'structure3.py __DM__, __SX__, __MX__, Prefixer.cast'), ('vector of expressions', 'structure3.py MXVeccatStruct.master')])

prop('C35', 'Symbolic structures consist of independent symbols and use given ones',
     'The flat vector of a symbolic structure consists of one symbol per element, all different and different from those of other structures, so that it can be used as input of a function with arbitrary values; every entry reads exactly its own symbols. Symbols given for an entry (matrix with any sparsity, symmetric matrix, another symbolic structure) are used in the order of their elements at the place of that entry, in any layout. Given expressions that are not symbols, and symbols combined with another shape, repetition or expression, are refused.',
     ['inputs', 'configurations'], 'all values; forms and layouts of given symbols within bounds',
     'No test gives symbols for entries.',
     ['casadi_extras/structure3.py'], [('symbols', 'structure3.py ssymStruct.__init__, msymStruct.__init__, CasadiStructEntry.__init__')])

prop('C36', 'Evaluation options leave the collocation scheme unchanged',
     'The collocation equations, the state and quadrature at the collocation points and interval ends, the integrand and the input at the points are the same functions of the variables for every parallelization mode, with and without expansion, and with any options passed on to the map. Repeating the parameter for every point adds equations that hold when all copies are equal and leaves everything else unchanged.',
     ['inputs', 'configurations', 'programs'], 'all right-hand sides and values; modes, options, dimensions and grids within bounds',
     'Tests use the default options.',
     [COL + 'collocation.py'], [('evaluation at the points', 'collocation.py CollocationScheme.__init__')])

prop('C37', 'Combined collocation variables stack the requested parts in order',
     'Combining any list of parts of a collocation scheme gives a structure with these names in this order whose flat vector is the stack of the parts, column by column, and in which each part is readable with its shape; a vector of that length can be split in the same way. Combinations of variables can be used as unknowns of a function of the equations. Unknown names are refused. Combinations made before do not matter.',
     ['inputs', 'configurations', 'histories'], 'all lists of parts within bounds, all values of the variables',
     'Tests combine one fixed list.',
     [COL + 'collocation.py', 'casadi_extras/structure3.py'], [('combination', 'collocation.py CollocationScheme.combine')])

prop('C38', 'Functions and sizes of a DAE match its definition',
     'A function created from a DAE takes the named variables in the requested order, returns the named expressions in the requested order, has these names, and evaluates to the expressions of the definition for all arguments; variables that were omitted count as empty. An argument the result depends on cannot be left out, and unknown names are refused. The reported numbers of variables are the numbers of elements.',
     ['inputs', 'configurations', 'programs'], 'all right-hand sides, argument values, argument orders and result lists within bounds',
     'Only exercised indirectly with one argument order.',
     ['casadi_extras/dae_model.py'], [('function creation', 'dae_model.py Dae.createFunction, Dae._get'), ('sizes', 'dae_model.py Dae.nx ... nq')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
