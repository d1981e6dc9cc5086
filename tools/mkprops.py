#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements are easy to edit and diff)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)

Q='quantities/quantity.py'; D='quantities/dimensionality.py'; U='quantities/unitquantity.py'
R='quantities/registry.py'; M='quantities/markup.py'; UM='quantities/umath.py'; UN='quantities/uncertainquantity.py'

p('C01','Unit conversion preserves the physical value and is exact about units',
  'Converting a quantity to another unit of the same physical dimension - by rescaling, by assigning new units in place, by constructing a quantity from a quantity, or by extracting the dimensionless magnitude - yields exactly the requested unit and the same physical value up to floating-point rounding, for every shape and numeric dtype and whichever way the unit is spelled (unit object, unit string, quantity, dimensionality). Conversions therefore round-trip and do not depend on the path taken through intermediate units, and a copying conversion leaves its operand untouched. A conversion between different physical dimensions always raises and changes nothing.',
  ['inputs','histories'],
  'every ordered pair (and chain) of compatible catalogue, compound, constant and user-defined units, every conversion route, every operand shape and dtype; every pair of incompatible units',
  'The tests convert a few dozen hand-picked pairs; they cannot enumerate unit pairs x routes x dtypes x chains, so a wrong factor, a dropped factor or an accepted incompatible pair off that list goes unseen.',
  [Q,U,R],
  [('rescale and the units setter',Q+':Quantity.rescale, Quantity.units'),('conversion factor from reference units',Q+':get_conversion_factor, Quantity._reference'),('unit spelling normalisation',Q+':validate_dimensionality'),('cached reference of a unit',U+':UnitQuantity._reference')],
  observe=['magnitude, dimensionality and dtype of the result','exception raised'])

p('C02','Sum, difference, remainder and comparison are dimensionally homogeneous',
  'Adding, subtracting, taking the remainder of, or comparing two quantities of the same physical dimension gives the physically correct answer, expressed in the units of the left operand, whatever units, shapes and kinds of operand (quantity, unit, constant, plain number) are on either side, in normal, reflected and in-place form. When the physical dimensions differ, the arithmetic (also with a plain number, which counts as dimensionless) and the ordering comparisons raise, while == is False and != is True everywhere; a comparison with a plain number compares the magnitude. The operands of the non-in-place forms, and both operands of any form that raises, are left exactly as they were.',
  ['inputs'],
  'every ordered pair of operands from the operand alphabet (units x kinds x shapes x dtypes x values) and every additive or comparison operator in every form',
  'Unit tests sample a handful of operand pairs, almost always quantity-quantity in metres and feet; reflected forms with units, in-place forms, mixed kinds and error cases are combinatorially many.',
  [Q,U,D],
  [('rescaling of the other operand',Q+':scale_other_units, wrap_comparison'),('reflected operations of units',U+':UnitQuantity.__radd__ etc.'),('ufunc unit check',D+':_d_check_uniform'),('equality across units',Q+':Quantity.__eq__, __ne__')])

p('C03','Products, quotients and powers obey dimensional algebra',
  'Multiplying, dividing, floor-dividing or raising to a uniform dimensionless power gives the numerical result of the magnitudes together with exactly the product, quotient or power of the units, in normal, reflected and in-place forms and for every combination of quantities, units, constants and plain numbers. A dimensional or non-uniform exponent is always rejected. The forms agree with each other and with algebra: a*b equals b*a, (a*b)/b has a\'s units and value, a**n equals the n-fold product, and the non-in-place forms leave their operands untouched.',
  ['inputs','programs'],
  'every ordered operand pair of the alphabet and every multiplicative operator and form, and every expression tree up to the depth bound over the unit alphabet',
  'Existing tests check individual products; they never compare forms with each other or exercise expression trees, and the in-place forms were in fact broken under NumPy 2.',
  [Q,U,D],
  [('unit algebra of ufuncs',D+':_d_multiply, _d_divide, _d_power'),('result wrapping',Q+':Quantity.__array_wrap__, __array_prepare__'),('exponent and view guards',Q+':check_uniform, protected_multiplication, protected_power'),('unit operators',U+':UnitQuantity.__mul__ etc.')])

p('C04','Unit expressions behave as values of a free abelian group',
  'Two unit expressions are equal exactly when they are products of the same units to the same non-zero powers, however and in whatever order they were built, and equal expressions always hash alike. Multiplication, division and powers (also in place) follow the laws of a commutative group without ever retaining a zero exponent, adding or subtracting unequal expressions raises, and ordering compares the total number of base dimensions. A copy, a result, or an expression handed out by a quantity never shares state with its source, so changing one never changes another.',
  ['histories','inputs'],
  'every sequence of group operations up to the depth bound over an alphabet of units and integer, negative and fractional exponents, with aliasing between the expressions in play',
  'Tests check five or six literal expressions; commutation, cancellation, insertion order, hash agreement and aliasing only show over operation sequences.',
  [D,Q],
  [('group operations',D+':Dimensionality.__mul__, __truediv__, __pow__ and in-place forms'),('equality and hash',D+':Dimensionality.__hash__, __eq__'),('defensive copies',Q+':Quantity.dimensionality; '+D+':Dimensionality.copy')],
  state=[('exponent map','unit -> exponent',D+':Dimensionality')])

p('C05','NumPy ufuncs on quantities apply the right unit rule or refuse',
  'Calling a NumPy universal function on quantities and units either returns the NumPy result of the magnitudes with the units that function must have (same units for additive and rounding functions, product, quotient, square, root, reciprocal or power units, radians for inverse trigonometry of a ratio, dimensionless for logarithms and exponentials, plain booleans for is-tests), or raises. It raises whenever the operands\' units do not admit the function, such as a dimensional argument of exp, unequal units in an additive function, or a non-radian argument of sin. Supplying an output quantity changes only where the answer is stored, and the inputs are never modified.',
  ['inputs'],
  'every NumPy ufunc x every operand tuple from the operand alphabet x with and without an output array',
  'About a third of the supported ufuncs have one test each with one unit; rejection cases, mixed unit/plain operands, unit objects as operands and output arrays are untested.',
  [D,Q],
  [('ufunc -> unit rule table',D+':p_dict and _d_* handlers'),('dispatch',Q+':Quantity.__array_prepare__, __array_wrap__')])

p('C06','Library math functions do not depend on the units the inputs are given in',
  'The functions the library exports for quantities (trigonometric, inverse and hyperbolic functions, arctan2, hypot, cross, trapz, gradient, diff, ediff1d, unwrap, and the sum, product and cumulative reductions) return a value with the physically correct units, and giving any input in different but compatible units either is refused or changes at most the unit the answer is expressed in, never its physical value. Inputs whose dimensions do not admit the function are rejected, and inputs are never modified. A function wrapped by the library\'s wrapping facility gets its quantity arguments, positional or keyword, in base units and returns its results in the units announced by the handler.',
  ['inputs'],
  'every exported function x every tuple of units per argument from the compatible-unit alphabet x small arrays, shapes, axes and optional arguments',
  'Each function has about one test with a single unit per argument, so unit-scale mistakes (raw magnitudes used, second argument or spacing ignored, degrees treated as radians) cannot show.',
  [UM,'quantities/decorators.py'],
  [('per-function rescaling and result units',UM),('generic wrapping of functions','quantities/decorators.py:quantitizer')])

p('C07','Reductions and array methods return the right values with the right units',
  'Every reduction, cumulative, ordering, searching, rounding and clipping method of a quantity returns the same values as the same method on the plain numbers, for every axis, shape, dtype and not-a-number pattern. The result carries the units analysis requires (same units, squared units for variance, units to the number of factors for products, none for indices), and arguments in other compatible units are converted (searches may refuse them instead) while incompatible ones are rejected. An output argument receives both the values and the units, and the quantity itself is unchanged.',
  ['inputs'],
  'every method x every small shape, axis, keyword combination, dtype and NaN pattern in the alphabet x argument units x output argument absent or present',
  'Tests call most methods once on one 2x2 array without axis or output; nan-variants ignored their axis entirely without a test noticing.',
  [Q],
  [('reductions and searching',Q+':Quantity.sum ... cumprod'),('clip, put, searchsorted, round, ptp, var, prod unit handling',Q)])

p('C08','In-place changes keep value, units and every view consistent',
  'After any sequence of in-place operations (item and slice assignment, put, fill, in-place arithmetic, unit assignment) and view creations (slice, transpose, reshape, real and imaginary part, squeeze, iteration), each quantity and every view of it still denote the physical values a simple reference model predicts: element changes are seen through all sharing objects, and nothing else changes. No operation changes the units of an array through one of its views, which is refused instead. An operation that raises leaves every live object\'s values and units exactly as they were.',
  ['histories','fault_sequences'],
  'every operation sequence up to the depth bound over a small heap of base arrays, views and independent copies, including failing operations',
  'The property is about histories with aliasing; tests exercise single operations on fresh arrays, so a corrupted base after a failed or unit-changing operation through a view is out of their reach.',
  [Q],
  [('element assignment',Q+':Quantity.__setitem__, put, fill'),('view guard',Q+':Quantity.units setter, protected_multiplication, protected_power'),('unit update of in-place results',Q+':Quantity.__array_wrap__')],
  state=[('shared buffer and per-object units','values live in the base buffer, units on each object',Q+':Quantity._dimensionality')])

p('C09','Unit objects are immutable under every operation',
  'No public operation changes what a unit or constant stands for: its value of one, its name, symbol, definition and conversion factor are the same after any sequence of operations, whether those succeed or raise. In-place arithmetic, unit assignment, item assignment, fill, put and output arguments targeting a unit raise, while ordinary arithmetic, indexing, copying and views give independent ordinary quantities or the unit itself.',
  ['histories','fault_sequences'],
  'every sequence, up to the depth bound, of public operations applied to a unit of each kind (base, derived, compound, constant, dimensionless)',
  'Tests try six in-place operators on one unit; a mutable leak through some other method or through a copy silently corrupts all later conversions.',
  [U,Q],
  [('in-place guards and read-only buffer',U+':UnitQuantity.__iadd__ ..., __new__'),('operators on a quantity view',U+':UnitQuantity.__mul__ etc.'),('copying',U+':UnitQuantity.copy, __reduce__')],
  state=[('unit singletons','process-wide unit objects','quantities/units/')])

p('C10','Unit strings and registration mean one thing, and only that',
  'A string made of registered names, symbols and aliases, numbers, arithmetic operators and parentheses (in every accepted spelling, such as ^ for power and . or middle dot for product) denotes exactly the unit that the same Python arithmetic expression over the unit objects denotes, is refused as the units of a quantity when that expression is no plain unit, and any other string is rejected without executing code or changing state. Registering a unit makes all its labels denote it; a label that is already taken by a different unit is refused, and a refused registration leaves the registry exactly as it was. What an existing label means never changes.',
  ['inputs','histories'],
  'every label of the catalogue, every expression over the label alphabet up to the depth bound in every spelling, every short string over a hostile token alphabet, and every sequence of registrations with colliding labels up to the depth bound',
  'Tests parse about twenty strings; the expression space, the spellings and the registration histories with conflicts are unbounded.',
  [R,U],
  [('string normalisation and whitelisted evaluation',R+':UnitRegistry.__getitem__'),('conflict detection',R+':__Registry.__setitem__'),('registration of all labels',U+':UnitQuantity.__init__')],
  state=[('label table','label -> unit',R)])

p('C11','Printed units are faithful: canonical, unambiguous and parseable',
  'The text form of a unit expression depends only on the expression, not on how or in which order it was built, two different expressions of registered units never print alike, and parsing the printed text (with the unicode form parsed after undoing superscripts) gives back an equal expression of registered units, or the same physical unit for a compound unit, for integer, negative and fractional powers. The unicode, LaTeX and HTML forms present exactly the same factors and powers as the plain form, and the unicode option switches only between the two text forms without changing any value. The text of a quantity is the text of its magnitude followed by that of its units.',
  ['inputs','histories'],
  'every unit expression with up to the bounded number of factors from the unit alphabet and exponents from the exponent alphabet, in every construction order, in all four formats and both settings of the unicode option',
  'Tests compare a few literal outputs; the trailing-zero and fractional-power errors found by enumeration were outside them.',
  [M,D,Q],
  [('plain formatting and ordering',M+':format_units'),('unicode, LaTeX, HTML rewriting',M+':superscript, format_units_unicode, format_units_latex, format_units_html'),('quantity text',Q+':Quantity.__str__, __repr__, __format__')])

p('C12','Pickling and copying round-trip in the same and in a fresh process',
  'Pickling with any protocol and restoring, in the same process or a fresh one, and shallow or deep copying, give an object of the same class, values, dtype, shape, units and uncertainty that behaves like the original, for quantities, uncertain quantities, units, compound units, constants, dimensionalities and containers of them. A restored or copied quantity is independent: changing it never changes the original or the other way round. Restoring a unit yields one that is equal to and interchangeable with the existing one and leaves the meaning of every label unchanged.',
  ['inputs','histories'],
  'every object of the kind x unit x shape x dtype alphabet x every pickle protocol and copy route, restored in the same process, a fresh process and after repeated round trips, followed by mutations of either side',
  'Tests pickle seven objects with the default protocol in the same process, and never mutate after a copy, so sharing and cross-process identity are untested.',
  [Q,U,UN],
  [('quantity pickling and deep copy',Q+':Quantity.__reduce__, __setstate__, __deepcopy__'),('unit pickling',U+':UnitQuantity.__reduce__, CompoundUnit.__reduce__'),('uncertainty state',UN+':UncertainQuantity.__reduce__')])

p('C13','Changing default units only changes how simplified values are expressed',
  'After any sequence of default-unit changes, reducing a quantity to base units preserves its physical value, uses only the current default units, and is idempotent, and the result depends only on the current defaults, not on the history that led there. Conversions between explicit units, arithmetic, comparisons and existing quantities are not affected. A call that is rejected raises and leaves all defaults as they were.',
  ['histories','fault_sequences'],
  'every sequence of default-unit calls (systems, single and combined settings, invalid ones) up to the depth bound, with every unit of an alphabet observed after every step',
  'One test sets three defaults once; order, combination, failure and independence of conversions from the defaults are history properties.',
  [U,Q],
  [('default unit per base dimension',U+':IrreducibleUnit.set_default_unit, set_default_units'),('reduction to base units',Q+':Quantity.simplified; '+U+':UnitQuantity.simplified')],
  state=[('default units','one current default per base dimension',U+':IrreducibleUnit._default_unit')])

p('C14','Uncertainties propagate by the first-order rules and stay with the value',
  'Arithmetic (sum, difference, product, quotient, power and negation, with uncertain, certain, unit and plain operands on either side and in place) and the reductions of independent uncertain quantities give the value that ordinary quantities give, with the non-negative standard deviation of first-order propagation in the same units. Conversion, indexing, assignment and reduction to base units transform value and uncertainty together, so the relative uncertainty and the result do not depend on the units chosen. Operands are left untouched, and an uncertainty of a wrong shape or dimension is rejected.',
  ['inputs','programs'],
  'every operand pair of the alphabet (values incl. zero and negative, uncertainties, units, shapes, kinds) and every operator and form, conversions before and after',
  'Tests check about ten positive-valued cases with one unit; sign, zero, mixed kinds, in-place forms and unit independence are not covered.',
  [UN,Q,U],
  [('propagation rules',UN+':UncertainQuantity.__add__ ... __pow__, sum, mean'),('joint conversion',UN+':UncertainQuantity.rescale, units, simplified'),('uncertainty setter',UN+':UncertainQuantity.uncertainty')])

p('C15','Every catalogue unit has the right value, dimension and labels',
  'Each unit in the catalogue converts to base units with the magnitude and physical dimension given by its standard definition, and prefixed and derived units are consistent with the units they are built from. Every name, symbol and alias of a unit, as an attribute of the package and as a unit string, denotes that same unit.',
  ['inputs'],
  'all registered labels and all exported unit names, compared one by one with an independently written table of definitions and with systematic prefix relations',
  'The tests look at fewer than ten of the roughly 345 units; a wrong constant, prefix or alias elsewhere is invisible to them.',
  ['quantities/units/length.py','quantities/units/mass.py','quantities/units/time.py','quantities/units/electromagnetism.py','quantities/units/energy.py','quantities/units/pressure.py','quantities/units/volume.py','quantities/units/prefixes.py'],
  [('unit definitions','quantities/units/*.py'),('label registration',U+':UnitQuantity.__init__')])

p('C16','Every physical constant equals its published CODATA value and unit',
  'Each physical constant of the constants package denotes the entry of the published CODATA table it is named after, with that value and that unit, under every one of its names and symbols. Converting a constant to base units, using it as a unit, or multiplying with it gives the same physical value, and relations between constants defined in terms of each other hold.',
  ['inputs'],
  'all exported constant names, compared one by one with an independent copy and parser of the published table, and every conversion of each constant to base units',
  'The tests check two constants; a shifted exponent, swapped entry or mis-parsed unit in any of the other 320 goes unnoticed.',
  ['quantities/constants/_codata.py','quantities/constants/_utils.py','quantities/constants/electron.py','quantities/constants/electromagnetism.py','quantities/constants/naturalunits.py'],
  [('table of values','quantities/constants/_codata.py'),('lookup and unit parsing','quantities/constants/_utils.py:_cd'),('named constants','quantities/constants/*.py')])

p('C17','Concurrent use gives the results of some sequential order',
  'When several threads at the same time convert, add, multiply, compare, reduce to base units, format, parse unit strings, copy or pickle quantities and units that none of them modifies, each gets exactly the result it would get alone. Concurrent registration of units and switching of the unicode option behave as if the calls had run in some sequential order: every observed text or unit is one a sequential order allows, nobody sees a half-registered or wrong unit, and no call fails or deadlocks because of another.',
  ['schedules'],
  'every interleaving, up to the preemption bound at line granularity, of every pair of operations from the operation alphabet that share units, registry, defaults or the unicode option',
  'There is no concurrent test at all, and a free-running one would sample a vanishing fraction of interleavings.',
  [Q,D,R,M,U],
  [('defensive copies of shared dimensionalities',Q+':Quantity.dimensionality'),('formatting option lock',M+':_Config'),('registry singleton',R+':UnitRegistry')],
  state=[('process-wide state','registry, unicode option, default units, format order counters',R+', '+M+', '+U)])

p('C18','Results depend only on the arguments, never on what was computed before',
  'An operation on given operands returns the same value, units and text whatever other operations, conversions, unit-string lookups, formatting calls or failed calls ran before it in the process. Results are fresh: changing a returned quantity, list or unit expression in place never affects later results.',
  ['histories'],
  'every sequence up to the depth bound over the operation alphabet, including failing operations and mutation of every returned object, followed by every probe operation',
  'Tests run each operation once in an unspecified order; hidden caches or shared result objects only show in histories that mutate or fail first and then ask again.',
  [Q,D,R,U,'quantities/decorators.py'],
  [('no caching on the operation paths',Q+', '+D+', '+R),('memoisation helper returns copies','quantities/decorators.py:memoize')])

p('C19','Rescaling to preferred units picks the first compatible one or raises',
  'Rescaling without a target, or explicitly to preferred units, converts to the first entry of the preferred list that has the same physical dimension, whatever units the quantity is in and whatever default units are set, and preserves the physical value. If no entry is compatible it raises, and neither the quantity nor the list is changed.',
  ['configurations','inputs'],
  'every preferred list up to the length bound over the unit alphabet (incl. incompatible, derived and user-defined entries, duplicates, permutations) x every quantity of the alphabet x default-unit systems',
  'Two tests use one fixed list; order, overlap, non-SI defaults and derived dimensions are configurations tests do not enumerate.',
  [Q],
  [('preferred unit search',Q+':Quantity.rescale_preferred'),('default argument of rescale',Q+':Quantity.rescale')],
  state=[('preferred list','module-level list set by the user',Q+':PREFERRED')])

p('C20','Construction, indexing and reshaping carry values, dtype and units faithfully',
  'Building a quantity from numbers, nested lists, arrays, quantities or units with units in any accepted spelling and any dtype gives exactly those numbers, that dtype and those units, or raises for anything that is not a unit. Indexing, slicing, taking, iterating, listing, reshaping, transposing, flattening, repeating, type casting and splitting into real and imaginary parts give the same elements as on the plain array, each carrying the units, also where an output argument receives them. Changing the source or the result never alters the units of the other.',
  ['inputs'],
  'every construction form x data alphabet x unit spelling x dtype, and every index or shape operation of the alphabet on every small shape',
  'Tests build a handful of objects and index two of them; combinations of data kind, dtype, unit spelling and index form are not enumerated.',
  [Q,U],
  [('constructor',Q+':Quantity.__new__'),('unit spelling normalisation',Q+':validate_dimensionality'),('indexing, listing, casting',Q+':Quantity.__getitem__, tolist, astype, squeeze')])

p('C21','Every unit is usable by itself as a quantity of exactly one of that unit',
  'Wherever a quantity is accepted, a unit object (base, derived, compound, user-defined, constant or dimensionless) behaves exactly like the quantity whose magnitude is one in that unit: same results, same units and same errors. Units defined by the user in terms of quantities of other units, to any depth, convert exactly as the definition says, and compound units and constants stay intact as single units until they are converted.',
  ['inputs','programs'],
  'every operation of the operation alphabet x unit in place of a quantity at each operand position, and every chain of user definitions up to the depth bound',
  'The tests use units mostly on the right of a number; substitution of units in other positions and nested definitions are not enumerated.',
  [U,Q],
  [('operators forwarded to a quantity view',U+':UnitQuantity.__add__ ... __rpow__'),('definition and reference',U+':UnitQuantity.__new__, _reference, definition'),('compound units',U+':CompoundUnit')])

p('C22','Subclasses of the quantity classes behave like the classes themselves',
  'An object of a subclass of Quantity or UncertainQuantity which overrides no operation takes part in every operation (arithmetic, comparison, NumPy and library functions, methods, conversion, indexing, changes in place, on either side) exactly as an object of the class itself would: same values, units, uncertainties and errors, same effect on its operands, and results that can be used and changed in the same way. The sum of a certain and an uncertain quantity may be in the units of either. Pickling and shallow copying keep the subclass.',
  ['inputs','programs'],
  'every operation of the operation alphabet, on either side of every operand and in pairs in a row, with an object of a subclass in place of one of the class itself',
  'No test defines a subclass; whether NumPy and Python defer to the reflected operators and whether results are views depends on the exact classes of both operands.',
  [Q,UN,U],
  [('wrapping of results',Q+':Quantity.__array_prepare__, __array_wrap__, __array_finalize__'),('casts and views',Q+':Quantity.astype, squeeze, copy, __reduce__'),('results of uncertain operations',UN+':UncertainQuantity.__array_wrap__')])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False)+'\n')
print(len(P))
