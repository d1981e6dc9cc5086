import json, os
T = {}
def t(i, tech, note): T[i] = dict(technique='model checking: ' + tech, note=note)
t('C01', 'exhaustive enumeration of conversions and conversion chains on the real code against a unit model',
  'Real implementation, every ordered unit pair x route x operand and every chain within the bounds; bounded to the alphabet, float results compared with rounding tolerances.')
t('C02', 'exhaustive enumeration of operand pairs and operators on the real code against a unit model',
  'Every ordered pair of the operand alphabet in every form; nearly equal values in different units are compared only where rounding cannot matter.')
t('C03', 'exhaustive enumeration of operand pairs, operators and expression trees on the real code against a unit model',
  'Every ordered pair and every tree of two levels; exponents that are nan, complex or empty are not predicted.')
t('C04', 'breadth-first search of the states of a small heap of unit expressions, every transition executed on the real code and on a free-abelian-group model',
  'All operation sequences to the depth bound with canonical-state deduplication; exponents from a small alphabet.')
t('C05', 'exhaustive enumeration of ufuncs x operand tuples x output arrays on the real code against a table of unit rules',
  'All NumPy ufuncs of the installed version, forms with and without out; refusal is allowed where the rule would answer.')
t('C06', 'exhaustive enumeration of unit assignments to the arguments of every exported function on the real code, compared with the base-unit run',
  'Every function x every unit tuple x shapes and options within the bounds; the reference is the plain NumPy function on base-unit numbers.')
t('C07', 'exhaustive enumeration of method calls on the real code against NumPy on the magnitudes and a table of unit rules',
  'All methods x shapes x axes x dtypes x nan patterns x argument units x output arguments within the bounds.')
t('C08', 'breadth-first search over histories of in-place operations on a heap of arrays and views, every transition replayed on the real code and on a reference heap',
  'All histories to the depth bound with canonical-state deduplication; aliasing known to NumPy base chains up to the heap size.')
t('C09', 'exhaustive exploration of operation histories on unit objects with a full observation of the units after every step',
  'All operation sequences to the depth bound on each kind of unit.')
t('C10', 'exhaustive enumeration of strings of the grammar, of token strings outside it, and breadth-first search of registration histories against a dictionary model',
  'All expressions to the depth bound in every spelling; all hostile token strings to the length bound; all registration sequences to the depth bound.')
t('C11', 'exhaustive enumeration of unit expressions x construction orders x formats on the real code against an independent printer and parser',
  'All expressions with up to three factors over the unit and exponent alphabets; catalogue-wide for single units.')
t('C12', 'exhaustive enumeration of objects x copy routes x protocols x mutation histories, also across fresh processes',
  'Every object of the alphabet, every route, and every mutation of either side after each.')
t('C13', 'breadth-first search over sequences of default-unit calls on the real code against a model of the defaults',
  'All sequences to the depth bound from the call alphabet, with every probe unit observed in every state.')
t('C14', 'exhaustive enumeration of operands, operators, reductions and conversions on the real code against a first-order propagation model',
  'Operands are independent; correlated use of one operand twice follows the same rules as independent ones.')
t('C15', 'exhaustive enumeration of the unit catalogue (labels, attributes, routes, ordered pairs) against an independently written table',
  'The whole catalogue is finite and covered completely; the table of definitions is trusted.')
t('C16', 'exhaustive enumeration of the constants (names, symbols, conversions, relations) against an independent copy and parser of the published table',
  'All constants are covered completely; the copy of the published table is trusted.')
t('C17', 'stateless exploration of all thread interleavings of the real code at line granularity up to a preemption bound under a controlled scheduler',
  'Two threads, one operation each from the alphabet, preemptions at every source line of the package up to the bound; switches inside C code or inside a line are not explored.')
t('C18', 'exhaustive exploration of operation histories followed by every probe, compared with the probe in a fresh process state',
  'All histories to the depth bound over the alphabet; each starts from a pristine fork.')
t('C19', 'exhaustive enumeration of preferred lists x quantities x default-unit systems on the real code against a first-match model',
  'All lists to the length bound over the unit alphabet.')
t('C20', 'exhaustive enumeration of constructions, index expressions and shape operations on the real code against NumPy on the magnitudes',
  'All combinations within the alphabets; mutation of source and result after each.')
t('C21', 'exhaustive enumeration of operations with units in place of quantities of one, and of chains of user definitions, on the real code against each other and a unit model',
  'All operation templates x units x operand positions, all definition chains to the depth bound.')
t('C22', 'exhaustive enumeration of operations with objects of subclasses in place of objects of the classes, on the real code, each run against the other in fresh environments',
  'All operations x subclasses x operands x sides, and all pairs of the short list in a row.')
json.dump(T, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'techniques.json'), 'w'), indent=1)
