#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written text below, and per property what its check module states about itself."""
import ast, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def module(pid):
    t = ast.parse(open(os.path.join(V, 'mc/checks/%s.py' % pid.lower())).read())
    d = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('RULE', 'BOUNDS', 'ASSUMPTIONS'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


WHY = {
 'C01': ('Conversion = factor x magnitude, decided for every pair of unit expressions in an alphabet chosen to contain every *kind* of unit (base, prefixed, derived, affine-named, compound, constant, user-defined to depth 3, fractional powers, ratios, twins which print alike, units which differ by 3e-7) and for all 345^2 ordered catalogue pairs.',
         'The tests convert a dozen pairs; a wrong factor, a shortcut for nearly equal or equally printed units, a route which skips the conversion, or a dtype or layout which is mistreated sits in one of several hundred thousand cells.'),
 'C02': ('Every ordered pair of operands under + - % (and in place) and the six comparisons; the model converts the right operand itself and takes numpy on plain numbers as the meaning of the operation.',
         'Whether homogeneity holds depends on the pair (kind x kind x units x shapes), and reflected and in-place forms go through different code.'),
 'C03': ('As C02 for products, quotients and powers, with the exponent arithmetic as model; expression trees of two levels decide the algebraic laws, since forms which algebra makes equal have the same predicted value; powers of powers and every small array of exponents over pairs of values decide the exponent rules.',
         'Laws quantify over all expressions; non-uniform exponent arrays hide in patterns such as [2, 3, 2].'),
 'C04': ('Explicit-state search: a state is two variables holding unit expressions (possibly the same object) and one quantity; each transition is executed on the real objects and on exponent maps.',
         'Aliasing (a result sharing its dict with an operand) only shows in a later in-place step, and zero exponents only after cancellation: both need sequences.'),
 'C05': ('Every ufunc of the installed NumPy (found by inspection, so new ones are included) x operand tuples x forms of out against a table of unit rules.',
         'The rule table of the library is a dictionary with one entry per ufunc; an entry that is missing, wrong or too lenient is one cell of the product.'),
 'C06': ('Metamorphic: the plain NumPy function on base-unit numbers is the reference, and every assignment of units to the arguments must give the same physical value or be refused.',
         'A function which ignores the unit of one argument agrees with the tests as long as that argument comes in the unit of the test.'),
 'C07': ('Every method x array x axis x option x unit x out, numbers from NumPy, units from a table.',
         'Wrong axis handling, a dropped option (ddof, side, dtype, offset) or wrong units in one out form is visible only in that cell.'),
 'C08': ('Explicit-state search over heaps of arrays and views; the reference heap consists of plain arrays (so NumPy itself decides the aliasing) with one unit expression per object; canonical states include aliasing structure.',
         'The property is about histories: create a view, change units, write through the other object.'),
 'C09': ('All operation histories of length two (three in thorough, reduced alphabet) per kind of unit, with a full observation of twelve watched units after every step; every returned object is attacked by in-place writes.',
         'Mutation of a shared unit is a global effect that no test of a local result looks for.'),
 'C10': ('(a) all expressions of the grammar in every spelling against an independent parser, (b) all token strings, well-formed or not, (c) every label in several contexts, (d) hostile templates, (e) breadth-first search over registration histories against a dictionary model.',
         'The language of accepted strings is infinite and includes strings nobody meant; the registry is global state whose failures must be atomic.'),
 'C11': ('Every unit expression within the bound, built in every order, printed in all four forms under both settings, and read back by independent readers.',
         'Ambiguity and order dependence are properties of pairs of expressions.'),
 'C12': ('Every object x route (six pickle protocols, copy, deepcopy, method) x chains of routes x subsequent change of either side; fresh interpreters with other hash seeds, with and without the user-defined units.',
         'Independence needs a later write; registry effects of unpickling need another process.'),
 'C13': ('All sequences of default-unit calls within the bound, every probe observed in every state and compared with a table base unit -> current default.',
         'History independence and all-or-nothing failure are statements about all sequences.'),
 'C14': ('Every operand pair and reduction against the first-order formulas evaluated on plain arrays; histories of changes to one object against a pair of plain arrays.',
         'Signs, zeros, shapes and mixed units are where the formula is applied wrongly.'),
 'C15': ('The catalogue is finite: every unit, label, attribute and ordered commensurable pair against an independently written table.', 'The tests check none of the values systematically.'),
 'C16': ('The constants are finite: all of them, under all names, against an independent parser of the published table.', 'As C15.'),
 'C17': ('Stateless model checking in the CHESS style: real threads, one runs at a time, a scheduler switches at chosen source lines of the library (sys.settrace) and at locks; every switch point within the preemption bound is explored, each schedule in a process of its own; the set of outcomes of all sequential orders is the specification. Deadlock = no runnable thread.',
         'Nobody can force these interleavings in a test.'),
 'C18': ('All histories up to the bound, each in a process forked from the state after import, followed by all probes; results bit-equal to the record of a fresh process.',
         'Caches and leaked shared state show only for the right pair (history, probe).'),
 'C19': ('All preferred lists up to the length bound x all quantities x settings; histories of settings.', 'First match depends on the order and on entries of equal dimension and different text.'),
 'C20': ('All constructions (data x spelling x dtype x form), all shape operations and all pairs of them against NumPy on the plain data.', 'Zero-dimensional, empty, Fortran-ordered, big-endian and single-element arrays leave the ordinary paths.'),
 'C21': ('Substitution: each operation with the unit, and with the quantity of one in that unit, must agree; all definition chains to depth 3.', 'UnitQuantity overrides every operator separately.'),
 'C22': ('Substitution: each operation with an object of a subclass, and with the same object of the class, must agree in the result, in the operands afterwards and in what can be done with the result.', 'Which of two classes handles an operator is decided by their exact types.'),
}

HEAD = open(os.path.join(V, 'tools/design_head.md')).read()


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    out = [HEAD.rstrip(), '', '## Per property', '']
    for p in props:
        d = module(p['id'])
        b = d['BOUNDS'] if isinstance(d['BOUNDS'], dict) else {'quick': d['BOUNDS'], 'thorough': 'as quick'}
        out += ['### %s %s' % (p['id'], p['title']), '',
                '*How.* ' + WHY[p['id']][0], '',
                '*Enumerated and compared.* ' + d['RULE'] + '.', '',
                '*Bounds (quick).* ' + b['quick'] + '.', '', '*Bounds (thorough).* ' + b['thorough'] + '.', '']
        if d.get('ASSUMPTIONS'):
            out += ['*Assumed.* ' + '; '.join(d['ASSUMPTIONS']) + '.', '']
        out += ['*Beyond the tests.* ' + WHY[p['id']][1], '']
    res = json.load(open(os.path.join(V, 'tools/seed_results.json')))
    out += ['## Planted bugs', '', 'Written from the statements and the code (tools/seeds.py); `tools/mkseeds.py --check` plants each in a scratch copy, confirms the demonstration and the test suite, and runs '
            "the property's quick check.  Those marked * change lines of one of the repairs, so they are not kept in seeded/.  'missed before' means that the first version of the check did not see the bug and was extended.", '',
            '| bug | needs | breaks | check |', '|---|---|---|---|']
    for k in sorted(res):
        r = res[k]
        out.append('| %s%s | %s | %s | %s |' % (k, '*' if r.get('mine') else '', r['needs'].replace('|', '/'), r['breaks'].replace('|', '/'), r['result'] + (' (missed before)' if r.get('missed_before') else '')))
    out += ['']
    tail = open(os.path.join(V, 'tools/design_tail.md')).read()
    known = [l for l in open(os.path.join(V, 'known_findings.txt')) if l.startswith(('known:', 'fixed:'))]
    fixes = {}
    for l in known:
        m = re.match(r'fixed: property=(\S+) (\S+) before the repair this was broken: (.*)', l)
        if m: fixes.setdefault((m.group(2), m.group(3)), []).append(m.group(1))
    order = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h'], text=True).split()
    fl = sorted(fixes.items(), key=lambda kv: next((i for i, h in enumerate(order) if h.startswith(kv[0][0]) or kv[0][0].startswith(h)), 999))
    tail = tail.replace('@FIXES@', '\n'.join('- `%s` %s (%s)' % (c, t, ', '.join(ps)) for (c, t), ps in fl))
    tail = tail.replace('@KNOWN@', '\n'.join('- ' + re.sub(r'known: property=(\S+) key=(\S+) ', r'%s `%s`: ' % (r'\1', r'\2'), l.strip()) for l in known if l.startswith('known:')))
    out.append(tail)
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))


main()
