"""The independent tables (data/): unit definitions, unit labels, CODATA 2006."""
import math, os, re
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data')


class V:
    """value times powers of base units"""
    def __init__(s, v, d): s.v, s.d = v, {k: x for k, x in d.items() if x}
    def __mul__(a, b):
        b = b if isinstance(b, V) else V(b, {})
        return V(a.v * b.v, {k: a.d.get(k, 0) + b.d.get(k, 0) for k in {**a.d, **b.d}})
    __rmul__ = __mul__
    def __pow__(a, n): return V(a.v ** n, {k: x * n for k, x in a.d.items()})
    def __truediv__(a, b): return a * (b ** -1 if isinstance(b, V) else V(1 / b, {}))
    def __rtruediv__(a, b): return V(b, {}) * a ** -1
    def dims(s): return tuple(sorted(s.d.items()))


def lines(name):
    with open(os.path.join(HERE, name), encoding='utf-8') as f:
        for l in f:
            l = l.rstrip('\n')
            if l.strip() and not l.startswith('#'):
                yield l

def unit_defs():
    ns, out = {'pi': math.pi}, {}
    for l in lines('units_def.txt'):
        n, e = [x.strip() for x in l.split('=', 1)]
        assert n not in ns, n
        v = V(1.0, {n: 1}) if e == 'BASE' else eval(e, {'__builtins__': {}}, ns)
        ns[n] = out[n] = v if isinstance(v, V) else V(v, {})
    return out

def unit_labels():
    """[(name, class, symbol, u_symbol, labels incl. name, attributes)]"""
    r = []
    for l in lines('units_labels.txt'):
        n, c, s, us, lab, att = l.split('|')
        lab = [x for x in lab.split(',') if x]
        r.append((n, c, s, us, [n] + lab, [x for x in att.split(',') if x]))
    return r

def codata():
    """{entry: (value, unit text)} of the published table"""
    out, on = {}, False
    for l in open(os.path.join(HERE, 'codata2006.txt'), encoding='utf-8'):
        l = l.rstrip('\n')
        if l.startswith('-----'):
            on = True; continue
        if not on or not l.strip():
            continue
        out[l[:55].strip()] = (float(l[55:77].strip().replace(' ', '').replace('...', '')), l[99:].strip())
    return out

def parse_units(text, names):
    """'J mol^-1 K^-1' -> {unit name: power}; names: label -> unit name"""
    text = text.strip()
    m = re.fullmatch(r'\((.*)\)\^(-?\d+)', text)
    if m:
        return {k: v * int(m.group(2)) for k, v in parse_units(m.group(1), names).items()}
    d = {}
    for i, part in enumerate(text.split('/')):
        for tok in part.split():
            m = re.fullmatch(r'([A-Za-z_]+)(?:\^(-?\d+))?', tok)
            n = names[m.group(1)]
            d[n] = d.get(n, 0) + int(m.group(2) or 1) * (-1 if i else 1)
    return d

def constants():
    """[(name, value, {unit name: power}, symbol, attributes)]"""
    names = {}
    for n, c, s, us, lab, att in unit_labels():
        for x in lab:
            names[x] = n
    table, r = codata(), []
    for l in lines('constants_map.txt'):
        n, e, sym, att = l.split('|')
        if e.startswith('='):
            f = e[1:].split(' ')
            val, ut = float(f[0]), f[1] if len(f) > 1 else ''
        else:
            val, ut = table[e]
        r.append((n, val, parse_units(ut, names), sym, att.split(',')))
    return r
