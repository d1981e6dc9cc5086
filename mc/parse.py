"""An independent parser of unit strings: its own tokenizer, precedence climbing and an evaluator over (magnitude, units) pairs.
parse(text, names) gives ('num', value) or ('q', magnitude, units); it raises Reject for everything else.
names: name -> (units tuple, scale, dims)"""
import keyword, math, re
from .model import umul, udiv, upow

class Reject(Exception):
    pass

class Unclear(Exception):
    pass

TOK = re.compile(r'\s*(?:(?P<num>(?:\d+(?:_\d+)*\.?(?:\d+(?:_\d+)*)?|\.\d+)(?:[eE][+-]?\d+)?)(?P<im>[jJ]?)|(?P<name>[^\W\d]\w*)|(?P<op>\*\*|//|[-+*/%()^·.~@&|]|<<|>>))')
BIN = {'+': 10, '-': 10, '*': 20, '/': 20, '//': 20, '%': 20, '@': 20, '<<': 8, '>>': 8, '&': 7, '|': 5}


def tokens(text):
    if text.lower() == 'in':
        text = 'inch'
    text = text.replace('%', 'percent')
    if text == '':
        text = 'dimensionless'
    out, i = [], 0
    end = len(text.rstrip())
    if text[:1] in (' ', '\t'):
        raise Reject('indent')
    while i < end:
        m = TOK.match(text, i)
        if not m or m.end() == i:
            raise Reject('character %r' % text[i:i + 1])
        if m.group('num'):
            n = m.group('num')
            if m.group('im'):
                raise Reject('imaginary')
            if re.match(r'0\d', n) and not re.search('[.eE]', n):
                if n.strip('0_'):
                    raise Reject('leading zero')
                n = '0'
            # a number may not run into a name
            if text[m.end():m.end() + 1].isalnum() or text[m.end():m.end() + 1] == '_':
                raise Reject('number runs into a name')
            out.append(('num', float(n) if re.search('[.eE]', n) else int(n)))
        elif m.group('name'):
            n = m.group('name')
            out.append(('name', {'in': 'inch', 'as': 'attosecond'}.get(n, n)))
        else:
            o = m.group('op')
            if o == '.':
                # a product, but only directly between two letters
                k = m.end()
                a, b = text[k - 2:k - 1], text[k:k + 1]
                if not (re.match('[A-Za-z]', a or '') and re.match('[A-Za-z]', b or '')):
                    raise Reject('dot')
                o = '*'
            elif o == '^': o = '**'
            elif o == '·': o = '*'
            out.append(('op', o))
        i = m.end()
    # textual neighbours: "*" "^" and "^" "*" are no operators
    for m in re.finditer(r'[*^]+', text):
        if m.group() not in ('*', '**', '^'):
            raise Reject('stars')
    if re.search(r'/{3,}', text):
        raise Reject('slashes')
    return out


class P:
    def __init__(self, toks, names):
        self.t, self.i, self.names = toks, 0, names

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self):
        r = self.peek(); self.i += 1
        return r

    def expr(self, lo):
        k, v = self.peek()
        if k == 'op' and v in '+-~':
            self.take()
            x = ('u' + v, self.expr(25))
        else:
            x = self.power()
        while True:
            k, v = self.peek()
            if k == 'op' and v in BIN and BIN[v] >= lo:
                self.take()
                x = (v, x, self.expr(BIN[v] + 1))
            else:
                return x

    def power(self):
        k, v = self.take()
        if k == 'op' and v == '(':
            x = self.expr(0)
            if self.take() != ('op', ')'):
                raise Reject('parenthesis')
        elif k in ('num', 'name'):
            x = (k, v)
            if v in ('True', 'False'):
                x = ('num', int(v == 'True'))
            elif k == 'name' and keyword.iskeyword(v):
                raise Reject('keyword')
        else:
            raise Reject('no operand')
        k, v = self.peek()
        if k == 'op' and v == '**':
            self.take()
            x = ('**', x, self.expr(25))
        return x


def value(x, names):
    op = x[0]
    if op == 'num':
        return ('num', x[1])
    if op == 'name':
        if x[1] not in names:
            raise Reject('unknown name')
        return ('q', 1.0) + tuple(names[x[1]])
    if op[0] == 'u':
        a = value(x[1], names)
        if op == 'u-':
            return (a[0], -a[1]) + a[2:]
        if a[0] == 'num' and (op == 'u+' or isinstance(a[1], int)):
            return ('num', a[1] if op == 'u+' else ~a[1])
        raise Reject('unary')
    a, b = value(x[1], names), value(x[2], names)
    try:
        return binary(op, a, b)
    except (ZeroDivisionError, OverflowError, TypeError, ValueError):
        raise Reject('arithmetic')


def binary(op, a, b):
    if a[0] == 'num' and b[0] == 'num':
        x, y = a[1], b[1]
        if op == '**' and (abs(y) > 1e4 or isinstance(x ** y, complex)):
            raise Reject('power')
        r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '//': lambda: x // y, '%': lambda: x % y, '**': lambda: x ** y,
             '<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y}
        if op not in r:
            raise Reject(op)
        return ('num', r[op]())
    if op == '**':
        if b[0] != 'num' and b[2]:
            raise Reject('exponent')
        p = b[1]
        if a[0] == 'num':
            return ('q', float(a[1]) ** p, (), 1.0, ())
        return ('q', a[1] ** p, upow(a[2], p), a[3] ** p, upow(a[4], p))
    A = a if a[0] == 'q' else ('q', float(a[1]), (), 1.0, ())
    B = b if b[0] == 'q' else ('q', float(b[1]), (), 1.0, ())
    if op == '*':
        return ('q', A[1] * B[1], umul(A[2], B[2]), A[3] * B[3], umul(A[4], B[4]))
    if op in ('/', '//'):
        if B[1] == 0:
            return ('q', float('nan'), udiv(A[2], B[2]), A[3] / B[3], udiv(A[4], B[4]))
        r = A[1] / B[1]
        return ('q', r if op == '/' else float(A[1] // B[1]), udiv(A[2], B[2]), A[3] / B[3], udiv(A[4], B[4]))
    if op in '+-%':
        if A[4] != B[4]:
            raise Reject('dimensions')
        # the result has the units of the operand with units
        left = a[0] == 'q'
        U = A if left else B
        x, y = A[1] * A[3] / U[3], B[1] * B[3] / U[3]
        r = x + y if op == '+' else x - y if op == '-' else (float('nan') if y == 0 else x % y)
        return ('q', r) + U[2:]
    raise Reject(op)


def parse(text, names):
    p = P(tokens('vampsec' if text in ('In', 'IN') and text in names else text), names)
    if not p.t:
        raise Reject('empty')
    x = p.expr(0)
    if p.i != len(p.t):
        raise Reject('trailing')
    return value(x, names)


def unit(text, names):
    """units tuple of an acceptable unit string, or Reject"""
    r = parse(text, names)
    if r[0] != 'q' or not abs(r[1] - 1) < 1e-9:
        raise Reject('not a unit')
    if r[1] != 1:
        raise Unclear(text)         # one up to rounding
    return r
