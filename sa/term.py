"""Hash-consed terms."""
_tab = {}
_n = [0]


class T:
    __slots__ = ('op', 'args', 'ty', 'id', '_leaf', '_vars', '__weakref__')

    def __repr__(self):
        return show(self)


def mk(op, args, ty=None):
    if op == 'shr' and args[0].op == 'shr' and args[1].op == 'k' and args[0].args[1].op == 'k':
        args = (args[0].args[0], K(args[1].args[0] + args[0].args[1].args[0]))
    k = (op, args, ty)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.ty = op, args, ty
        _n[0] += 1
        t.id = _n[0]
        t._leaf = None
        t._vars = None
        _tab[k] = t
    return t


def K(n):
    return mk('k', (int(n),))


ZERO = K(0)
ONE = K(1)


def isk(t):
    return isinstance(t, T) and t.op == 'k'


COMP = {'lin', 'ge0', 'eq0', 'not', 'popc', 'tbl', 'wrap', 'mul', 'div', 'rem', 'and', 'or', 'xor', 'shl', 'shr'}


def var(name, ty=None):
    return mk('v', (name,), ty)


# ---- linear normal form
def lin_parts(t):
    if t.op == 'k':
        return t.args[0], {}
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def lin_mk(c, d, ty=None):
    d = {a: k for a, k in d.items() if k != 0}
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return mk('lin', (c, tuple(sorted(d.items(), key=lambda x: x[0].id))))


def add(a, b):
    if a.op == 'k' and b.op == 'k':
        return K(a.args[0] + b.args[0])
    c, d = lin_parts(a)
    c2, d2 = lin_parts(b)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + k
    return lin_mk(c + c2, d)


def scale(a, k):
    c, d = lin_parts(a)
    return lin_mk(c * k, {t: x * k for t, x in d.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def addk(a, n):
    return add(a, K(n)) if n else a


# ---- boolean terms
TRUE = K(1)
FALSE = K(0)


def ge0(x):
    if x.op == 'k':
        return TRUE if x.args[0] >= 0 else FALSE
    return mk('ge0', (x,))


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(addk(sub(b, a), -1))


def eq(a, b):
    if a is b:
        return TRUE
    x = sub(a, b)
    if x.op == 'k':
        return TRUE if x.args[0] == 0 else FALSE
    # canonical sign
    c, d = lin_parts(x)
    first = min(d, key=lambda t: t.id)
    if d[first] < 0:
        x = neg(x)
    return mk('eq0', (x,))


def not_(b):
    if b.op == 'k':
        return K(1 - b.args[0])
    if b.op == 'not':
        return b.args[0]
    if b.op == 'ge0':
        return ge0(addk(neg(b.args[0]), -1))
    return mk('not', (b,))


def mask(bits):
    return (1 << bits) - 1


def ceval(t, env):
    """Concrete value of a term under an assignment of its leaves (or None)."""
    r = env.get(t)
    if r is not None:
        return r
    op = t.op
    if op == 'k':
        return t.args[0]
    if op == 'lin':
        s = t.args[0]
        for a, k in t.args[1]:
            v = ceval(a, env)
            if v is None:
                return None
            s += k * v
        return s
    if op in ('ge0', 'eq0', 'not'):
        v = ceval(t.args[0], env)
        if v is None:
            return None
        return int(v >= 0) if op == 'ge0' else int(v == 0) if op == 'eq0' else 1 - v
    if op == 'tbl':
        v = ceval(t.args[1], env)
        a = t.args[0].args[0]
        if v is None or not 0 <= v < len(a):
            return None
        return a[v]
    if op in ('mul', 'div', 'rem', 'and', 'or', 'xor', 'shl', 'shr'):
        a = ceval(t.args[0], env)
        if a is None:
            return None
        b = ceval(t.args[1], env)
        if b is None:
            return None
        if op == 'mul':
            return a * b
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shr':
            return a >> b if b >= 0 else None
        if op == 'shl':
            return a << b if 0 <= b < 256 else None
        if b == 0:
            return None
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return q if op == 'div' else a - b * q
    if op == 'wrap':
        v = ceval(t.args[0], env)
        if v is None:
            return None
        return wrap(v, t.args[1], t.args[2])
    if op == 'popc':
        v = ceval(t.args[0], env)
        return None if v is None else bin(v).count('1')
    return None


def wrap(v, bits, signed):
    v &= mask(bits)
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


def leaves(t):
    """value leaves of a scalar term (maximal sub-terms that are not pure arithmetic)"""
    if t._leaf is None:
        if t.op == 'k':
            r = frozenset()
        elif t.op == 'lin':
            r = frozenset().union(*[leaves(a) for a, _ in t.args[1]])
        elif t.op in ('ge0', 'eq0', 'not', 'popc'):
            r = leaves(t.args[0])
        elif t.op == 'tbl':
            r = leaves(t.args[1])
        elif t.op == 'wrap':
            r = leaves(t.args[0])
        elif t.op in ('mul', 'div', 'rem', 'and', 'or', 'xor', 'shl', 'shr'):
            r = leaves(t.args[0]) | leaves(t.args[1])
        else:
            r = frozenset([t])
        t._leaf = r
    return t._leaf


def tvars(t):
    """all 'v' terms occurring anywhere inside t"""
    if t._vars is None:
        if t.op == 'v':
            r = frozenset([t])
        else:
            s = set()
            for a in _subs(t):
                s |= tvars(a)
            r = frozenset(s)
        t._vars = r
    return t._vars


def _subs(t):
    if t.op == 'lin':
        return [a for a, _ in t.args[1]]
    return [a for a in t.args if isinstance(a, T)]


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 6:
        return '…'
    s = lambda x: show(x, d + 1)
    if t.op == 'k':
        return str(t.args[0])
    if t.op == 'v':
        return str(t.args[0]) if isinstance(t.args[0], str) else 'v' + str(t.id)
    if t.op == 'lin':
        out = []
        for a, k in t.args[1]:
            out.append(('+' if k > 0 else '-') + (str(abs(k)) + '*' if abs(k) != 1 else '') + s(a))
        c = t.args[0]
        return '(' + ''.join(out).lstrip('+') + (('+' if c > 0 else '') + str(c) if c else '') + ')'
    if t.op == 'bytes':
        return repr(t.args[0][:24])
    if t.op == 'carr':
        return f'carr#{t.id}'
    if t.op == 'ge0':
        return s(t.args[0]) + '>=0'
    if t.op == 'eq0':
        return s(t.args[0]) + '==0'
    if t.op == 'fld':
        return f'{s(t.args[0])}.{t.args[1]}.{t.args[2]}'
    return f'{t.op}(' + ','.join(s(a) for a in t.args) + ')'
