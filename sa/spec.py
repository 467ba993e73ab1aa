"""Compare trace-partitioned abstract summaries of a function with a table of specified cases."""
import itertools
import dom as D
from term import *
from mir import Mir, Agg, Ref, SRef, Fn, Vec, UNIT
from state import St


def deref(ai, st, v):
    while isinstance(v, Ref):
        v = ai.read(st, v.base, v.path)
    return v


def scalar(ai, st, v, ty=None):
    """descend through single-field wrappers to an integer term"""
    for _ in range(12):
        v = deref(ai, st, v)
        if isinstance(v, Agg) and len(v.f) == 1:
            v = v.f[0]
            continue
        if isinstance(v, T) and v.op != 'k' and v.ty is not None and ai.mir.tk(v.ty) == 'adt':
            fs = ai.mir.fields(v.ty, 0)
            if len(fs) == 1:
                v = ai.proj(v, ('f', None, 0), fs[0][1])
                continue
        break
    return v


def fld(ai, st, v, *names, ty=None):
    """field access by name; ty = static type of v when v is untyped"""
    for n in names:
        v = deref(ai, st, v)
        t = v.ty if isinstance(v, (Agg, T)) and isinstance(v.ty, int) else ty
        var_ = v.var if isinstance(v, Agg) else None
        fs = ai.mir.fields(t, var_)
        if fs is None:
            raise LookupError(f'{n}: no fields on {ai.mir.name(t)}')
        for i, f in enumerate(fs):
            if f[0] == n:
                break
        else:
            raise LookupError(f'no field {n} in {ai.mir.name(t)}')
        v = ai.proj(v, ('f', None, i), fs[i][1])
        ty = fs[i][1]
    return v


def variant(m, v):
    if isinstance(v, Agg) and isinstance(v.ty, int) and m.is_enum(v.ty):
        return m.variants(v.ty)[v.var]['name']
    return None


def variants_of(ai, st, v):
    """possible variant names of an enum value"""
    n = variant(ai.mir, v)
    if n is not None:
        return [n]
    if isinstance(v, T) and v.ty is not None and ai.mir.is_enum(v.ty):
        d = st.dom(mk('discr', (v,)))
        return [x['name'] for x in ai.mir.variants(v.ty) if D.has(d, int(x['discr']))]
    if isinstance(v, T):
        for ty in ():
            pass
    return None


def inner(v, i=0):
    return v.f[i] if isinstance(v, Agg) and len(v.f) > i else None


# ------------------------------------------------------------------ term equality under a state
def bits_of(st, t, n, depth=0):
    """little-endian list of n bit terms (0, 1 or (leaf, index) / None unknown) for pure bitwise terms"""
    if depth > 40:
        return None
    if t.op == 'k':
        v = t.args[0]
        if v < 0:
            v &= (1 << n) - 1
        return [(v >> i) & 1 for i in range(n)]
    if t.op == 'and' and isk(t.args[1]):
        a = bits_of(st, t.args[0], n, depth + 1)
        return a and [x if (t.args[1].args[0] >> i) & 1 else 0 for i, x in enumerate(a)]
    if t.op in ('div', 'rem') and isk(t.args[1]):
        k = t.args[1].args[0]
        d = st.dom(t.args[0])
        if k > 0 and k & (k - 1) == 0 and d and d[0][0] >= 0:
            k = k.bit_length() - 1
            a = bits_of(st, t.args[0], n + k, depth + 1)
            return a and (a[k:k + n] if t.op == 'div' else (a[:k] + [0] * n)[:n])
    if t.op == 'shr' and isk(t.args[1]):
        k = t.args[1].args[0]
        a = bits_of(st, t.args[0], n + k, depth + 1)
        return a and a[k:]
    if t.op == 'shl' and isk(t.args[1]):
        k = t.args[1].args[0]
        a = bits_of(st, t.args[0], n, depth + 1)
        return a and ([0] * k + a)[:n]
    if t.op in ('or', 'xor', 'and'):
        a, b = bits_of(st, t.args[0], n, depth + 1), bits_of(st, t.args[1], n, depth + 1)
        if not a or not b:
            return None
        out = []
        for x, y in zip(a, b):
            if t.op == 'and':
                out.append(0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 or x == y else ('&', *sorted([x, y], key=repr)))
            elif t.op == 'or':
                out.append(1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 or x == y else ('|', *sorted([x, y], key=repr)))
            else:
                if isinstance(x, int) and isinstance(y, int):
                    out.append(x ^ y)
                elif x == 0 or y == 0:
                    out.append(y if x == 0 else x)
                elif x == y:
                    out.append(0)
                else:
                    out.append(('^', *sorted([x, y], key=repr)))
        return out
    if t.op == 'wrap' and not t.args[2]:
        w = t.args[1]
        a = bits_of(st, t.args[0], min(n, w), depth + 1)
        return a and a + [0] * (n - len(a))
    if t.op == 'lin':
        c, ps = t.args
        # sum of disjoint bit ranges
        acc = bits_of(st, K(c), n)
        for a, k in ps:
            if k <= 0 or k & (k - 1):
                return None
            sh = k.bit_length() - 1
            b = bits_of(st, a, max(0, n - sh), depth + 1)
            if not b:
                return None
            b = [0] * sh + b
            for i in range(n):
                if acc[i] != 0 and b[i] != 0:
                    return None
                acc[i] = acc[i] if acc[i] != 0 else b[i]
        return acc
    d = st.dom(t)
    if not d or d[0][0] < 0:
        return None
    w = d[-1][1].bit_length()
    ones = [0] * 0
    out = []
    small = D.size(d) <= 4096
    for i in range(n):
        if i >= w:
            out.append(0)
        elif small:
            vs = {(v >> i) & 1 for v in D.it(d)}
            out.append(vs.pop() if len(vs) == 1 else (t.id, i))
        else:
            out.append((t.id, i))
    return out


def simp(st, t, depth=0):
    """drop masks and wraps that the value ranges of st make redundant"""
    if not isinstance(t, T) or t.op == 'k' or depth > 12:
        return t
    v = st.dom(t)
    if len(v) == 1 and v[0][0] == v[0][1]:
        return K(v[0][0])
    if t.op in ('and', 'or', 'xor', 'shr', 'shl', 'mul', 'div', 'rem'):
        a, b = simp(st, t.args[0], depth + 1), simp(st, t.args[1], depth + 1)
        if t.op == 'and' and isk(b):
            k = b.args[0]
            if k >= 0 and k & (k + 1) == 0:
                d = st.dom(a)
                if d and d[0][0] >= 0 and d[-1][1] <= k:
                    return a
        if a is t.args[0] and b is t.args[1]:
            return t
        return mk(t.op, (a, b), t.ty)
    if t.op == 'wrap':
        a = simp(st, t.args[0], depth + 1)
        n, sg = t.args[1], t.args[2]
        d = st.dom(a)
        if d and (d[0][0] >= (-(1 << (n - 1)) if sg else 0)) and d[-1][1] < (1 << (n - 1 if sg else n)):
            return a
        if not sg and d and d[0][0] >= 0:
            return mk('and', (a, K((1 << n) - 1)))
        return t if a is t.args[0] else mk('wrap', (a, n, sg), t.ty)
    if t.op == 'lin':
        r = K(t.args[0])
        for x, k in t.args[1]:
            r = add(r, scale(simp(st, x, depth + 1), k))
        return r
    return t


def equal(ai, st, a, b, limit=1 << 17):
    """True when terms a and b denote the same integer in every concrete state described by st"""
    if a is b:
        return True
    if not isinstance(a, T) or not isinstance(b, T):
        return a == b
    a, b = simp(st, a), simp(st, b)
    if a is b:
        return True
    d = st.dom(sub(a, b))
    if d == ((0, 0),):
        return True
    lv = list(leaves(a) | leaves(b))
    size = 1
    for x in lv:
        size *= max(1, D.size(st.dom(x)))
        if size > limit:
            break
    if size <= limit:
        env = {}
        for vs in itertools.product(*[list(D.it(st.dom(x))) for x in lv]):
            env = dict(zip(lv, vs))
            if ceval(a, env) != ceval(b, env):
                # the valuation must be consistent with the linear facts known on the path
                s2 = st.copy()
                if all(s2.refine(x, D.const(v)) for x, v in env.items()):
                    if s2.dom(sub(a, b)) == ((0, 0),):
                        continue
                    return False
        return True
    ba, bb = bits_of(st, a, 128), bits_of(st, b, 128)
    return ba is not None and bb is not None and ba == bb


def assume(st, conds):
    """copy of st with every (term, value) assumed, or None when infeasible"""
    s = st.copy()
    for _ in range(2):
        for c, v in conds:
            if not isinstance(c, T):
                if bool(c) != bool(v):
                    return None
                continue
            if not s.assume(c, v):
                return None
    for c, v in conds:
        if isinstance(c, T) and s.val(c) is not None and s.val(c) != v:
            return None
    return s


def isin(t, vals):
    """condition object: dom restriction"""
    return ('dom', t, D.of(vals) if not isinstance(vals, tuple) else vals)


def feasible(st, conds):
    s = st.copy()
    for _ in range(2):
        for c in conds:
            if c[0] == 'dom':
                if not s.refine(c[1], c[2]):
                    return None
                if c[1].op == 'lin':
                    if not s.assume(ge0(addk(c[1], -c[2][0][0])), 1) or not s.assume(ge0(addk(neg(c[1]), c[2][-1][1])), 1):
                        return None
            else:
                if not isinstance(c[0], T):
                    if bool(c[0]) != bool(c[1]):
                        return None
                elif not s.assume(c[0], c[1]):
                    return None
    for c in conds:
        t = c[1] if c[0] == 'dom' else c[0]
        if isinstance(t, T) and not s.dom(t):
            return None
    return s if consistent(s) else None


def consistent(s, rounds=4):
    """bounds propagation of every linear and comparison fact; False when the state is contradictory"""
    for _ in range(rounds):
        s.touch()
        before = dict(s.d)
        facts = [(c, ps) for ps, c in s.l.items()]
        for k, d in list(s.d.items()):
            if not d:
                return False
            if k.op in ('eq0', 'ge0', 'not') and len(d) == 1 and d[0][0] == d[0][1]:
                own = D.inter(s._dom(k), d)
                if not own:
                    return False
                v = d[0][0]
                if k.op == 'eq0':
                    c, ps = lin_parts(k.args[0])
                    if v:
                        facts += [(c, tuple(ps.items())), (-c, tuple((a, -q) for a, q in ps.items()))]
                elif k.op == 'ge0':
                    c, ps = lin_parts(k.args[0])
                    facts.append((c, tuple(ps.items())) if v else (-c - 1, tuple((a, -q) for a, q in ps.items())))
            elif k.op == 'lin':
                if not D.inter(s._dom(k), d):
                    return False
                c, ps = k.args
                facts += [(c - d[0][0], ps), (d[-1][1] - c, tuple((a, -q) for a, q in ps))]
        for c, ps in facts:
            for a, k in ps:
                rest = c
                for b, kb in ps:
                    if b is not a:
                        db = s.dom(b)
                        if not db:
                            return False
                        rest += kb * (db[-1][1] if kb > 0 else db[0][0])
                if abs(rest) >= (1 << 100):
                    continue
                # k*a + rest >= 0
                r = ((-(rest // k), 1 << 130),) if k > 0 else ((-(1 << 130), rest // -k),)
                if not s.refine(a, r):
                    return False
        if s.d == before:
            break
    return True


def check_cases(rep, key, ai, exits, cases):
    """exits: [(state, value)]; cases: [(name, conds, outcome(ai, st, value) -> None | error text)]
    every feasible (exit, case) pair must have the specified outcome"""
    hit = {}
    for st, v in exits:
        st.touch()
        for name, conds, out in cases:
            cs = conds(st) if callable(conds) else conds
            s = feasible(st, cs)
            if s is None:
                continue
            hit[name] = hit.get(name, 0) + 1
            e = out(ai, s, v)
            rep.ob(f'{key}/{name}', not e, f'{e}; path: {describe(st)}')
            rep.count('exit_case_pairs')
    for name, _, _ in cases:
        if name not in hit:
            rep.ob(f'{key}/{name}', False, 'no analysed path covers this case')
    return hit


def describe(st, n=8):
    return ', '.join(f'{show(k)}∈{D.show(v)}' for k, v in list(st.d.items())[:n])


# ------------------------------------------------------------------ building argument values
def struct(m, ty, var_=None, **fs):
    """aggregate of struct/enum-variant type ty; unnamed fields are fresh symbols"""
    v = m.variant_named(ty, var_) if isinstance(var_, str) else (var_ or 0)
    out = []
    for n, t in m.fields(ty, v):
        out.append(fs.pop(n) if n in fs else var(('fld0', ty, n), t))
    if fs:
        raise LookupError(f'no field {sorted(fs)} in {m.name(ty)}')
    return Agg(ty, v, out)


def type_named(m, rx):
    import re
    r = [k for k, v in m.types.items() if re.search(rx, v.get('path', '') or '') and v.get('k') == 'adt']
    if not r:
        raise LookupError(rx)
    return r[0]


def place(st, name, v):
    st.s[(name,)] = v
    return Ref((name,))


def newbuf(ai, st, name='out'):
    c = var(('buf', name))
    st.s[(name,)] = Vec(c, ZERO, ZERO, (), ai.mir.u8)
    return Ref((name,))


def inbuf(ai, st, name='in', n=None):
    """readable buffer of n bytes (symbolic length when n is None)"""
    c = var(('buf', name))
    st.s[(name,)] = Vec(c, ZERO, K(n) if n is not None else mk('len', (c,)), (), ai.mir.u8)
    return Ref((name,)), c


def emitted(ai, st, vec):
    """flatten a write log to byte terms / slice segments; None when the log was lost at a join"""
    import models
    out = []
    log = vec.log if isinstance(vec, Vec) else vec
    for it in log:
        if it[0] == 'u':
            out += [it[2]] if it[1] == 1 else models.be_bytes(ai, st, it[2], it[1])
        elif it[0] == 's':
            s = it[1]
            n = st.val(s.len)
            if s.src is not None:
                r = emitted(ai, st, s.src)
                if r is None:
                    return None
                out += r
            elif n is not None and n <= 64:
                for i in range(n):
                    out.append(ai.elem(st, s.c, addk(s.s, i), ai.mir.u8))
            else:
                out.append(s)
        else:
            return None
    return out


def same_bytes(ai, st, got, want):
    if got is None:
        return 'bytes written not determined'
    if len(got) != len(want):
        return f'writes {len(got)} items {[show(x) if isinstance(x, T) else x for x in got][:12]}, specified {len(want)}'
    for i, (g, w) in enumerate(zip(got, want)):
        if isinstance(g, SRef) or isinstance(w, SRef):
            if not (isinstance(g, SRef) and isinstance(w, SRef) and g.c == w.c and equal(ai, st, g.s, w.s) and equal(ai, st, g.e, w.e)):
                return f'item {i}: writes {g!r}, specified {w!r}'
        elif not equal(ai, st, g, w):
            return f'byte {i}: writes {show(g)}, specified {show(w)}'
    return None


def byte_of(ai, st, t, n, i):
    """big-endian byte i of an n-byte integer term"""
    import models
    return models.be_bytes(ai, st, t, n)[i]


def be_term(e):
    """big-endian integer of byte terms"""
    t = ZERO
    for j, x in enumerate(e):
        t = add(t, scale(x, 1 << (8 * (len(e) - 1 - j))))
    return t


def is_ok(m, v):
    return variant(m, v) == 'Ok'


def is_err(m, v):
    return variant(m, v) == 'Err'


def xor_(a, b):
    return mk('xor', tuple(sorted((a, b), key=lambda t: -t.id)))
