"""Abstract state: memory + facts (interval sets, linear inequalities)."""
import dom as D
from term import *
from mir import Agg, Ref, SRef, Fn, Vec, UNIT

BIG = 1 << 120
_enum_cache = {}


_REF = {}


def andnorm(ps):
    """k*a - j*(a & m) = (k-j)*a + j*(a & ~m)"""
    for b, kb in ps:
        if b.op == 'and' and kb < 0 and isk(b.args[1]):
            a = b.args[0]
            for x, kx in ps:
                if x is a and kx > 0:
                    j = min(kx, -kb)
                    if b.args[1].args[0] >> 64:
                        return ps
                    d = dict(ps)
                    d[a] -= j
                    d[b] += j
                    nb = mk('and', (a, K(b.args[1].args[0] ^ ((1 << 64) - 1))), b.ty)
                    d[nb] = d.get(nb, 0) + j
                    return {t: k for t, k in d.items() if k}
    return ps



class St:
    __slots__ = ('s', 'd', 'l', 'g', 'mir', '_ix', '_dc')

    def __init__(self, mir):
        self.mir = mir
        self.s, self.d, self.l, self.g = {}, {}, {}, {}
        self._ix = None
        self._dc = {}

    def copy(self):
        n = St.__new__(St)
        n.mir = self.mir
        n.s, n.d, n.l, n.g = dict(self.s), dict(self.d), dict(self.l), dict(self.g)
        n._ix = None
        n._dc = dict(self._dc)
        return n

    def fingerprint(self):
        return (frozenset(self.s.items()), frozenset(self.d.items()), frozenset(self.l.items()),
                frozenset((k, v) for k, v in self.g.items() if k != '#phis'))

    # ---------- domains
    def dom(self, t):
        if t.op == 'k':
            return ((t.args[0], t.args[0]),)
        r = self._dc.get(t)
        if r is not None:
            return r
        r = self._dom(t)
        x = self.d.get(t)
        if x is not None:
            r = D.inter(r, x)
        self._dc[t] = r
        return r

    def leafdom(self, t):
        m = self.mir
        if t.op == 'discr':
            r = m.discr_dom(t.args[0].ty) if t.args[0].ty is not None else None
            return r or ((-(1 << 63), (1 << 64) - 1),)
        if t.op == 'len':
            return ((0, (1 << 63) - 1),)
        if t.ty is not None:
            r = m.trange(t.ty)
            if r is not None:
                return r
        return D.TOP

    def _dom(self, t):
        op = t.op
        if op == 'lin':
            c, ps = t.args
            if len(ps) == 1 and ps[0][1] in (1, -1):
                a, k = ps[0]
                da = self.dom(a)
                if k == 1:
                    return D.shift(da, c)
                return tuple((c - h, c - l) for l, h in reversed(da))
            q = andnorm(ps)
            if q is not ps:
                return self.dom(lin_mk(c, q))
            lo = hi = c
            for a, k in ps:
                da = self.dom(a)
                if not da:
                    return ()
                if k > 0:
                    lo += k * da[0][0]
                    hi += k * da[-1][1]
                else:
                    lo += k * da[-1][1]
                    hi += k * da[0][0]
            return ((lo, hi),)
        if op in ('ge0', 'eq0'):
            x = self.dom(t.args[0])
            if not x:
                return ()
            if op == 'ge0':
                if x[0][0] >= 0:
                    return D.const(1)
                if x[-1][1] < 0:
                    return D.const(0)
                return D.BOOL
            if not D.has(x, 0):
                return D.const(0)
            if x == ((0, 0),):
                return D.const(1)
            return D.BOOL
        if op == 'not':
            x = self.dom(t.args[0])
            return tuple((1 - h, 1 - l) for l, h in reversed(x))
        if op not in COMP:
            return D.BOOL if op == 'ovf' else self.leafdom(t)
        # small single-leaf composite: enumerate
        lv = leaves(t)
        if len(lv) == 1:
            (a,) = lv
            da = self.dom(a)
            if D.size(da) <= 300:
                key = (t, da)
                r = _enum_cache.get(key)
                if r is None:
                    vals = [ceval(t, {a: v}) for v in D.it(da)]
                    r = None if any(v is None for v in vals) else D.of(vals)
                    _enum_cache[key] = r if r is not None else 0
                if r:
                    return r
        r = self._arith(t)
        return r if r else D.TOP

    def _arith(self, t):
        op = t.op
        if op == 'wrap':
            n, s = t.args[1], t.args[2]
            return ((-(1 << (n - 1)), (1 << (n - 1)) - 1),) if s else ((0, mask(n)),)
        if op == 'tbl':
            a = t.args[0].args[0]
            i = self.dom(t.args[1])
            if not i:
                return ()
            lo, hi = max(0, i[0][0]), min(len(a) - 1, i[-1][1])
            v = [a[j] for j in range(lo, hi + 1)]
            return D.of(v) if len(v) <= 300 else (D.rng(min(v), max(v)) if v else ())
        if op == 'popc':
            return ((0, 128),)
        if op in ('and', 'or', 'xor', 'shr', 'shl', 'mul', 'div', 'rem'):
            x, y = self.dom(t.args[0]), self.dom(t.args[1])
            if not x or not y:
                return ()
            xl, xh, yl, yh = x[0][0], x[-1][1], y[0][0], y[-1][1]
            if op == 'mul':
                c = [xl * yl, xl * yh, xh * yl, xh * yh]
                return ((min(c), max(c)),)
            if xl < 0 or yl < 0:
                return None
            if op == 'and':
                return ((0, min(xh, yh)),)
            if op in ('or', 'xor'):
                m = mask(max(xh.bit_length(), yh.bit_length()))
                return ((max(xl, yl) if op == 'or' else 0, m),)
            if op == 'shr':
                return ((xl >> min(yh, 200), xh >> min(yl, 200)),)
            if op == 'shl':
                return ((xl << min(yl, 200), xh << min(yh, 200)),)
            if op == 'div':
                return ((xl // max(yh, 1), xh // max(yl, 1)),)
            if op == 'rem':
                if isk(t.args[1]):
                    r = self.congr(t.args[0], t.args[1].args[0], t)
                    if r is not None:
                        return D.const(r)
                return ((0, max(0, min(xh, yh - 1))),)
        return None

    def lo(self, t):
        d = self.dom(t)
        return d[0][0] if d else BIG

    def hi(self, t):
        d = self.dom(t)
        return d[-1][1] if d else -BIG

    def touch(self):
        self._dc = {}

    def refine(self, t, d):
        """intersect domain of t with d; False if empty"""
        if t.op == 'k':
            return D.has(d, t.args[0])
        cur = self.dom(t)
        new = D.inter(cur, d)
        if not new:
            return False
        if new == cur:
            return True
        if t.op == 'lin' and len(t.args[1]) == 1 and t.args[1][0][1] in (1, -1):
            a, k = t.args[1][0]
            c = t.args[0]
            if k == 1:
                return self.refine(a, D.shift(new, -c))
            return self.refine(a, tuple((c - h, c - l) for l, h in reversed(new)))
        lv = leaves(t)
        if len(lv) == 1 and t not in lv:
            (a,) = lv
            da = self.dom(a)
            if D.size(da) <= 300:
                kk = (t, da, new)
                r = _REF.get(kk)
                if r is None:
                    keep = []
                    exact = True
                    for v in D.it(da):
                        x = ceval(t, {a: v})
                        if x is None:
                            exact = False
                            keep.append(v)
                        elif D.has(new, x):
                            keep.append(v)
                    if len(_REF) > 400000:
                        _REF.clear()
                    r = _REF[kk] = (D.of(keep) if keep else (), exact)
                keep, exact = r
                if not keep:
                    return False
                if not exact:
                    self.d[t] = new
                    self._dc = {}
                if keep != da:
                    return self.refine(a, keep)
                return True
        self.d[t] = new
        self._dc = {}
        if len(lv) == 1:
            pass
        elif t.op == 'wrap' and t.args[0].op != 'k':
            pass
        return True

    # ---------- linear facts
    def addlin(self, x):
        """assert x >= 0"""
        if x.op == 'k':
            return x.args[0] >= 0
        if self.hi(x) < 0:
            return False
        if x.op != 'lin' or len(x.args[1]) == 1:
            if x.op != 'lin':
                return self.refine(x, ((0, 1 << 130),))
            a, k = x.args[1][0]
            c = x.args[0]
            if k > 0:
                return self.refine(a, ((-(c // k), 1 << 130),))
            return self.refine(a, ((-(1 << 130), c // (-k)),))
        if self.lo(x) >= 0:
            return True
        # subsumption on same linear part
        c, ps = x.args
        old = self.l.get(ps)
        if old is not None and old <= c:
            return True
        # contradiction with known facts?
        self.l[ps] = c
        self._ix = None
        # bounds propagation
        for a, k in ps:
            rest_hi = c
            for b, kb in ps:
                if b is a:
                    continue
                db = self.dom(b)
                if not db:
                    return False
                rest_hi += kb * (db[-1][1] if kb > 0 else db[0][0])
            if abs(rest_hi) < (1 << 100):
                # k*a >= -rest_hi
                if k > 0:
                    b0 = -(rest_hi // k)
                    if b0 > self.lo(a) and not self.refine(a, ((b0, 1 << 130),)):
                        return False
                else:
                    b1 = rest_hi // (-k)
                    if b1 < self.hi(a) and not self.refine(a, ((-(1 << 130), b1),)):
                        return False
        return True

    def index(self):
        if self._ix is None:
            ix = {}
            for ps, c in self.l.items():
                for a, k in ps:
                    ix.setdefault((a, k > 0), []).append((ps, c, k))
            self._ix = ix
        return self._ix

    def lb(self, x, depth=4, target=None, memo=None):
        """a lower bound of x provable from the facts"""
        best = self.lo(x)
        if x.op == 'k' or depth == 0 or (target is not None and best >= target):
            return best
        c, ps = lin_parts(x)
        if len(ps) > 14:
            return best
        ix = self.index()
        if memo is None:
            memo = {}
        key = frozenset(ps.items())
        old = memo.get(key)
        if old is not None and old[0] >= depth:
            return max(best, old[1] + c)
        memo[key] = (depth, best - c)
        for a, k in ps.items():
            for fps, fc, fk in ix.get((a, k > 0), ()):
                if k % fk:
                    continue
                m = k // fk
                y = dict(ps)
                for b, kb in fps:
                    n = y.get(b, 0) - m * kb
                    if n:
                        y[b] = n
                    else:
                        y.pop(b, None)
                if len(y) > len(ps) + 1:
                    continue
                yc = c - m * fc
                if depth == 1:
                    r = yc
                    for b, kb in y.items():
                        if kb < 0 and b.op == 'and' and y.get(b.args[0], 0) > 0:
                            r = None
                            break
                        db = self.dom(b)
                        if not db:
                            r = None
                            break
                        r += kb * (db[0][0] if kb > 0 else db[-1][1])
                        if r < -(1 << 120):
                            break
                    if r is None:
                        r = self.lo(lin_mk(yc, y))
                    if r > best:
                        best = r
                        memo[key] = (depth, best - c)
                        if target is not None and best >= target:
                            return best
                    continue
                old = memo.get(frozenset(y.items()))
                if old is not None and old[0] >= depth - 1:
                    r = old[1] + yc
                else:
                    r = self.lb(lin_mk(yc, y), depth - 1, target, memo)
                if r > best:
                    best = r
                    memo[key] = (depth, best - c)
                    if target is not None and best >= target:
                        return best
        return best

    def rems(self):
        return [(t.args[0], t.args[1].args[0], d[0][0]) for t, d in self.d.items()
                if t.op == 'rem' and len(d) == 1 and d[0][0] == d[0][1] and isk(t.args[1])]

    def congr(self, x, k, me=None):
        """residue of x modulo k when known (non-negative x only)"""
        if not any(t.op == 'rem' for t in self.d):
            return None
        for y, ky, r in self.rems():
            if ky % k == 0:
                dlt = sub(x, y)
                if isk(dlt):
                    return (r + dlt.args[0]) % k
        return None

    def ge(self, x, n=0):
        """x >= n provable"""
        if self.lo(x) >= n:
            return True
        b = self.lb(x, 4, n)
        if b >= n:
            return True
        if b > -(1 << 60) and x.op != 'k':
            for y, k, r in self.rems():
                dlt = sub(x, y)
                if isk(dlt):
                    q = (r + dlt.args[0] - b) % k
                    if b + q >= n:
                        return True
        return False

    def val(self, t):
        """boolean value of a boolean term: 1/0/None"""
        if t.op == 'k':
            return t.args[0]
        d = self.dom(t)
        if len(d) == 1 and d[0][0] == d[0][1]:
            return d[0][0]
        if t.op == 'not':
            v = self.val(t.args[0])
            return None if v is None else 1 - v
        if t.op == 'ge0':
            x = t.args[0]
            if self.ge(x):
                return 1
            if self.ge(addk(neg(x), -1)):
                return 0
        if t.op == 'eq0':
            x = t.args[0]
            if self.ge(addk(x, -1)) or self.ge(addk(neg(x), -1)):
                return 0
            if self.ge(x) and self.ge(neg(x)):
                return 1
        if t.op in ('and', 'or'):
            a, b = self.val(t.args[0]), self.val(t.args[1])
            if t.op == 'and':
                if a == 0 or b == 0:
                    return 0
                if a == 1 and b == 1:
                    return 1
            else:
                if (a is not None and a != 0 and b in (0, 1)) or (b == 1 and a in (0, 1)):
                    return 1
                if a == 0 and b == 0:
                    return 0
        return None

    def assume(self, t, v):
        """restrict to states where boolean term t has value v; False if infeasible"""
        if t.op == 'k':
            return bool(t.args[0]) == bool(v)
        cur = self.val(t)
        if cur is not None:
            return bool(cur) == bool(v)
        op = t.op
        if op == 'not':
            return self.assume(t.args[0], not v)
        if op == 'and' and v and self.dom(t) == D.BOOL and self._isbool(t):
            return self.assume(t.args[0], 1) and self.assume(t.args[1], 1)
        if op == 'or' and not v and self._isbool(t):
            return self.assume(t.args[0], 0) and self.assume(t.args[1], 0)
        if not self.refine(t, D.const(1 if v else 0)):
            return False
        if op == 'ge0':
            x = t.args[0] if v else addk(neg(t.args[0]), -1)
            return self.addlin(x)
        if op == 'eq0':
            x = t.args[0]
            if v:
                if not (self.addlin(x) and self.addlin(neg(x))):
                    return False
                c, ps = lin_parts(x)
                if len(ps) == 1:
                    (a, k), = ps.items()
                    if c % k:
                        return False
                    return self.refine(a, D.const(-c // k))
                if len(ps) == 2:
                    (a, k), (b, k2) = ps.items()
                    if {k, k2} == {1, -1}:
                        # a = b + c'   (share domains)
                        s = -c if k == 1 else c
                        if not self.refine(a, D.shift(self.dom(b), s)):
                            return False
                        if not self.refine(b, D.shift(self.dom(a), -s)):
                            return False
                return True
            c, ps = lin_parts(x)
            if len(ps) == 1:
                (a, k), = ps.items()
                if c % k == 0:
                    return self.refine(a, D.compl(D.const(-c // k)))
            else:
                # x != 0 and x >= 0  =>  x >= 1
                if self.ge(x):
                    return self.addlin(addk(x, -1))
                if self.ge(neg(x)):
                    return self.addlin(addk(neg(x), -1))
            return True
        return True

    def _isbool(self, t):
        return all(self.dom(a) in (D.BOOL, D.const(0), D.const(1)) for a in t.args)
