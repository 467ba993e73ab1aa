"""Context-sensitive abstract interpreter over exported MIR."""
import os, re, time, sys
import dom as D
from term import *
from mir import Mir, Agg, Ref, SRef, Fn, Vec, UNIT
from state import St

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class Body:
    """cached per-instance CFG facts"""

    def __init__(self, inst):
        b = inst['body']
        self.inst = inst
        self.blocks = b['blocks']
        self.locals = b['locals']
        self.args = b['args']
        self.spread = b.get('spread')
        self.names = {int(k): v for k, v in b['names'].items()}
        n = len(self.blocks)
        self.succ = [self._succ(bb['t']) for bb in self.blocks]
        self._order(n)
        self._live(n)
        self.loops_of = {v: sorted([h for h in self.heads if v in self.loop[h]], key=lambda h: (-len(self.loop[h]), self.rpo[h])) for v in self.preds}
        self._asg = {}

    def bits(self, mir, l):
        b = mir.bits(self.locals[l])
        return b and b[0] > 1

    def assigned(self, h):
        r = self._asg.get(h)
        if r is None:
            r = set()
            for v in self.loop[h]:
                bb = self.blocks[v]
                for st in bb['s']:
                    if st[0] == '=' and '*' not in st[1][1]:
                        r.add(st[1][0])
                    if st[0] == '=' and st[2][0] == 'ref' and st[2][1] and '*' not in st[2][2][1]:
                        r.add(st[2][2][0])
                if bb['t'][0] == 'call' and '*' not in bb['t'][4][1]:
                    r.add(bb['t'][4][0])
            self._asg[h] = r
        return r

    def _succ(self, t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return list(dict.fromkeys([x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])))
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[5]] if t[5] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    def _order(self, n):
        # reachable
        seen, st, post = set(), [(0, iter(self.succ[0]))], []
        onst = {0}
        seen.add(0)
        back = set()
        while st:
            v, it = st[-1]
            for w in it:
                if w in onst:
                    back.add((v, w))
                if w not in seen:
                    seen.add(w)
                    onst.add(w)
                    st.append((w, iter(self.succ[w])))
                    break
            else:
                st.pop()
                onst.discard(v)
                post.append(v)
        self.heads = {w for _, w in back}
        self.back = back
        preds = {v: [] for v in seen}
        for v in seen:
            for w in self.succ[v]:
                preds[w].append(v)
        self.preds = preds
        # natural loops
        self.loop = {}
        for h in self.heads:
            body = {h}
            wl = [v for v, w in back if w == h]
            while wl:
                v = wl.pop()
                if v not in body:
                    body.add(v)
                    wl += preds[v]
            self.loop[h] = body
        depth = {v: sum(1 for h in self.heads if v in self.loop[h]) for v in seen}
        self.depth = depth
        # DFS with loop exits first => exits get later RPO numbers
        seen2, post = set(), []

        def dfs(v):
            stack = [(v, None)]
            seen2.add(v)
            its = {}

            def order(u):
                ss = [w for w in self.succ[u]]
                inner = [h for h in self.heads if u in self.loop[h]]
                return sorted(ss, key=lambda w: sum(1 for h in inner if w in self.loop[h]))
            stack = [(v, iter(order(v)))]
            while stack:
                u, it = stack[-1]
                for w in it:
                    if w not in seen2:
                        seen2.add(w)
                        stack.append((w, iter(order(w))))
                        break
                else:
                    stack.pop()
                    post.append(u)
        dfs(0)
        self.rpo = {v: i for i, v in enumerate(reversed(post))}

    def _live(self, n):
        use, df = {}, {}
        self.addr = set()

        def pl(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def op(o, u, d):
            if o and o[0] in ('c', 'm'):
                pl(o[1], u, d)
        for v in self.preds:
            u, d = set(), set()
            bb = self.blocks[v]
            for s in bb['s']:
                if s[0] == '=':
                    r = s[2]
                    k = r[0]
                    if k in ('use',):
                        op(r[1], u, d)
                    elif k == 'ref':
                        pl(r[2], u, d)
                        if '*' not in r[2][1]:
                            self.addr.add(r[2][0])
                    elif k in ('rawptr', 'addr'):
                        for x in r[1:]:
                            if isinstance(x, list) and x and isinstance(x[0], int):
                                pl(x, u, d)
                                self.addr.add(x[0])
                    elif k in ('bin', 'cbin'):
                        op(r[2], u, d), op(r[3], u, d)
                    elif k in ('un', 'cast'):
                        op(r[2], u, d)
                    elif k in ('discr', 'len'):
                        pl(r[1], u, d)
                    elif k == 'rep':
                        op(r[1], u, d)
                    elif k == 'agg':
                        for x in r[2]:
                            op(x, u, d)
                    if s[1][1]:
                        pl(s[1], u, d)
                    else:
                        d.add(s[1][0])
                elif s[0] == 'sd':
                    pl(s[1], u, d)
            t = bb['t']
            if t[0] == 'switch':
                op(t[1], u, d)
            elif t[0] == 'assert':
                op(t[1], u, d)
                for x in t[3]:
                    if isinstance(x, list):
                        op(x, u, d)
            elif t[0] == 'call':
                op(t[2], u, d)
                for x in t[3]:
                    op(x, u, d)
                if t[4][1]:
                    pl(t[4], u, d)
                else:
                    d.add(t[4][0])
            elif t[0] == 'ret':
                u.add(0)
            use[v], df[v] = u, d
        live = {v: set() for v in self.preds}
        ch = True
        order = sorted(self.preds, key=lambda v: -self.rpo[v])
        while ch:
            ch = False
            for v in order:
                out = set()
                for w in self.succ[v]:
                    out |= live[w]
                new = use[v] | (out - df[v])
                if new != live[v]:
                    live[v] = new
                    ch = True
        self.live = live


class Site:
    __slots__ = ('key', 'kind', 'span', 'n', 'fails', 'fn')

    def __init__(self, key, fn, kind, span):
        self.key, self.fn, self.kind, self.span = key, fn, kind, span
        self.n = 0
        self.fails = []


class Frame:
    __slots__ = ('id', 'parent', 'inst', 'body', 'blk', 'depth')

    def __init__(self, id, parent, inst, body, blk):
        self.id, self.parent, self.inst, self.body, self.blk = id, parent, inst, body, blk
        self.depth = parent.depth + 1 if parent else 0

    def chain(self):
        f, out = self, []
        while f:
            out.append(f)
            f = f.parent
        return out


class AI:
    def __init__(self, mir, merge=True, cap=24, retcap=24, unroll=10, maxdepth=48, budget=600):
        import models
        self.mir = mir
        self.merge, self.cap, self.retcap, self.unroll = merge, cap, retcap, unroll
        self.maxdepth = maxdepth
        self.frames = {}
        self.frinfo = {}
        self.bodies = {}
        self.sites = {}
        self.models = models.resolve
        self.mcache = {}
        self.events = []          # callbacks (name, fn)
        self.hooks = {}           # inst id -> fn(ai, st, frame, args, blk) -> None | list[(st,val)]
        self.unknown = {}         # unmodelled externals reached
        self.analysed = {}        # inst id -> number of analyses
        self.steps = 0
        self.t0 = time.time()
        self.budget = budget
        self.quiet = 0
        self.keep = None          # fn(head state) -> terms whose relation to later values is kept round the loop
        self.on_back = None       # fn(ai, frame, head, headstate, backstates)
        self.on_loop = None
        self.on_write = None
        self.on_panic = None
        self.opaque = lambda inst: False
        self.loops = {}
        self.wildphi = set()
        self.lazy = {}
        self.use_cache = True
        self.cached = 0
        self.constkey = lambda inst: False
        self.lazy_cells = {}
        self.lazy_sites = False
        self.ncell = 0
        self.forced = 0
        self.unroll_buf = False
        self.unroll_all = False
        self.exact_buf = False
        self.coarse = [255, 65535, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1]
        self.thresholds = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 32, 64, 100, 125, 126, 127, 128, 255, 256, 599, 600, 999, 1000,
                           16383, 16384, 65535, 65536, (1 << 24) - 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 40,
                           (1 << 62), (1 << 63) - 1, (1 << 64) - 1, 1 << 70]

    # ------------------------------------------------------------ infrastructure
    def body(self, inst):
        b = self.bodies.get(inst['id'])
        if b is None:
            b = self.bodies[inst['id']] = Body(inst)
        return b

    def frame(self, parent, blk, inst):
        key = (parent.id if parent else 0, blk, inst['id'])
        fid = self.frames.setdefault(key, len(self.frames) + 1)
        self.frinfo[fid] = (key[0], blk)
        return Frame(fid, parent, inst, self.body(inst), blk)

    def fresh(self, st, fr, blk, tag, ty=None, count=False):
        r = var((('count',) if count else ()) + (fr.id, blk, tag), ty)
        self.forget(st, r)
        return self.sym(r, ty)

    def local_fn(self, fr):
        f = fr
        while f and not f.inst['local']:
            f = f.parent
        return f or fr

    def site(self, fr, kind, ok, st, detail='', span=None):
        """a potential panic; ok = proven safe here"""
        f = self.local_fn(fr)
        if span is None or f is not fr:
            # position inside the local function
            g = fr
            blk = self.curblk
            while g is not f:
                blk = g.blk
                g = g.parent
            span = f.body.blocks[blkno(blk)]['sp']
        s = self.mir.span(span) if span is not None else '?'
        key = (f.inst['path'], kind, s)
        x = self.sites.get(key)
        if x is None:
            x = self.sites[key] = Site(key, f.inst, kind, s)
        x.n += 1
        if not ok:
            chain = [g.inst['path'] for g in reversed(fr.chain())]
            if len(x.fails) < 5:
                x.fails.append((detail, chain))
            if self.on_panic:
                self.on_panic(self, st, fr, kind, detail)

    def snap_sites(self):
        return {k: (x.n, len(x.fails)) for k, x in self.sites.items()}

    def restore_sites(self, snap):
        for k in list(self.sites):
            if k not in snap:
                del self.sites[k]
            else:
                x = self.sites[k]
                x.n, nf = snap[k]
                del x.fails[nf:]

    def event(self, kind, *a):
        for k, f in self.events:
            if k == kind:
                f(self, *a)

    # ------------------------------------------------------------ memory
    def base_value(self, st, base):
        v = st.s.get(base)
        if v is not None:
            return v
        k = base[0] if isinstance(base, tuple) else None
        m = self.mir
        if k == 'd':
            t = base[1]
            to = m.to(t.ty) if t.ty is not None else None
            return self.sym(mk('dref', (t,), to), to)
        if k == 'alloc':
            v = m.alloc_value(base[1], base[2], base[3])
            if v is None:
                v = var(('allocv',) + base[1:], base[3])
            st.s[base] = v
            return v
        if k == 'el':
            return self.elem(st, base[1], base[2], base[3])
        if k == 'arc':
            return self.sym(mk('dref', (base[1],), base[2]), base[2])
        if k == 'lz':
            return self.lazy[base[1]]
        if base in self.lazy_cells:
            return self.lazy_cells[base]
        if k == 'zst':
            return m.zst(base[1])
        return var(('undef', base), None)

    def sym(self, t, ty):
        """normalise a fresh symbolic value of type ty"""
        if ty is None:
            return t
        m = self.mir
        k = m.tk(ty)
        if k == 'tuple' and not m.types[ty]['elems']:
            return UNIT
        return t

    def seqlike(self, ty):
        """(element type) if ty is an owned byte/element sequence we model as Vec"""
        p = self.mir.path(ty)
        if p in ('std::vec::Vec', 'std::collections::VecDeque'):
            a = self.mir.types[ty]['args']
            return (a[0] if a else None,)
        if p in ('std::string::String', 'algorithm::buf::BinaryMut', 'algorithm::buf::Binary', 'algorithm::buf::BinaryRef'):
            return (self.mir.u8,)
        return None

    def as_vec(self, v, ty=None):
        if isinstance(v, Vec):
            return v
        if isinstance(v, T):
            e = self.seqlike(v.ty) if v.ty is not None else None
            return Vec(v, ZERO, mk('len', (v,)), (), e[0] if e else self.mir.u8)
        return None

    def as_slice(self, st, v, ety=None):
        """view a value of slice-reference type as SRef"""
        if isinstance(v, SRef):
            return v
        if isinstance(v, T):
            m = self.mir
            to = m.to(v.ty) if v.ty is not None else None
            if to is not None:
                if m.tk(to) == 'str':
                    ety = m.u8
                elif m.tk(to) == 'slice':
                    ety = m.types[to].get('elem', ety)
                elif m.tk(to) == 'array':
                    n = m.types[to]['len']
                    return SRef(mk('dref', (v,), to), ZERO, K(n), None, m.types[to]['elem'])
            c = mk('cont', (v,))
            return SRef(c, ZERO, mk('len', (c,)), None, ety or m.u8)
        if isinstance(v, Ref):
            x = self.read(st, v.base, v.path)
            if isinstance(x, Vec):
                import models
                return SRef(x.c, x.p, x.n, (v.base, v.path), x.ety, models.logsrc(x))
            if isinstance(x, T) and x.op == 'bytes':
                return SRef(x, ZERO, K(len(x.args[0])), None, self.mir.u8)
            if isinstance(x, T) and x.op == 'carr':
                return SRef(x, ZERO, K(len(x.args[0])), None, ety)
            if isinstance(x, Agg):
                return SRef(x, ZERO, K(len(x.f)), (v.base, v.path), ety)
            if isinstance(x, (SRef,)):
                return x
            if isinstance(x, T):
                if x.ty is not None:
                    if self.mir.tk(x.ty) == 'array':
                        t = self.mir.types[x.ty]
                        return SRef(x, ZERO, K(t['len']), (v.base, v.path), t['elem'])
                    if self.seqlike(x.ty):
                        w = self.as_vec(x)
                        return SRef(w.c, w.p, w.n, (v.base, v.path), w.ety)
                    if self.mir.tk(x.ty) == 'ref':
                        return self.as_slice(st, x, ety)
        return None

    def record_of(self, rows, i):
        """element i of a table of records of constants: a record of table look-ups"""
        a = rows[0] if rows else None
        if not isinstance(a, Agg) or not a.f or not all(isinstance(x, Agg) and x.ty == a.ty and x.var == a.var and len(x.f) == len(a.f) for x in rows):
            return None
        if not all(isinstance(y, T) and isk(y) for x in rows for y in x.f):
            return None
        return Agg(a.ty, a.var, [mk('tbl', (mk('carr', (tuple(x.f[j].args[0] for x in rows),)), i)) for j in range(len(a.f))])

    def elem(self, st, c, i, ety=None):
        if isinstance(c, Agg):
            if i.op == 'k':
                n = i.args[0]
                return c.f[n] if 0 <= n < len(c.f) else var(('oob', c.ty), ety)
            dd = st.dom(i)
            vals = c.f
            if dd and D.size(dd) <= 300:
                vals = [c.f[j] for j in D.it(dd) if 0 <= j < len(c.f)]
            if vals and all(isk(x) for x in c.f):
                return mk('tbl', (mk('carr', (tuple(x.args[0] for x in c.f),)), i))
            if vals and all(x == vals[0] for x in vals):
                return vals[0]
            r = self.record_of(c.f, i)
            if r is not None:
                return r
            t = mk('uf', ('aelem', mk('v', (('agg', hash(c)),)), i), ety)
            if vals and all(isinstance(x, T) and x.op not in ('bytes', 'carr') for x in vals):
                dj = ()
                for x in vals:
                    dj = D.union(dj, st.dom(x))
                if dj != D.TOP:
                    st.refine(t, dj)
            return t
        if isinstance(c, T):
            if c.op in ('bytes', 'carr'):
                a = c.args[0]
                if i.op == 'k':
                    n = i.args[0]
                    return K(a[n]) if 0 <= n < len(a) else var(('oob', c.id), ety)
                return mk('tbl', (mk('carr', (tuple(a),)), i))
            if c.op == 'sub':
                return self.elem(st, c.args[0], add(c.args[1], i), ety)
            if c.op == 'cat':      # original content extended at index args[1] with logged scalar items
                b0 = c.args[1]
                if st.ge(sub(b0, addk(i, 1))):
                    return self.elem(st, c.args[0], i, ety)
        return mk('elem', (c, i), self.mir.u8 if ety is None else ety)

    def proj(self, v, e, ty):
        """read sub-value"""
        if e[0] == 'f':
            _, vr, ix = e
            if isinstance(v, Agg):
                if (vr is None or v.var == vr or v.var is None) and ix < len(v.f):
                    return v.f[ix]
                return var(('badproj', v.ty, v.var, vr, ix), ty)
            if isinstance(v, T):
                return self.sym(mk('fld', (v, vr or 0, ix), ty), ty)
            if isinstance(v, (Ref, Fn)):
                return v
            if isinstance(v, Vec):
                return var(('vecfld', v.c.id if isinstance(v.c, T) else 0, ix), ty)
            return var(('proj', ix), ty)
        raise AssertionError(e)

    def read(self, st, base, path, ty=None):
        v = self.base_value(st, base)
        for e in path:
            if e[0] == 'i':
                if isinstance(v, Vec):
                    v = v.c
                v = self.elem(st, v, e[1], e[2])
            else:
                v = self.proj(v, e[:3], e[3])
        return v

    def write(self, st, base, path, val):
        if isinstance(base, tuple) and base[0] == 'el' and len(base) > 4 and base[4] is not None:
            if path:
                val = self._set(st, self.base_value(st, base), list(path), val)
            if not self._poke(st, base, val):
                self.havoc_content(st, base[4])
            st.s[base] = val
            return
        if not path:
            st.s[base] = val
            return
        v = self.base_value(st, base)
        if isinstance(v, T) and v.ty is None and base not in st.s and self.cur is not None and base[0] == self.cur.id \
                and len(base) == 2 and isinstance(base[1], int) and base[1] < len(self.cur.body.locals):
            v = var(('undef', base), self.cur.body.locals[base[1]])
        st.s[base] = self._set(st, v, list(path), val)

    def _poke(self, st, base, val):
        """update one element, at a known index, of a sequence whose content is known element by element"""
        i, loc = base[2], base[4]
        if not isk(i):
            return False
        v = self.read(st, loc[0], loc[1])
        if not (isinstance(v, Vec) and isinstance(v.c, Agg) and 0 <= i.args[0] < len(v.c.f)):
            return False
        if v.c != base[1]:
            # the same reference may have written before: only its own element differs
            o, n = base[1], i.args[0]
            if not (isinstance(o, Agg) and len(o.f) == len(v.c.f) and base in st.s and v.c.f[n] == st.s[base]
                    and all(a is b or a == b for j, (a, b) in enumerate(zip(o.f, v.c.f)) if j != n)):
                return False
        f = list(v.c.f)
        f[i.args[0]] = val
        c = Agg(v.c.ty, v.c.var, f)
        for k in [k for k in st.s if isinstance(k, tuple) and len(k) > 4 and k[0] == 'el' and k[1] == c and k[4] == loc]:
            del st.s[k]
        self.write(st, loc[0], loc[1], Vec(c, v.p, v.n, v.log + (('*',),), v.ety))
        return True

    def havoc_content(self, st, loc):
        b, p = loc
        v = self.read(st, b, p)
        if isinstance(v, Vec):
            c = var(('hv', self._loc_id(loc), self.nonce(st)), None)
            self.write(st, b, p, Vec(c, v.p, v.n, v.log + (('*',),), v.ety))
        elif isinstance(v, (T, Agg)):
            ty = v.ty if not isinstance(v, Agg) else v.ty
            self.write(st, b, p, var(('hv', self._loc_id(loc), self.nonce(st)), ty if isinstance(ty, int) else None))

    def nonce(self, st):
        n = st.g.get('#n', 0) + 1
        st.g['#n'] = n
        return ('n', self.cur.id, self.curblk, n) if n < 40 else ('n', self.cur.id, self.curblk)

    def _loc_id(self, loc):
        return repr(loc)

    def _set(self, st, v, path, val):
        e = path[0]
        if e[0] == 'i':
            i = e[1]
            if isinstance(v, Agg) and i.op == 'k' and 0 <= i.args[0] < len(v.f):
                f = list(v.f)
                n = i.args[0]
                f[n] = val if len(path) == 1 else self._set(st, f[n], path[1:], val)
                return Agg(v.ty, v.var, f)
            if isinstance(v, T) and v.op in ('bytes', 'carr') and i.op == 'k' and len(path) == 1 and 0 <= i.args[0] < len(v.args[0]):
                f = [K(x) for x in v.args[0]]
                f[i.args[0]] = val
                if len(f) <= 64:
                    return Agg(None, 0, f)
            ty = v.ty if isinstance(v, (T, Agg)) else None
            return var(('arr', self.cur.id, self.curblk), ty if isinstance(ty, int) else None)
        _, vr, ix, ty = e
        if isinstance(v, Agg) and ix < len(v.f) and (vr is None or v.var == vr):
            f = list(v.f)
            f[ix] = val if len(path) == 1 else self._set(st, f[ix], path[1:], val)
            return Agg(v.ty, v.var, f)
        if isinstance(v, T):
            fs = self.mir.fields(v.ty, vr or 0) if v.ty is not None else None
            if fs and ix < len(fs):
                f = [self.sym(mk('fld', (v, vr or 0, k), t), t) for k, (_, t) in enumerate(fs)]
                f[ix] = val if len(path) == 1 else self._set(st, f[ix], path[1:], val)
                return Agg(v.ty, vr or 0, f)
        if isinstance(v, Ref) and len(path) > 1:
            return self._set(st, v, path[1:], val)
        if isinstance(v, Agg) and vr is not None and v.var != vr:
            fs = self.mir.fields(v.ty, vr) if isinstance(v.ty, int) else None
            if fs:
                f = [var(('uninit', k), t) for k, (_, t) in enumerate(fs)]
                f[ix] = val if len(path) == 1 else self._set(st, f[ix], path[1:], val)
                return Agg(v.ty, vr, f)
        return var(('setunk', self.cur.id, self.curblk), None)

    # ------------------------------------------------------------ places & operands
    def lv(self, st, fr, place):
        """-> ('m', base, path, ty) or ('s', SRef, ty)"""
        m = self.mir
        loc, pr = place
        ty = fr.body.locals[loc]
        kind, base, path, s = 'm', (fr.id, loc), (), None
        vr = None
        for e in pr:
            if e == '*':
                v = self.read(st, base, path)
                to = m.to(ty) if m.tk(ty) in ('ref', 'ptr') else None
                if isinstance(v, Agg) and len(v.f) == 1 and not isinstance(v.ty, int) is None:
                    v0 = v
                    while isinstance(v0, Agg) and len(v0.f) >= 1 and not isinstance(v0, (Ref, SRef)):
                        v0 = v0.f[0]
                    if isinstance(v0, (Ref, SRef)):
                        v = v0
                if isinstance(v, Ref):
                    tt = m.tk(to) if to is not None else None
                    if tt in ('slice', 'str'):
                        s = self.as_slice(st, v)
                        if s is not None:
                            kind, ty = 's', to
                            continue
                    kind, base, path = 'm', v.base, v.path
                elif isinstance(v, SRef):
                    kind, s = 's', v
                elif isinstance(v, T):
                    tt = m.tk(to) if to is not None else None
                    if tt in ('slice', 'str'):
                        kind, s = 's', self.as_slice(st, v)
                    else:
                        if v.ty is None or m.tk(v.ty) not in ('ref', 'ptr'):
                            v = mk('uf', ('asptr', v), ty)
                        kind, base, path = 'm', ('d', v), ()
                else:
                    kind, base, path = 'm', ('d', var(('derefunk', fr.id, loc), ty)), ()
                if to is not None:
                    ty = to
                continue
            k = e[0]
            if k == 'v':
                vr = e[1]
                continue
            if k == 'f':
                ety = e[2]
                path = path + (('f', vr, e[1], ety),)
                vr = None
                ty = ety
            elif k in ('i', 'c'):
                if k == 'i':
                    i = self.read(st, (fr.id, e[1]), ())
                else:
                    if e[3]:
                        if kind == 's':
                            i = sub(s.len, K(e[1]))
                        else:
                            i = K(m.types[ty]['len'] - e[1])
                    else:
                        i = K(e[1])
                if not isinstance(i, T):
                    i = var(('badidx', fr.id), m.usize)
                ety = m.types[ty].get('elem')
                if kind == 's':
                    base, path, kind = ('el', s.c, add(s.s, i), s.ety or ety, s.loc), (), 'm'
                    if s.loc is not None:
                        cur = self.read(st, *s.loc)
                        if isinstance(cur, Vec):
                            cur = cur.c
                        if isinstance(cur, Agg) or (isinstance(cur, T) and cur is not s.c):
                            # live array in memory: address it in place
                            if not isinstance(self.read(st, *s.loc), Vec):
                                base, path = s.loc[0], tuple(s.loc[1]) + (('i', add(s.s, i), ety),)
                            else:
                                base = ('el', cur, add(s.s, i), s.ety or ety, s.loc)
                else:
                    path = path + (('i', i, ety),)
                ty = ety
            elif k == 's':
                if kind == 's':
                    a = add(s.s, K(e[1]))
                    b = sub(s.e, K(e[2])) if e[3] else add(s.s, K(e[2]))
                    s = SRef(s.c, a, b, s.loc, s.ety)
            elif k == 'o':
                ty = e[1]
        if kind == 's':
            return ('s', s, ty)
        return ('m', base, path, ty)

    def place_ty(self, fr, place):
        m = self.mir
        ty = fr.body.locals[place[0]]
        for e in place[1]:
            if e == '*':
                to = m.to(ty)
                ty = to if to is not None else ty
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'c'):
                ty = m.types[ty].get('elem')
            elif e[0] == 'o':
                ty = e[1]
        return ty

    def load(self, st, fr, place):
        l = self.lv(st, fr, place)
        if l[0] == 's':
            return l[1]
        v = self.read(st, l[1], l[2])
        return v

    def store(self, st, fr, place, val):
        if not place[1]:
            st.s[(fr.id, place[0])] = val
            return
        l = self.lv(st, fr, place)
        if l[0] == 'm':
            self.write(st, l[1], l[2], val)
            if self.on_write:
                self.on_write(self, st, fr, l[1], l[2], val)

    def op(self, st, fr, o):
        k = o[0]
        if k in ('c', 'm'):
            return self.load(st, fr, o[1])
        if k == 'k':
            return self.mir.const(o[1])
        return var(('rtcheck',), self.mir.boolt)

    def op_ty(self, fr, o):
        if o[0] in ('c', 'm'):
            return self.place_ty(fr, o[1])
        if o[0] == 'k':
            return o[1]['ty']
        return None

    # ------------------------------------------------------------ arithmetic
    def int_(self, v, fr, ty=None):
        if isinstance(v, T) and v.op not in ('bytes', 'carr'):
            return v
        if isinstance(v, Agg) and len(v.f) == 1:
            return self.int_(v.f[0], fr, ty)
        return var(('nonint', fr.id, self.curblk, repr(type(v))), ty)

    def known(self, st, t):
        """the constant a leaf is restricted to, if it is one"""
        d = st.d.get(t) if isinstance(t, T) else None
        if d is not None and len(d) == 1 and d[0][0] == d[0][1]:
            return K(d[0][0])
        return t

    def fit(self, st, t, ty):
        """mathematical value t stored into integer type ty (wrapping if not provably in range)"""
        b = self.mir.bits(ty)
        if b is None:
            return t
        r = self.mir.trange(ty)[0] if b[0] != 21 else (0, 0x10ffff)
        d = st.dom(t)
        if d and d[0][0] >= r[0] and d[-1][1] <= r[1]:
            return t
        if st.ge(t, r[0]) and st.ge(neg(t), -r[1]):
            return t
        if not b[1]:
            x = self.bitand(st, t, mask(b[0]))
            if x is not None:
                return x
        return mk('wrap', (t, b[0], b[1]))

    def fieldsof(self, st, t):
        """decompose into bit-disjoint (shift, width, term) pieces, or None"""
        c, ps = lin_parts(t)
        out = []
        if c:
            if c < 0:
                return None
            # constant bits
            i = 0
            cc = c
            while cc:
                if cc & 1:
                    j = i
                    w = 0
                    while cc & 1:
                        cc >>= 1
                        w += 1
                    out.append((j, w, K(mask(w))))
                    i = j + w
                else:
                    cc >>= 1
                    i += 1
        for a, k in ps.items():
            if k <= 0 or k & (k - 1):
                return None
            d = st.dom(a)
            if not d or d[0][0] < 0 or d[-1][1] >= 1 << 70:
                return None
            w = d[-1][1].bit_length()
            if w:
                out.append((k.bit_length() - 1, w, a))
        out.sort(key=lambda x: x[0])
        for x, y in zip(out, out[1:]):
            if x[0] + x[1] > y[0]:
                return None
        return out

    def bitand(self, st, t, mk_):
        fs = self.fieldsof(st, t)
        if fs is None:
            return None
        r = ZERO
        for sh, w, a in fs:
            mm = (mk_ >> sh) & mask(w)
            if mm == 0:
                continue
            if mm == mask(w):
                p = a
            elif a.op == 'k':
                p = K(a.args[0] & mm)
            else:
                p = self._and1(a, mm)
            r = add(r, scale(p, 1 << sh))
        return r

    def _and1(self, a, mm):
        if a.op == 'and' and isk(a.args[1]):
            return mk('and', (a.args[0], K(a.args[1].args[0] & mm))) if a.args[1].args[0] & mm else ZERO
        return mk('and', (a, K(mm)))

    def shr(self, st, t, n):
        fs = self.fieldsof(st, t)
        if fs is None:
            return None
        r = ZERO
        for sh, w, a in fs:
            if sh + w <= n:
                continue
            if sh >= n:
                r = add(r, scale(a, 1 << (sh - n)))
            else:
                k = n - sh
                if a.op == 'k':
                    p = K(a.args[0] >> k)
                elif a.op == 'and' and isk(a.args[1]) and (a.args[1].args[0] & mask(k)):
                    p = mk('shr', (self._and1(a, a.args[1].args[0] & ~mask(k)), K(k)))
                else:
                    p = mk('shr', (a, K(k)))
                r = add(r, p)
        return r

    def binop(self, st, fr, op, a, b, ty):
        """returns term (mathematical / boolean)"""
        o = op
        if o in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, (Ref, SRef, Fn, Agg, Vec)) or isinstance(b, (Ref, SRef, Fn, Agg, Vec)):
                if a == b and o in ('Eq', 'Ne'):
                    return K(1 if o == 'Eq' else 0)
                return var(('ptrcmp', fr.id, self.curblk, o), self.mir.boolt)
            if o == 'Eq':
                return eq(a, b)
            if o == 'Ne':
                return not_(eq(a, b))
            if o == 'Lt':
                return lt(a, b)
            if o == 'Le':
                return le(a, b)
            if o == 'Gt':
                return lt(b, a)
            return le(b, a)
        a, b = self.int_(a, fr, ty), self.int_(b, fr, ty)
        a, b = self.known(st, a), self.known(st, b)
        if o in ('Add', 'AddUnchecked'):
            return add(a, b)
        if o in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if o in ('Mul', 'MulUnchecked'):
            if isk(a):
                return scale(b, a.args[0])
            if isk(b):
                return scale(a, b.args[0])
            if a.id > b.id:
                a, b = b, a
            t = mk('mul', (a, b))
            return t
        if o == 'Offset':
            return add(a, b)
        if isk(a) and isk(b):
            r = ceval(mk({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'Shl': 'shl', 'Shr': 'shr', 'ShlUnchecked': 'shl',
                          'ShrUnchecked': 'shr', 'Div': 'div', 'Rem': 'rem'}.get(o, 'nop'), (a, b)), {})
            if r is not None:
                return K(r)
        isb = self.mir.tk(ty) == 'bool'
        if o == 'BitAnd':
            if isk(a):
                a, b = b, a
            if isk(b):
                n = b.args[0]
                if isb:
                    return a if n else ZERO
                if n == 0:
                    return ZERO
                if n > 0:
                    x = self.bitand(st, a, n)
                    if x is not None:
                        return x
                return mk('and', (a, b))
            if a is b:
                return a
            if a.id > b.id:
                a, b = b, a
            return mk('and', (a, b))
        if o in ('BitOr', 'BitXor'):
            if isk(a):
                a, b = b, a
            if isk(b) and b.args[0] == 0:
                return a
            if isb and isk(b):
                if o == 'BitOr':
                    return ONE
                return not_(a)
            if not isb:
                # disjoint bits => addition
                fs = self.fieldsof(st, add(a, b)) if not (isk(b) and not lin_parts(a)[1]) else None
                fa, fb = self.fieldsof(st, a), self.fieldsof(st, b)
                if fa is not None and fb is not None:
                    used = 0
                    ok = True
                    for sh, w, _ in fa + fb:
                        mm = mask(w) << sh
                        if used & mm:
                            ok = False
                        used |= mm
                    if ok:
                        return add(a, b)
            if a is b:
                return a if o == 'BitOr' else ZERO
            if a.id > b.id and not isk(b):
                a, b = b, a
            return mk('or' if o == 'BitOr' else 'xor', (a, b))
        if o in ('Shl', 'ShlUnchecked'):
            if isk(b) and 0 <= b.args[0] < 128:
                bt = self.mir.bits(ty)
                x = scale(a, 1 << b.args[0])
                if bt and not bt[1]:
                    y = self.bitand(st, x, mask(bt[0]))
                    if y is not None:
                        return y
                return x
            if isk(a) and a.args[0] == 0:
                return ZERO
            return mk('shl', (a, b))
        if o in ('Shr', 'ShrUnchecked'):
            if isk(b) and 0 <= b.args[0] < 128:
                if b.args[0] == 0:
                    return a
                x = self.shr(st, a, b.args[0])
                if x is not None:
                    return x
            return mk('shr', (a, b))
        if o == 'Div':
            if isk(b) and b.args[0] == 1:
                return a
            if isk(b) and b.args[0] > 0 and b.args[0] & (b.args[0] - 1) == 0:
                x = self.shr(st, a, b.args[0].bit_length() - 1)
                if x is not None:
                    return x
            d = mk('div', (a, b))
            if isk(b) and b.args[0] > 0 and st.ge(a):
                st.addlin(sub(a, scale(d, b.args[0])))
                st.addlin(addk(sub(scale(d, b.args[0]), a), b.args[0] - 1))
            return d
        if o == 'Rem':
            if isk(b) and b.args[0] > 0 and b.args[0] & (b.args[0] - 1) == 0:
                x = self.bitand(st, a, b.args[0] - 1)
                if x is not None:
                    return x
            if isk(b) and b.args[0] > 0:
                d = st.dom(a)
                if d and d[0][0] >= 0 and d[-1][1] < b.args[0]:
                    return a
            return mk('rem', (a, b))
        return var(('binop', fr.id, self.curblk, o), ty)

    def rvalue(self, st, fr, rv, dty):
        m = self.mir
        k = rv[0]
        if k == 'use':
            return self.op(st, fr, rv[1])
        if k == 'ref':
            l = self.lv(st, fr, rv[2])
            if l[0] == 's':
                return l[1]
            # reborrow of a symbolic reference: keep the term
            if not l[2] and isinstance(l[1], tuple) and l[1][0] == 'd' and l[1] not in st.s:
                return Ref(l[1], ())
            return Ref(l[1], l[2])
        if k in ('bin', 'cbin'):
            op, a, b = rv[1], rv[2], rv[3]
            ty = self.op_ty(fr, a)
            x, y = self.op(st, fr, a), self.op(st, fr, b)
            if op == 'Cmp':
                x, y = self.int_(x, fr, ty), self.int_(y, fr, ty)
                d = D.of([-1, 0, 1])
                if st.val(lt(x, y)) == 1:
                    v = 0
                elif st.val(eq(x, y)) == 1:
                    v = 1
                elif st.val(lt(y, x)) == 1:
                    v = 2
                else:
                    return mk('uf', ('cmp', x, y), dty)
                return Agg(dty, v, ())
            r = self.binop(st, fr, op, x, y, ty)
            if k == 'cbin':
                rt = m.trange(ty)
                return Agg(dty, 0, [r, mk('ovf', (r, rt[0][0], rt[0][1]), m.boolt)])
            if op in ('Add', 'Sub', 'Mul', 'Shl', 'BitXor', 'BitOr', 'BitAnd') and m.bits(ty):
                r = self.fit(st, r, ty)
            elif op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
                pass
            return r
        if k == 'un':
            op = rv[1]
            x = self.op(st, fr, rv[2])
            ty = self.op_ty(fr, rv[2])
            if op == 'Not':
                x = self.int_(x, fr, ty)
                if m.tk(ty) == 'bool':
                    return not_(x)
                b = m.bits(ty)
                if b and not b[1]:
                    return sub(K(mask(b[0])), x)
                return addk(neg(x), -1)
            if op == 'Neg':
                return neg(self.int_(x, fr, ty))
            if op == 'PtrMetadata':
                if isinstance(x, (SRef, Ref, T)):
                    s = self.as_slice(st, x)
                    if s is not None:
                        return s.len
                return var(('ptrmeta', fr.id, self.curblk), m.usize)
        if k == 'cast':
            kind = rv[1]
            x = self.op(st, fr, rv[2])
            if kind == 'IntToInt':
                return self.fit(st, self.int_(x, fr, self.op_ty(fr, rv[2])), rv[3])
            if 'Unsize' in kind:
                if isinstance(x, Ref) and m.tk(rv[3]) in ('ref', 'ptr') and m.tk(m.to(rv[3])) in ('slice',):
                    ety = m.types[m.to(rv[3])].get('elem')
                    s = self.as_slice(st, x, ety)
                    if s is not None:
                        if not m.types[rv[3]].get('mut'):
                            s = SRef(s.c, s.s, s.e, None, s.ety or ety)
                        return s
                if isinstance(x, T) and m.tk(rv[3]) in ('ref', 'ptr') and m.tk(m.to(rv[3])) == 'slice':
                    s = self.as_slice(st, x)
                    if s is not None:
                        return s
                return x
            if 'Reify' in kind or 'Closure' in kind:
                return x
            if kind == 'Transmute':
                tt = m.tk(rv[3])
                if isinstance(x, T) and x.op not in ('bytes', 'carr'):
                    if m.bits(rv[3]) and m.bits(self.op_ty(fr, rv[2]) or -1):
                        return self.fit(st, x, rv[3])
                    if x.ty == rv[3] or tt in ('ref', 'ptr') and x.ty is not None and m.tk(x.ty) in ('ref', 'ptr'):
                        return x
                if isinstance(x, (SRef, Ref)):
                    return x
                if isinstance(x, Agg) and len(x.f) == 1 and isinstance(x.f[0], (Ref, SRef)):
                    return x.f[0]
                if m.bits(rv[3]) and isinstance(x, Agg) and len(x.f) == 1 and isinstance(x.f[0], T):
                    return x.f[0]
                if isinstance(x, T):
                    return self.sym(mk('uf', ('transmute', x), rv[3]), rv[3])
                return var(('transmute', fr.id, self.curblk), rv[3])
            if isinstance(x, (Ref, SRef)):
                return x
            if isinstance(x, T):
                if m.tk(rv[3]) in ('ref', 'ptr') and x.ty is not None:
                    return x if x.ty == rv[3] else mk('uf', ('pcast', x), rv[3])
            return var(('cast', fr.id, self.curblk, kind), rv[3])
        if k == 'discr':
            l = self.lv(st, fr, rv[1])
            v = self.read(st, l[1], l[2]) if l[0] == 'm' else l[1]
            if isinstance(v, Agg):
                return K(m.discr_of(l[-1] if m.variants(l[-1]) else v.ty, v.var or 0))
            if isinstance(v, T):
                if v.ty is None or not m.is_enum(v.ty):
                    v = mk('uf', ('retype', v), l[-1])
                return mk('discr', (v,))
            if isinstance(v, (Ref, SRef)):
                return ONE
            return var(('discr', fr.id, self.curblk), dty)
        if k == 'len':
            l = self.lv(st, fr, rv[1])
            if l[0] == 's':
                return l[1].len
            t = m.types.get(l[-1], {})
            return K(t.get('len') or 0)
        if k == 'rep':
            x = self.op(st, fr, rv[1])
            n = rv[2]
            if n <= 64:
                return Agg(dty, 0, [x] * n)
            return var(('rep', fr.id, self.curblk), dty)
        if k == 'agg':
            kd = rv[1]
            ops = [self.op(st, fr, o) for o in rv[2]]
            if kd[0] == 'tuple' or kd == 'tuple':
                return Agg(dty, 0, ops) if ops else UNIT
            if kd[0] == 'array':
                if ops and all(isk(o) for o in ops) and len(ops) > 64:
                    return mk('carr', (tuple(o.args[0] for o in ops),))
                return Agg(dty, 0, ops)
            if kd[0] == 'adt':
                return Agg(dty, kd[2], ops)
            if kd[0] == 'closure':
                return Agg(dty, 0, ops)
            return var(('agg', fr.id, self.curblk), dty)
        return var(('rv', fr.id, self.curblk, k), dty)

    # ------------------------------------------------------------ control
    def run(self, inst, args, st=None, parent=None, blk=0):
        """analyse inst with argument values; -> list of (state, return value)"""
        if st is None:
            st = St(self.mir)
        fr = self.frame(parent, blk, inst)
        self.analysed[inst['id']] = self.analysed.get(inst['id'], 0) + 1
        b = fr.body
        saved = (getattr(self, 'cur', None), getattr(self, 'curblk', None))
        for i, v in enumerate(args):
            st.s[(fr.id, i + 1)] = v
        outs = self._exec(fr, st)
        self.cur, self.curblk = saved
        res = []
        for s in outs:
            rv = s.s.get((fr.id, 0), UNIT)
            for k in [k for k in s.s if isinstance(k, tuple) and k[0] == fr.id]:
                del s.s[k]
            res.append((s, rv))
        return res

    def _exec(self, fr, st0):
        b = fr.body
        loops_of = b.loops_of
        ins = {}
        pend = {}
        rets = {}
        heads = {}
        rounds = {}
        modes = {}          # (head, outer ctx) -> 'w' | ['u', snapshot]
        bcache = {}
        ck = self.constkey(fr.inst)

        def ctx_for(w, src_ctx, src):
            """unroll context of block w when reached from node (src, src_ctx)"""
            return tuple((h, k) for h, k in src_ctx if w in b.loop[h])

        def okey(node):
            v, ctx = node
            d = dict(ctx)
            k = []
            for h in loops_of[v]:
                k += [b.rpo[h], d.get(h, 0)]
            return tuple(k) + (b.rpo[v],)

        def put(node, pred, states):
            old = ins.setdefault(node, {}).get(pred)
            if not states and not old:
                return
            ins[node][pred] = states
            pend[node] = okey(node)

        def coarsen(v, ctx):
            """too many partitions inside a loop body: use coarser partitions at its head and restart it"""
            d = dict(ctx)
            for h in reversed(loops_of.get(v, ())):
                if h in d:
                    continue
                hn = (h, tuple((x, k) for x, k in ctx if h in b.loop[x]))
                c = heads.get(('coarse', hn), 0)
                if hn in heads and c < 2:
                    heads[('coarse', hn)] = c + 1
                    heads[('ent', hn)] = None
                    pend[hn] = okey(hn)
                    return True
            return False
        put((0, ()), 'entry', [st0])
        while pend:
            node = min(pend, key=lambda x: pend[x])
            del pend[node]
            v, ctx = node
            self.steps += 1
            if time.time() - self.t0 > self.budget:
                raise Budget(f'budget exhausted in {fr.inst["path"]}')
            arr = ins.get(node, {})
            unrolled = v in b.heads and ctx and ctx[-1][0] == v
            if v in b.heads and not unrolled and self.unroll and modes.get(node) is None:
                es = [s for p in arr for s in arr[p]]
                if es and self._want_unroll(fr, v, es):
                    modes[node] = ['u', self.snap_sites(), 0]
                    put((v, ctx + ((v, 1),)), node, es)
                    continue
                modes[node] = 'w'
            if v in b.heads and not unrolled and isinstance(modes.get(node), list):
                # entry states changed while unrolled: restart unrolling from iteration 1
                es = [s for p in arr for s in arr[p]]
                self._drop_ctx(node, ins, pend, rets)
                modes[node][2] = 0
                put((v, ctx + ((v, 1),)), node, es)
                continue
            if v in b.heads and not unrolled:
                states = self._head(fr, v, arr, heads, rounds, node)
                if states is None:
                    continue
            else:
                states = [s for p in sorted(arr, key=str) for s in arr[p]]
                f0 = self.forced
                states = self._merge(fr, node, states)
                if self.forced != f0 and coarsen(v, ctx):
                    continue
            outs = {}
            cacheable = self.use_cache and (ck or b.blocks[v]['t'][0] == 'call') and (loops_of.get(v) or ctx)
            for s in states:
                if cacheable:
                    fp = s.fingerprint()
                    hit = bcache.get((node, fp))
                    if hit is not None:
                        self.cached += 1
                        for w, s2 in hit:
                            outs.setdefault(w, []).append(s2.copy())
                        continue
                self.cur, self.curblk = fr, (node if ctx else v)
                res = self._block(fr, node if ctx else v, s.copy())
                if cacheable:
                    if len(bcache) > 20000:
                        bcache.clear()
                    bcache[(node, fp)] = [(w, s2.copy()) for w, s2 in res]
                for w, s2 in res:
                    outs.setdefault(w, []).append(s2)
            fallback = None
            for w in list(b.succ[v]) + ['ret']:
                new = outs.get(w, [])
                if w == 'ret':
                    if new or node in rets:
                        rets[node] = new
                    continue
                wc = ctx_for(w, ctx, v)
                d = dict(wc)
                if w in d and (v, w) in b.back:
                    # back edge of an unrolled loop: next iteration
                    i = [h for h, _ in wc].index(w)
                    nxt = d[w] + 1
                    outer = wc[:i]
                    md = modes.get((w, outer))
                    if new and (nxt > self.unroll and not (nxt <= 300 and md and md[2] == 0)):
                        fallback = (w, outer)
                        break
                    if new and self.on_unroll:
                        self.on_unroll(self, fr, w)
                    wc = outer + ((w, nxt),)
                else:
                    # leaving unrolled loops?
                    for h, k in ctx:
                        if w not in b.loop[h] and new:
                            i = [x for x, _ in ctx].index(h)
                            md = modes.get((h, ctx[:i]))
                            if isinstance(md, list):
                                md[2] += 1
                if new:
                    f0 = self.forced
                    new = self._merge(fr, (w, wc), new)
                    if self.forced != f0 and w not in b.heads:
                        coarsen(w, wc)
                put((w, wc), node, new)
            if fallback:
                md = modes[fallback]
                self.restore_sites(md[1])
                modes[fallback] = 'w'
                self._drop_ctx(fallback, ins, pend, rets)
                pend[fallback] = okey(fallback)
        out = [s for v in sorted(rets, key=str) for s in rets[v]]
        return self._mergeret(fr, out)

    on_unroll = None

    def _drop_ctx(self, node, ins, pend, rets):
        v, ctx = node
        n = len(ctx)

        def inside(x):
            return isinstance(x, tuple) and len(x[1]) > n and x[1][:n] == ctx and x[1][n][0] == v
        for x in [x for x in ins if inside(x)]:
            del ins[x]
        for x in [x for x in pend if inside(x)]:
            del pend[x]
        for x in [x for x in rets if inside(x)]:
            del rets[x]
        for x in ins:
            for p in [p for p in ins[x] if inside(p)]:
                del ins[x][p]

    def _want_unroll(self, fr, v, states):
        if self.constkey(fr.inst):
            return False
        if self.unroll_all:
            return True
        b = fr.body
        if sum(1 for h in b.heads if v in b.loop[h]) > 2:
            return False
        asg = b.assigned(v)
        for s in states:
            for l in asg:
                x = s.s.get((fr.id, l))
                if isinstance(x, T) and x.op == 'k' and b.bits(self.mir, l) and l in b.live[v]:
                    return True
                for _ in range(3):
                    if isinstance(x, Agg) and x.ty != 'It' and isinstance(x.ty, int) and m_iterlike(self.mir.path(x.ty)) and x.f and isinstance(x.f[0], Agg):
                        x = x.f[0]
                if isinstance(x, Agg) and x.ty == 'It' and isk(x.f[0].len) and x.f[0].len.args[0] <= 300:
                    return True
                if isinstance(x, Agg) and isinstance(x.ty, int) and self.mir.path(x.ty).endswith(('ops::Range', 'RangeInclusive')) and len(x.f) >= 2 and isk(x.f[0]) and isk(x.f[1]):
                    return True
            if self.unroll_buf:
                for l in b.live[v]:
                    x = s.s.get((fr.id, l))
                    if isinstance(x, Ref):
                        x = s.s.get(x.base)
                    if isinstance(x, Vec) and isk(x.n) and x.n.args[0] <= 64 and isk(x.p):
                        return True
        return False

    # -------- merging
    def skel(self, v, ty, depth=0):
        m = self.mir
        if isinstance(v, Agg):
            if depth > 6 or len(v.f) > 24:
                return 'A'
            if v.sk is not None:
                return v.sk
            fs = m.fields(v.ty, v.var) if isinstance(v.ty, int) else None
            v.sk = ('A', v.var, tuple(self.skel(x, fs[i][1] if fs and i < len(fs) else None, depth + 1) for i, x in enumerate(v.f)))
            return v.sk
        if isinstance(v, Ref):
            if isinstance(v.base, tuple) and v.base[0] == 'el':
                return ('R', 'el', v.base[1] if isinstance(v.base[1], T) else None, v.path)
            return ('R', v.base, v.path)
        if isinstance(v, SRef):
            return ('S', v.c if isinstance(v.c, T) else None)
        if isinstance(v, Fn):
            return v.inst
        if isinstance(v, T):
            if ty is not None and m.tk(ty) == 'bool' and v.op == 'k':
                return v.args[0]
            if ty is not None and m.is_enum(ty) and isinstance(v, T):
                return ('T',)
        return None

    def key(self, st, fr, live, coarse=0):
        m = self.mir
        if coarse >= 2:
            return ((), None)
        out = []
        ck = self.constkey(fr.inst)
        if coarse:
            for k in sorted((k for k in st.s if isinstance(k, tuple) and k[0] == fr.id), key=repr):
                if live is not None and k[1] not in live and k[1] not in fr.body.addr:
                    continue
                v = st.s[k]
                if isinstance(v, Agg):
                    if v.var is not None and isinstance(v.ty, int) and m.is_enum(v.ty):
                        sub_ = tuple(x.var if isinstance(x, Agg) else None for x in v.f[:1])
                        out.append((k, v.var, sub_))
                elif isinstance(v, T) and v.op == 'k' and m.tk(fr.body.locals[k[1]]) == 'bool':
                    out.append((k, v.args[0]))
            return (tuple(out), st.g.get('key'))
        for k in sorted((k for k in st.s if isinstance(k, tuple)), key=repr):
            if k[0] == fr.id:
                if live is not None and k[1] not in live and k[1] not in fr.body.addr:
                    continue
                ty = fr.body.locals[k[1]]
                sk = self.skel(st.s[k], ty)
                if ck and sk is None and isinstance(st.s[k], T) and st.s[k].op == 'k' and m.bits(ty):
                    sk = ('K', st.s[k].args[0])
                elif ck and isinstance(st.s[k], Agg) and m.tk(ty) == 'tuple':
                    sk = (sk, tuple(x.args[0] if isinstance(x, T) and x.op == 'k' else None for x in st.s[k].f))
            else:
                sk = self.skel(st.s[k], None)
            if sk is not None:
                out.append((k, sk))
        g = st.g.get('key')
        return (tuple(out), g)

    def prune(self, fr, st, live):
        dead = [k for k in st.s if isinstance(k, tuple) and k[0] == fr.id and k[1] not in live and k[1] not in fr.body.addr]
        for k in dead:
            del st.s[k]

    def _merge(self, fr, v, states):
        live = fr.body.live[v[0]]
        for s in states:
            self.prune(fr, s, live)
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.key(s, fr, live), []).append(s)
        out = []
        for k, g in groups.items():
            g = self.dedupe(g)
            if len(g) == 1 or (not self.merge and len(states) <= self.cap):
                out += g
            else:
                out.append(self.join(fr, v, g))
        if len(out) > (9000 if self.constkey(fr.inst) else self.cap):
            self.forced += 1
            groups = {}
            for s in out:
                groups.setdefault(self.key(s, fr, live, 1), []).append(s)
            if len(groups) > self.cap:
                groups = {0: out}
            out = [g[0] if len(g) == 1 else self.join(fr, v, g) for g in groups.values()]
        return out

    def _mergeret(self, fr, states):
        for s in states:
            for k in [k for k in s.s if isinstance(k, tuple) and k[0] == fr.id and k[1] != 0]:
                del s.s[k]
            if self.keep:
                for k in [k for k in s.g if isinstance(k, tuple) and k[:2] == ('was', fr.id)]:
                    del s.g[k]
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.key(s, fr, None), []).append(s)
        out = []
        for k, g in groups.items():
            g = self.dedupe(g)
            if len(g) == 1 or (not self.merge and len(states) <= self.retcap):
                out += g
            else:
                out.append(self.join(fr, 'ret', g))
        if len(out) > self.retcap:
            self.forced += 1
            out = [self.join(fr, 'ret', out)]
        return out

    def dedupe(self, g):
        if len(g) < 2:
            return g
        out = []
        for s in g:
            for o in out:
                if s.s == o.s and s.d == o.d and s.l == o.l and s.g == o.g:
                    break
            else:
                out.append(s)
        return out

    def _head(self, fr, v, arr, heads, rounds, node):
        """loop head with widening; returns states to propagate or None if stable"""
        b = fr.body
        live = b.live[v]
        r = rounds[node] = rounds.get(node, 0) + 1
        groups = {}
        crs = heads.get(('coarse', node), 0)
        backs = {p for p in arr if isinstance(p, tuple) and (p[0], v) in b.back}
        entry_changed = False
        for p in sorted(arr, key=str):
            for s in arr[p]:
                self.prune(fr, s, live)
                groups.setdefault(self.key(s, fr, live, crs), []).append((p in backs, s))
        hs = heads.setdefault(node, {})
        # an outer re-entry (entry states changed) restarts the loop analysis
        ent = [id(s) for p in arr if p not in backs for s in arr[p]]
        over = len(groups) > (9000 if self.constkey(fr.inst) else self.cap) and crs < 2
        if over:
            self.forced += 1
            crs = heads[('coarse', node)] = crs + 1
        if heads.get(('ent', node)) != ent or over:
            heads[('ent', node)] = ent
            hs.clear()
            heads[('kr', node)] = {}
            rounds[node] = r = 1
            for p in backs:
                arr.pop(p, None)
            groups = {}
            for p in sorted(arr, key=str):
                for s in arr[p]:
                    groups.setdefault(self.key(s, fr, live, crs), []).append((False, s))
        if len(groups) > (9000 if self.constkey(fr.inst) else self.cap):
            self.forced += 1
            groups = {'all': [x for g in groups.values() for x in g]}
        changed = False
        out = []
        for k, g in groups.items():
            old = hs.get(k)
            kr = heads.setdefault(('kr', node), {})
            ckh = self.constkey(fr.inst)
            kr[k] = kr.get(k, 0 if not ckh else 1) + (not ckh)
            ss = self.dedupe([s for _, s in g])
            if old is None and len(ss) == 1 and not any(bk for bk, _ in g):
                new = ss[0]
                self.gc(new)
            else:
                vb = self.loop_variant(fr, v, node) if all(bk for bk, _ in g) else None
                new = self.join(fr, node, ss, head=True, old=old, rnd=kr[k], variant=vb)
            if self.keep:
                for x in [x for x in new.g if isinstance(x, tuple) and x[:3] == ('was', fr.id, node)]:
                    del new.g[x]
                for loc, t in self.keep(new, fr):
                    new.g[('was', fr.id, node, loc)] = t
            if old is None or not (new.s == old.s and new.d == old.d and new.l == old.l):
                changed = True
                kr[k] += bool(ckh)
                if old is not None and r > 30 and os.environ.get('AIDBG'):
                    self.dbgdiff(fr, v, r, k, old, new)
                hs[k] = new
        for k in hs:
            if k not in groups:
                pass
        if r > (400 if self.constkey(fr.inst) else 80):
            raise Budget(f'no fixpoint at loop in {fr.inst["path"]} block {v}')
        if self.on_back and any(p in backs for p in arr):
            self.on_back(self, fr, node, list(hs.values()), [s for p in arr if p in backs for s in arr[p]], not changed)
        if not changed:
            return None
        self.loops[(fr.inst['id'], v)] = self.loops.get((fr.inst['id'], v), 0) + 1
        return [h for h in hs.values()]

    def loop_variant(self, fr, v, node):
        """predicate: is this variable (re)defined inside the loop headed by v?"""
        loop = fr.body.loop[v]
        cache = {}

        def var_(x):
            nm = x.args[0]
            r = cache.get(nm)
            if r is None:
                i = next((k for k, y in enumerate(nm) if isinstance(y, int)), None) if isinstance(nm, tuple) else None
                r = False
                if isinstance(nm, tuple) and nm[0] == 'hv':
                    r = True
                elif i is not None and i + 1 < len(nm) and i < 2:
                    f, blk = nm[i], nm[i + 1]
                    while f and f != fr.id and f in self.frinfo:
                        f, blk = self.frinfo[f]
                    r = f == fr.id and blkno(blk) in loop
                cache[nm] = r
            return r
        return var_

    def dbgdiff(self, fr, v, r, k, old, new):
        print('HEAD', fr.inst['path'], v, 'round', r, 'key', str(k)[:80])
        for nm, a, b in (('s', old.s, new.s), ('d', old.d, new.d), ('l', old.l, new.l)):
            for x in set(a) | set(b):
                if a.get(x) != b.get(x):
                    print('   ', nm, str(x)[:160], ':', str(a.get(x))[:200], '->', str(b.get(x))[:200])

    def vars_of(self, v, acc, seen=None):
        if isinstance(v, T):
            acc |= tvars(v)
        elif isinstance(v, Agg):
            if len(v.f) > 64 and all(isinstance(x, T) and x.op == 'k' for x in v.f[:8]):
                return
            for x in v.f:
                self.vars_of(x, acc)
        elif isinstance(v, SRef):
            self.vars_of(v.c, acc)
            acc |= tvars(v.s)
            acc |= tvars(v.e)
        elif isinstance(v, Vec):
            self.vars_of(v.c, acc)
            acc |= tvars(v.p)
            acc |= tvars(v.n)
            for it in v.log:
                for x in it:
                    if isinstance(x, (T, SRef)):
                        self.vars_of(x, acc)
        elif isinstance(v, Ref):
            self.base_vars(v.base, acc)
            for e in v.path:
                if e[0] == 'i':
                    acc |= tvars(e[1])

    def base_vars(self, b, acc):
        if isinstance(b, tuple) and b[0] in ('d', 'el', 'arc'):
            for x in b[1:]:
                if isinstance(x, T):
                    acc |= tvars(x)

    def gc(self, st):
        """drop facts / memory about values no longer reachable"""
        acc = set()
        rest = []
        for k, v in st.s.items():
            if isinstance(k, tuple) and k[0] in ('d', 'el', 'arc'):
                rest.append(k)
            else:
                self.vars_of(v, acc)
        for v in st.g.values():
            if isinstance(v, (tuple, frozenset)):
                for x in v:
                    if isinstance(x, T):
                        acc |= tvars(x)
            elif isinstance(v, T):
                acc |= tvars(v)
        ch = True
        keep = set()
        while ch:
            ch = False
            for k in rest:
                if k in keep:
                    continue
                bv = set()
                self.base_vars(k, bv)
                if bv <= acc:
                    keep.add(k)
                    n = len(acc)
                    self.vars_of(st.s[k], acc)
                    ch = True
        for k in rest:
            if k not in keep:
                del st.s[k]
        for t in [t for t in st.d if not tvars(t) <= acc]:
            del st.d[t]
        dead = [(ps, c) for ps, c in st.l.items() if not all(tvars(a) <= acc for a, _ in ps)]
        for ps, _ in dead:
            del st.l[ps]
        if len(dead) > 2:
            # a lost value that equals an expression over kept ones is replaced by it
            fd = dict(dead)
            for ps, c in dead:
                ds = [(a, k) for a, k in ps if not tvars(a) <= acc]
                if len(ds) != 1 or abs(ds[0][1]) != 1 or len(ps) > 4:
                    continue
                np_ = lin_parts_key({a: -k for a, k in ps})
                if fd.get(np_) != -c:
                    continue
                a, k = ds[0]
                for qs, qc in dead:
                    if qs == ps or qs == np_:
                        continue
                    q = dict(qs)
                    if a not in q or sum(1 for b in q if not tvars(b) <= acc) != 1:
                        continue
                    f = q[a] * k        # add -f times (ps + c = 0)
                    for b, kb in ps:
                        q[b] = q.get(b, 0) - f * kb
                    x = lin_mk(qc - f * c, q)
                    if not isk(x):
                        y, yc = lin_parts(x)[1], lin_parts(x)[0]
                        if 1 < len(y) < 6:
                            key = lin_parts_key(y)
                            o = st.l.get(key)
                            if o is None or o > yc:
                                st.l[key] = yc
        st._ix = None
        st._dc = {}
        return acc

    def join(self, fr, blk, states, head=False, old=None, rnd=0, variant=None):
        m = self.mir
        n = len(states)
        out = St(m)
        phis = []           # (phi term, [value terms])
        conv = []
        sticky = old.g.get('#phis', {}).get((fr.id, blk), frozenset()) if old is not None else frozenset()
        newphi = set()

        def phi(name, vals, ty):
            p = var(('phi', fr.id, blk, name), ty)
            if p in pset:
                return p
            pset.add(p)
            phis.append((p, vals))
            newphi.add(name)
            return p
        pset = set()

        def cvar(c, name):
            if not variant:
                return False
            if isinstance(c, T) and c.op == 'v' and c.args[0] == ('phi', fr.id, blk, name):
                return False
            acc = set()
            self.vars_of(c, acc)
            return any(variant(x) for x in acc)

        def jn(name, vals, ty):
            v0 = vals[0]
            same = all(v is v0 or v == v0 for v in vals[1:])
            if same and variant and not (name in sticky):
                if isinstance(v0, T):
                    own = v0.op == 'v' and v0.args[0] == ('phi', fr.id, blk, name)
                    same = own or not any(variant(x) for x in tvars(v0))
                elif isinstance(v0, (Agg, SRef, Vec)):
                    acc = set()
                    self.vars_of(v0, acc)
                    same = not any(variant(x) for x in acc)
            if same and not (name in sticky):
                return v0
            if all(isinstance(v, Agg) for v in vals):
                if all(v.var == v0.var and len(v.f) == len(v0.f) for v in vals):
                    fs = m.fields(v0.ty, v0.var) if isinstance(v0.ty, int) else None
                    r = Agg(v0.ty, v0.var, [jn(name + (i,), [v.f[i] for v in vals], fs[i][1] if fs and i < len(fs) else None)
                                            for i in range(len(v0.f))])
                    if len(r.f) == 2 and isinstance(v0.ty, int) and m.path(v0.ty).endswith('ops::Range') and all(isinstance(x, T) for x in r.f):
                        structural.append(sub(r.f[1], r.f[0]))
                    return r
            if all(isinstance(v, Ref) and isinstance(v.base, tuple) and v.base[0] == 'el' for v in vals) \
                    and all(v.path == v0.path and v.base[1] == v0.base[1] and v.base[3:] == v0.base[3:] for v in vals) \
                    and not cvar(v0.base[1], name + ('c',)):
                return Ref(('el', v0.base[1], jn(name + ('i',), [v.base[2] for v in vals], m.usize)) + v0.base[3:], v0.path)
            if any(isinstance(v, SRef) for v in vals):
                ss = []
                for v, s in zip(vals, states):
                    ss.append(v if isinstance(v, SRef) else self.as_slice(s, v))
                if all(s is not None for s in ss):
                    c0 = ss[0].c
                    if all(s.c is c0 or s.c == c0 for s in ss) and not cvar(c0, name + ('c',)):
                        c = c0
                    else:
                        c = var(('phi', fr.id, blk, name + ('c',)), None)
                        newphi.add(name + ('c',))
                    rs, re_ = jn(name + ('s',), [s.s for s in ss], m.usize), jn(name + ('e',), [s.e for s in ss], m.usize)
                    structural.append(sub(re_, rs))
                    return SRef(c, rs, re_,
                                ss[0].loc if all(s.loc == ss[0].loc for s in ss) else None, ss[0].ety)
            if any(isinstance(v, Vec) for v in vals):
                ss = [v if isinstance(v, Vec) else self.as_vec(v) for v in vals]
                if all(s is not None for s in ss):
                    c0 = ss[0].c
                    if all(s.c is c0 or s.c == c0 for s in ss) and (name + ('c',)) not in sticky and not cvar(c0, name + ('c',)):
                        c = c0
                    else:
                        c = var(('phi', fr.id, blk, name + ('c',)), None)
                        newphi.add(name + ('c',))
                    log = ss[0].log
                    if not all(s.log == log for s in ss):
                        i = 0
                        while all(len(s.log) > i for s in ss) and all(s.log[i] == log[i] for s in ss):
                            i += 1
                        log = log[:i] + (('*',),)
                    rp, rn = jn(name + ('p',), [s.p for s in ss], m.usize), jn(name + ('n',), [s.n for s in ss], m.usize)
                    structural.append(sub(rn, rp))
                    return Vec(c, rp, rn, log, ss[0].ety)
            if all(isinstance(v, T) for v in vals):
                t2 = ty
                if t2 is None:
                    t2 = next((v.ty for v in vals if v.ty is not None), None)
                if any(v.op in ('bytes', 'carr') for v in vals):
                    t2 = t2
                return phi(name, list(vals), t2)
            # mixed
            t2 = ty
            if t2 is None:
                for v in vals:
                    if isinstance(v, Agg) and isinstance(v.ty, int):
                        t2 = v.ty
                    elif isinstance(v, T) and v.ty is not None:
                        t2 = v.ty
            p = var(('phi', fr.id, blk, name), t2)
            newphi.add(name)
            if t2 is not None and m.is_enum(t2):
                dd = ()
                for v, s in zip(vals, states):
                    if isinstance(v, Agg):
                        dd = D.union(dd, D.const(m.discr_of(t2, v.var or 0)))
                    elif isinstance(v, T):
                        dd = D.union(dd, s.dom(mk('discr', (v,))))
                if dd:
                    conv.append((mk('discr', (p,)), dd))
            # values behind lost references become unknown
            for v, s in zip(vals, states):
                lost.append(v)
            return p
        lost = []
        structural = []
        common = set(states[0].s)
        for s in states[1:]:
            common &= set(s.s)
        # symbolic memory cells present in some states only: materialise
        for s in states:
            for k in s.s:
                if k not in common and isinstance(k, tuple) and k[0] in ('d', 'alloc', 'el', 'arc'):
                    common.add(k)
        for b in sorted(common, key=repr):
            vals = [s.s[b] if b in s.s else self.base_value(s, b) for s in states]
            ty = None
            if isinstance(b, tuple) and b[0] == fr.id and isinstance(b[1], int):
                ty = fr.body.locals[b[1]] if b[1] < len(fr.body.locals) else None
            out.s[b] = jn((repr(b),), vals, ty)
        # ghosts
        g0 = states[0].g
        for k, v in g0.items():
            if k in ('#phis', '#n'):
                continue
            vs = [s.g.get(k) for s in states]
            if all(x == v for x in vs):
                out.g[k] = v
            elif isinstance(k, tuple) and k[0] == 'may':
                out.g[k] = frozenset().union(*[x or frozenset() for x in vs])
            elif isinstance(k, tuple) and k[0] == 'must':
                r = vs[0] or frozenset()
                for x in vs[1:]:
                    r = r & (x or frozenset())
                out.g[k] = r
            elif isinstance(k, tuple) and k[0] == 'was':
                if all(x is not None for x in vs):
                    out.g[k] = phi(('g', repr(k)), vs, m.usize)
            elif isinstance(k, tuple) and k[0] == 'cnt':
                out.g[k] = phi(('g', repr(k)), [x if x is not None else ZERO for x in vs], m.usize)
        for s in states:
            for k, v in s.g.items():
                if k not in g0 and isinstance(k, tuple) and k[0] == 'may':
                    out.g[k] = out.g.get(k, frozenset()) | v
        out.g['#n'] = max(s.g.get('#n', 0) for s in states)
        # facts: domains
        pv = frozenset(pset)
        for t in states[0].d:
            if head and (tvars(t) & pv):
                continue
            dd = states[0].dom(t)
            ok = True
            for s in states[1:]:
                if t not in s.d and t.op not in COMP and s.leafdom(t) == s.dom(t):
                    ok = False
                    break
                dd = D.union(dd, s.dom(t))
            if ok:
                out.d[t] = dd
        # phi domains
        for p, vals in phis:
            for v, s in zip(vals, states):
                if any((abs(k) > 1 and a.op == 'v') or self.wild(s, a) for a, k in lin_parts(v)[1].items()):
                    self.wildphi.add(p.args[0])
        for p, vals in phis:
            if any(v.op in ('bytes', 'carr') for v in vals):
                continue
            if p.ty is not None and m.is_enum(p.ty):
                dd = ()
                for v, s in zip(vals, states):
                    dd = D.union(dd, s.dom(mk('discr', (v,))))
                out.d[mk('discr', (p,))] = dd
                continue
            if p.ty is not None and m.bits(p.ty) is None and not any(v.op in ('k', 'lin') for v in vals):
                continue
            dd = ()
            for v, s in zip(vals, states):
                dd = D.union(dd, s.dom(v))
                # tighter bounds via linear facts
            if old is not None and rnd > 2 and p in old.d:
                dd = self.widen(old.dom(p), dd, rnd)
            if dd and dd != D.TOP:
                out.d[p] = dd
        for t, dd in conv:
            out.d[t] = dd
        out.d = {t: d for t, d in out.d.items() if d}
        if head and old is not None and rnd > 6:
            done = {p for p, _ in phis}
            for t, d in list(out.d.items()):
                o = old.d.get(t)
                if t not in done and o is not None and o != d and not D.sub(d, o):
                    out.d[t] = self.widen(o, d, rnd)
        # linear facts
        def phimap(i):
            mp = {}
            for p, vals in phis:
                mp[p] = vals[i]
            return mp
        def subst(ps, c, i):
            x = K(c)
            for a, k in ps:
                v = None
                for p, vals in phis:
                    if p is a:
                        v = vals[i]
                        break
                x = add(x, scale(v if v is not None else a, k))
            return x
        cands = {}
        surv = None
        intphis = [(p, vals) for p, vals in phis if not (p.ty is not None and m.bits(p.ty) is not None and m.bits(p.ty)[0] <= 8)
                   and not any(v.op in ('bytes', 'carr') or (v.ty is not None and m.bits(v.ty) is None and v.op not in ('k', 'lin', 'len', 'elem', 'fld')) for v in vals)
                   and (p.ty is None or m.bits(p.ty) is not None)]
        cset = set()
        for x in structural:
            c, ps = lin_parts(x)
            if ps:
                cset.add(lin_parts_key(ps))
        if old is not None and rnd > 4:
            for ps, c in old.l.items():
                cset.add(ps)
        else:
            for s in states:
                for ps in s.l:
                    if head and any(tvars(a) & pv for a, _ in ps):
                        pass
                    else:
                        cset.add(ps)
                    # substitute atoms equal to phi values
            if intphis:
                anchors = {}
                for i, s in enumerate(states):
                    acc = {}
                    vas = set()
                    for p, vals in intphis:
                        for a in lin_parts(vals[i])[1]:
                            vas.add(a)
                    for a in vas:
                        acc[a] = 1
                    for ps in s.l:
                        if any(a in vas for a, _ in ps):
                            for a, _ in ps:
                                acc[a] = 1
                    for a in acc:
                        anchors[a] = anchors.get(a, 0) + 1
                anch = [a for a in anchors if not (tvars(a) & pv)] if head else list(anchors)
                # atoms must survive in the joined store
                sv = set()
                for v in out.s.values():
                    self.vars_of(v, sv)
                for k in out.s:
                    self.base_vars(k, sv)
                if self.keep:
                    for v in out.g.values():
                        if isinstance(v, T):
                            sv |= tvars(v)
                anch = [a for a in anch if tvars(a) <= sv]
                # lengths known to differ from path to path bound constants that do too
                dl = [t for t in states[0].d if t.op == 'len' and t not in anchors and tvars(t) <= sv and not (head and tvars(t) & pv)
                      and len({s.lo(t) for s in states}) > 1]
                anch += dl[:6]
                dp = [ps for ps in states[0].l if len(ps) == 2 and all(abs(k) == 1 for _, k in ps) and all(ps in s.l for s in states[1:])
                      and len({s.l[ps] for s in states}) > 1 and all(tvars(a) <= sv and not tvars(a) & pv for a, _ in ps)]
                if dp:
                    for p, vals in intphis:
                        if all(isk(v) for v in vals):
                            for ps in dp[:4]:
                                cset.add(lin_parts_key({**dict(ps), p: -1}))
                # a value that differs by a constant, and a bound that differs with it
                dv = [t for t in states[0].d if t.op in ('v', 'len') and tvars(t) <= sv and not tvars(t) & pv and all(t in s.d for s in states[1:])
                      and len({s.lo(t) for s in states}) > 1]
                if dv:
                    for p, vals in intphis:
                        b0 = next((lin_parts(v)[1] for v in vals if v is not p), {})
                        if 0 < len(b0) < 3 and all(v is p or lin_parts(v)[1] == b0 for v in vals) and all(tvars(a) <= sv and not tvars(a) & pv for a in b0):
                            for t in dv[:4]:
                                for sgn in (1, -1):
                                    f = {a: -sgn * k for a, k in b0.items()}
                                    f[p] = sgn
                                    f[t] = f.get(t, 0) + 1
                                    if f[t]:
                                        cset.add(lin_parts_key(f))
                if len(anch) > 24:
                    anch = sorted(anch, key=lambda a: -anchors.get(a, 9))[:24]
                ip = intphis[:14]
                # induction variables advancing at constant rates: b*p - a*q is invariant
                if len(states) > 1 or head:
                    rate = {}
                    for p, vals in ip:
                        rs = set()
                        for v in vals:
                            c, d = lin_parts(v)
                            if d == {p: 1}:
                                rs.add(c)
                        if not rs and len(vals) > 1:
                            x = sub(vals[-1], vals[0])
                            rs = {x.args[0]} if isk(x) else rs
                        if len(rs) == 1:
                            rate[p] = rs.pop()
                    rl = [(p, r) for p, r in rate.items() if r]
                    for x, (p, r) in enumerate(rl):
                        for q, w in rl[x + 1:]:
                            if abs(r) != abs(w):
                                bases = {()}
                                for i in range(len(states)):
                                    vp, vq = phimap(i)[p], phimap(i)[q]
                                    x0 = lin_parts(sub(scale(vp, w), scale(vq, r)))[1]
                                    if x0 and len(x0) < 3 and all(tvars(a) <= sv and not tvars(a) & pv for a in x0):
                                        bases.add(tuple(x0.items()))
                                for x0 in bases:
                                    f = {a: -k for a, k in x0}
                                    f.update({p: w, q: -r})
                                    for sgn in (1, -1):
                                        cset.add(lin_parts_key({a: sgn * k for a, k in f.items()}))
                for x, (p, vals) in enumerate(ip):
                    for (q, _) in ip[x + 1:]:
                        for sgn in (1, -1):
                            cset.add(lin_parts_key({p: sgn, q: -sgn}))
                        # sums (e.g. consumed + remaining = const) are covered through p,q vs anchors below
                    for a in anch:
                        for sgn in (1, -1):
                            cset.add(lin_parts_key({p: sgn, a: -sgn}))
                # substituted facts
                for i, s in enumerate(states):
                    for p, vals in ip:
                        if vals[i].op != 'lin' or len(vals[i].args[1]) < 2:
                            continue
                        d = dict(vals[i].args[1])
                        if len(d) == 3:
                            # a bound that holds whatever one of the terms is
                            for a in d:
                                f = {b: -k for b, k in d.items() if b is not a}
                                if all(tvars(b) <= sv and not tvars(b) & pv for b in f):
                                    f[p] = 1
                                    cset.add(lin_parts_key(f))
                                    cset.add(lin_parts_key({b: -k for b, k in f.items()}))
                        for ps in s.l:
                            if len(ps) < len(d):
                                continue
                            f = dict(ps)
                            k = None
                            for a, w in d.items():
                                q = f.get(a)
                                if not q or q % w or (k is not None and q // w != k):
                                    k = None
                                    break
                                k = q // w
                            if k is None:
                                continue
                            for a in d:
                                del f[a]
                            if f and len(f) < 4 and all(tvars(a) <= sv and not tvars(a) & pv for a in f):
                                f[p] = k
                                cset.add(lin_parts_key(f))
                    inv = {}
                    for p, vals in ip:
                        v = vals[i]
                        if v.op not in ('k', 'lin'):
                            inv.setdefault(v, p)
                    if inv:
                        for ps in s.l:
                            if any(a in inv for a, _ in ps):
                                d = {}
                                okk = True
                                for a, k in ps:
                                    b = inv.get(a, a)
                                    if a not in inv and (tvars(a) & pv or not tvars(a) <= sv):
                                        okk = False
                                        break
                                    d[b] = d.get(b, 0) + k
                                if okk and len(d) > 1:
                                    cset.add(lin_parts_key(d))
        # congruences
        ks = {k for s in states for _, k, _ in s.rems()}
        if ks and (old is None or rnd < 2 or any(t.op == 'rem' for t in old.d)):
            cl = [x for x in structural if not isk(x)] + [p for p, _ in intphis]
            for x in cl:
                for k in ks:
                    rs = set()
                    for i, s in enumerate(states):
                        c0, ps = lin_parts(x)
                        v = subst(tuple(ps.items()), c0, i)
                        d = s.dom(mk('rem', (v, K(k)))) if not isk(v) else D.const(v.args[0] % k)
                        rs |= {d[0][0]} if d and d[0][0] == d[-1][1] else {None}
                    if len(rs) == 1 and None not in rs:
                        t = mk('rem', (x, K(k)))
                        if old is None or rnd < 2 or old.d.get(t) == D.const(min(rs)):
                            out.d[t] = D.const(min(rs))
        for ps in cset:
            if len(ps) < 2:
                continue
            best = None
            hasphi = any(a in pv for a, _ in ps)
            for i, s in enumerate(states):
                if not hasphi:
                    c = s.l.get(ps)
                    if c is not None:
                        b = -c
                    else:
                        x = lin_mk(0, dict(ps))
                        b = s.lb(x, 3)
                else:
                    x = subst(ps, 0, i)
                    b = s.lb(x, 3)
                best = b if best is None else min(best, b)
                if best < -(1 << (20 if hasphi else 40)):
                    best = None
                    break
            if best is None:
                continue
            if old is not None and rnd > 3:
                oc = old.l.get(ps)
                if oc is None or best < -oc:
                    continue
                best = -oc
            # skip if implied by intervals
            x = lin_mk(0, dict(ps))
            if out.lo(x) >= best:
                continue
            out.l[ps] = -best
        out._ix = None
        # equality-of-content facts etc. are dropped
        for v in lost:
            if isinstance(v, Ref):
                pass
        if head:
            ph = dict((old.g.get('#phis', {}) if old is not None else {}))
            ph[(fr.id, blk)] = sticky | frozenset(newphi)
            out.g['#phis'] = ph
            self.gc(out)
        else:
            self.gc(out)
        return out

    def widen(self, a, b, rnd):
        if not a or not b:
            return a or b
        if D.sub(b, a):
            return a
        u = D.union(a, b)
        if rnd <= 3 and D.size(u) <= 256:
            return u
        lo, hi = u[0][0], u[-1][1]
        if rnd > 6:
            ts = self.coarse
            if lo < a[0][0]:
                lo = 0 if lo >= 0 else -(1 << 130)
            if hi > a[-1][1]:
                hi = min([t for t in ts if t >= hi], default=1 << 130)
            return ((lo, hi),)
        if lo < a[0][0]:
            lo = max([t for t in [-x for x in self.thresholds] + self.thresholds if t <= lo], default=-(1 << 130))
        if hi > a[-1][1]:
            hi = min([t for t in self.thresholds if t >= hi], default=1 << 130)
        return ((lo, hi),)

    # -------- statements / terminators
    def _block(self, fr, v, st):
        bb = fr.body.blocks[blkno(v)]
        m = self.mir
        for s in bb['s']:
            k = s[0]
            if k == '=':
                dty = self.place_ty(fr, s[1])
                val = self.rvalue(st, fr, s[2], dty)
                self.store(st, fr, s[1], val)
            elif k == 'dead':
                st.s.pop((fr.id, s[1]), None)
            elif k == 'sd':
                l = self.lv(st, fr, s[1])
                if l[0] == 'm':
                    cur = self.read(st, l[1], l[2])
                    if not (isinstance(cur, Agg) and cur.var == s[2]):
                        fs = m.fields(l[3], s[2]) or []
                        self.write(st, l[1], l[2], Agg(l[3], s[2], [var(('sd', fr.id, v, i), f[1]) for i, f in enumerate(fs)]))
        t = bb['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'ret':
            return [('ret', st)]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'drop':
            return [(t[2], st)]
        if k == 'switch':
            return self._switch(fr, st, t)
        if k == 'assert':
            return self._assert(fr, st, t, bb['sp'])
        if k == 'call':
            return self._call(fr, v, st, t)
        return []

    def _switch(self, fr, st, t):
        x = self.op(st, fr, t[1])
        if not isinstance(x, T) or x.op in ('bytes', 'carr'):
            x = var(('sw', fr.id, self.curblk), None)
        out = []
        dd = st.dom(x)
        isb = x.op in ('ge0', 'eq0', 'not', 'ovf') or (x.op in ('and', 'or', 'xor') and dd == D.BOOL)
        by = {}
        used = ()
        for val, tgt in t[2]:
            val = int(val)
            ty = self.op_ty(fr, t[1])
            b = self.mir.bits(ty)
            if b and b[1]:
                val = wrap(val, b[0], True)
            used = D.union(used, D.const(val))
            if D.has(dd, val):
                by[tgt] = D.union(by.get(tgt, ()), D.const(val))
        if t[3] is not None:
            rest = D.diff(dd, used)
            if rest:
                by[t[3]] = D.union(by.get(t[3], ()), rest)
        for tgt, d in by.items():
            s2 = st.copy() if len(by) > 1 else st
            if isb:
                ok = True
                if d == D.const(0):
                    ok = s2.assume(x, 0)
                elif d == D.const(1):
                    ok = s2.assume(x, 1)
            elif len(d) == 1 and d[0][0] == d[0][1]:
                ok = s2.assume(eq(x, K(d[0][0])), 1) if x.op == 'lin' else s2.refine(x, d)
            else:
                ok = s2.refine(x, d)
            if ok:
                out.append((tgt, s2))
        return out

    def _assert(self, fr, st, t, sp):
        _, c, exp, msg, tgt = t[:5]
        kind = msg[0]
        if not isinstance(kind, str) or kind.startswith(('Misaligned', 'Null', 'Invalid')) or (isinstance(msg, str)):
            return [(tgt, st)]
        x = self.op(st, fr, c)
        m = self.mir
        if isinstance(x, T) and x.op == 'ovf':
            r, lo, hi = x.args
            ok = st.ge(r, lo) and st.ge(neg(r), -hi)
            if not ok and hi >= (1 << 63) - 1 and lo == 0 and msg[1] == 'Add' and self.countlike(st, r):
                ok = True
            self.site(fr, 'overflow ' + msg[1], ok, st, f'{show(r)} in {D.show(st.dom(r))}', sp)
            if not (st.addlin(addk(r, -lo)) and st.addlin(sub(K(hi), r))):
                return []
            return [(tgt, st)]
        if not isinstance(x, T):
            x = var(('assert', fr.id, self.curblk), m.boolt)
        v = st.val(x)
        want = 1 if exp else 0
        self.site(fr, kind + (' ' + msg[1] if kind == 'overflow' and isinstance(msg[1], str) else ''), v == want, st,
                  f'{show(x)}={want}', sp)
        if not st.assume(x, want):
            return []
        return [(tgt, st)]

    def countlike(self, st, r):
        """sum of non-negative byte/element counts: cannot approach 2^63"""
        c, ps = lin_parts(r)
        if c < -(1 << 40) or c > 1 << 40:
            return False
        for a, k in ps.items():
            if k not in (1, -1) or self.wild(st, a):
                return False
        return True

    def wild(self, st, a):
        if a.op == 'len':
            return False
        if st.hi(a) <= 1 << 40:
            return False
        if a.op == 'v':
            n = a.args[0]
            if isinstance(n, tuple) and n[0] in ('phi', 'count'):
                return n in self.wildphi
            return True
        if a.op in ('fld', 'dref') and a.ty == self.mir.usize:
            return False
        return True

    # -------- calls
    def _call(self, fr, v, st, t):
        _, callee, fop, args, dest, tgt = t[:6]
        m = self.mir
        vals = [self.op(st, fr, a) for a in args]
        if callee is None:
            f = self.op(st, fr, fop)
            if isinstance(f, Fn) and f.inst is not None:
                callee = f.inst
        self.cur, self.curblk = fr, v
        dty = self.place_ty(fr, dest)
        if callee is None or isinstance(callee, str):
            res = self.unknown_call(st, fr, v, None, vals, [self.op_ty(fr, a) for a in args], dty)
        else:
            res = self.call(st, fr, v, m.I[callee], vals, dty, [self.op_ty(fr, a) for a in args])
        out = []
        if tgt is None:
            return []
        for s, r in res:
            self.store(s, fr, dest, r)
            out.append((tgt, s))
        return out

    def call(self, st, fr, blk, inst, vals, dty, atys=None):
        m = self.mir
        h = self.hooks.get(inst['id'])
        if h is not None:
            r = h(self, st, fr, blk, inst, vals, dty)
            if r is not None:
                return r
        # closure bodies take the argument tuple untupled
        mod = self.mcache.get(inst['id'], 0)
        if mod == 0:
            mod = self.mcache[inst['id']] = self.models(self, inst)
        if mod is not None:
            r = mod(self, st, fr, blk, inst, vals, dty)
            if r is not None:
                return r
        if 'body' in inst and not self.opaque(inst):
            ch = fr.chain()
            rec = sum(1 for f in ch if f.inst['id'] == inst['id'])
            if rec < 1 and len(ch) < self.maxdepth:
                b = self.body(inst)
                if len(vals) == 2 and b.args == 2 and isinstance(vals[1], Agg) and isinstance(vals[1].ty, int) and vals[1].ty != b.locals[2] \
                        and m.tk(vals[1].ty) == 'tuple' and len(vals[1].f) == 1 and m.tk(b.locals[2]) != 'tuple' or (
                        len(vals) == 2 and b.args == 2 and isinstance(vals[1], Agg) and isinstance(vals[1].ty, int)
                        and vals[1].ty != b.locals[2] and m.tk(vals[1].ty) == 'tuple' and len(vals[1].f) == 1
                        and isinstance(vals[1].f[0], Agg) and vals[1].f[0].ty == b.locals[2]):
                    vals = [vals[0], vals[1].f[0]]
                if len(vals) != b.args and len(vals) == 2:
                    # rust-call ABI: last argument is a tuple
                    last = vals[-1]
                    n = b.args - (len(vals) - 1)
                    if isinstance(last, Agg):
                        vals = list(vals[:-1]) + list(last.f)
                    elif n == 0:
                        vals = list(vals[:-1])
                if len(vals) == b.args:
                    return self.run(inst, vals, st, fr, blk)
        return self.unknown_call(st, fr, blk, inst, vals, atys or [None] * len(vals), dty)

    def unknown_call(self, st, fr, blk, inst, vals, atys, dty):
        name = inst['path'] if inst else '<indirect>'
        if inst is None or not inst['local']:
            self.unknown[name] = self.unknown.get(name, 0) + 1
        if inst is not None and inst.get('panics_doc') and not models_safe(name):
            self.site(fr, 'call ' + name, False, st, 'callee may panic')
        for i, (v, ty) in enumerate(zip(vals, atys)):
            self.havoc_arg(st, fr, blk, v, ty, i)
        r = var((fr.id, blk, 'ret'), dty)
        self.forget(st, r)
        return [(st, self.sym(r, dty))]

    def forget(self, st, r):
        """r is about to be re-created: drop facts about its previous incarnation"""
        hit = [t for t in st.d if r in tvars(t)]
        for t in hit:
            del st.d[t]
        hit2 = [ps for ps in st.l if any(r in tvars(a) for a, _ in ps)]
        for ps in hit2:
            del st.l[ps]
        for k in [k for k in st.s if isinstance(k, tuple) and k[0] in ('d', 'el', 'arc') and any(isinstance(x, T) and r in tvars(x) for x in k[1:])]:
            del st.s[k]
        st._ix = None
        st._dc = {}

    def havoc_arg(self, st, fr, blk, v, ty, tag):
        m = self.mir
        if isinstance(v, Ref):
            if ty is None or (m.tk(ty) in ('ref', 'ptr') and not m.types[ty].get('mut')):
                return
            cur = self.read(st, v.base, v.path)
            to = m.to(ty)
            if isinstance(cur, Vec):
                c = var((fr.id, blk, 'hvc', tag), None)
                n = var((fr.id, blk, 'hvn', tag), m.usize)
                self.forget(st, c), self.forget(st, n)
                st.refine(n, ((0, (1 << 63) - 1),))
                self.write(st, v.base, v.path, Vec(c, ZERO, n, cur.log + (('*',),), cur.ety))
            elif isinstance(cur, Ref):
                self.havoc_arg(st, fr, blk, cur, to, (tag, '*'))
            else:
                r = var((fr.id, blk, 'hv', tag), to)
                self.forget(st, r)
                self.write(st, v.base, v.path, self.sym(r, to))
        elif isinstance(v, SRef) and v.loc is not None:
            if ty is not None and m.tk(ty) == 'ref' and m.types[ty].get('mut'):
                self.havoc_content(st, v.loc)
        elif isinstance(v, Agg):
            fs = m.fields(v.ty, v.var) if isinstance(v.ty, int) else None
            for i, x in enumerate(v.f):
                self.havoc_arg(st, fr, blk, x, fs[i][1] if fs and i < len(fs) else None, (tag, i))


def blkno(v):
    while isinstance(v, tuple):
        v = v[0]
    return v


def m_iterlike(p):
    return '::iter::' in p or p.startswith('std::iter')


def lin_parts_key(d):
    return tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id))


def models_safe(name):
    import models
    return models.SAFE_PANICS.search(name)
