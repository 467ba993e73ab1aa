"""Loader for the exported MIR + type helpers + constant decoding."""
import json, re
from term import *
import dom as D

BITS = {'U8': 8, 'U16': 16, 'U32': 32, 'U64': 64, 'U128': 128, 'Usize': 64,
        'I8': 8, 'I16': 16, 'I32': 32, 'I64': 64, 'I128': 128, 'Isize': 64}


class Agg:
    """struct / tuple / enum variant / array / closure value"""
    __slots__ = ('ty', 'var', 'f', 'sk', 'hh')

    def __init__(self, ty, var, f):
        self.ty, self.var, self.f = ty, var, tuple(f)
        self.sk = None
        self.hh = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Agg) and self.ty == o.ty and self.var == o.var and self.f == o.f)

    def __hash__(self):
        if self.hh is None:
            self.hh = hash((self.ty, self.var, self.f))
        return self.hh

    def __repr__(self):
        return f'<{self.ty}#{self.var} {list(self.f)!r}>'


class Ref:
    __slots__ = ('base', 'path')

    def __init__(self, base, path=()):
        self.base, self.path = base, tuple(path)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.base == o.base and self.path == o.path

    def __hash__(self):
        return hash((self.base, self.path))

    def __repr__(self):
        return f'&{self.base}{list(self.path) if self.path else ""}'


class SRef:
    """slice reference: window [s,e) of content c; loc = place owning the content when mutable"""
    __slots__ = ('c', 's', 'e', 'loc', 'ety', 'src')

    def __init__(self, c, s, e, loc=None, ety=None, src=None):
        self.c, self.s, self.e, self.loc, self.ety = c, s, e, loc, ety
        self.src = src

    def __eq__(self, o):
        return isinstance(o, SRef) and self.c == o.c and self.s is o.s and self.e is o.e and self.loc == o.loc and self.src == o.src

    def __hash__(self):
        return hash((self.c, self.s, self.e))

    def __repr__(self):
        return f'S[{self.c!r}]({self.s!r}..{self.e!r})'

    @property
    def len(self):
        return sub(self.e, self.s)


class Fn:
    __slots__ = ('inst',)

    def __init__(self, inst):
        self.inst = inst

    def __eq__(self, o):
        return isinstance(o, Fn) and self.inst == o.inst

    def __hash__(self):
        return hash(('fn', self.inst))

    def __repr__(self):
        return f'fn{self.inst}'


class Vec:
    """owned growable sequence (Vec/String/Box<[T]>/BinaryMut...): content, read pos, length end, log of appended items"""
    __slots__ = ('c', 'p', 'n', 'log', 'ety')

    def __init__(self, c, p, n, log=(), ety=None):
        self.c, self.p, self.n, self.log, self.ety = c, p, n, log, ety

    def __eq__(self, o):
        return isinstance(o, Vec) and self.c == o.c and self.p is o.p and self.n is o.n and self.log == o.log

    def __hash__(self):
        return hash((self.c, self.p, self.n))

    def __repr__(self):
        return f'Vec[{self.c!r}]({self.p!r}..{self.n!r}){list(self.log) if self.log else ""}'


UNIT = Agg('()', 0, ())


class Mir:
    def __init__(self, path):
        m = json.load(open(path))
        self.raw = m
        self.I = {i['id']: i for i in m['insts']}
        self.types = {int(k): v for k, v in m['types'].items()}
        self.allocs = {int(k): v for k, v in m['allocs'].items()}
        self.spans = {int(k): v for k, v in m['spans'].items()}
        self.roots = m['roots']
        self.statics, self.consts = m['statics'], m['consts']
        self.uninst = m['uninstantiated']
        self._cc = {}
        self._tk = {}
        self.by_path = {}
        for i in m['insts']:
            self.by_path.setdefault(i['path'], []).append(i)
        self.tyname = {k: v.get('name', '?') for k, v in self.types.items()}
        self.u8 = next((k for k, v in self.types.items() if v.get('k') == 'uint' and v.get('n') == 'U8'), None)
        self.usize = next((k for k, v in self.types.items() if v.get('k') == 'uint' and v.get('n') == 'Usize'), None)
        self.boolt = next((k for k, v in self.types.items() if v.get('k') == 'bool'), None)

    def find(self, rx, local=True, body=True):
        r = re.compile(rx)
        return [i for i in self.I.values() if r.search(i['name']) and (i['local'] or not local) and ('body' in i or not body)]

    def one(self, rx, **kw):
        l = self.find(rx, **kw)
        if len(l) != 1:
            raise LookupError(f'anchor {rx!r}: {len(l)} matches: ' + '; '.join(i['name'] for i in l[:6]))
        return l[0]

    # ---- types
    def tk(self, ty):
        t = self.types.get(ty)
        return t.get('k') if t else None

    def bits(self, ty):
        """(bits, signed) of an integer-like type or None"""
        r = self._tk.get(ty)
        if r is None:
            t = self.types.get(ty, {})
            k = t.get('k')
            if k == 'uint':
                r = (BITS[t['n']], False)
            elif k == 'int':
                r = (BITS[t['n']], True)
            elif k == 'bool':
                r = (1, False)
            elif k == 'char':
                r = (21, False)
            else:
                r = ()
            self._tk[ty] = r
        return r or None

    def trange(self, ty):
        t = self.types.get(ty, {})
        k = t.get('k')
        if k == 'char':
            return ((0, 0xd7ff), (0xe000, 0x10ffff))
        b = self.bits(ty)
        if b is None:
            return None
        n, s = b
        return ((-(1 << (n - 1)), (1 << (n - 1)) - 1),) if s else ((0, (1 << n) - 1),)

    def path(self, ty):
        return self.types.get(ty, {}).get('path', '')

    def name(self, ty):
        return self.types.get(ty, {}).get('name', '?')

    def variants(self, ty):
        return self.types.get(ty, {}).get('variants')

    def is_enum(self, ty):
        return self.types.get(ty, {}).get('kind') == 'Enum'

    def discr_of(self, ty, v):
        vs = self.variants(ty)
        return int(vs[v]['discr']) if vs and vs[v].get('discr') is not None else v

    def variant_of_discr(self, ty, d):
        for i, v in enumerate(self.variants(ty) or []):
            if int(v['discr']) == d:
                return i
        return None

    def discr_dom(self, ty):
        vs = self.variants(ty)
        if not vs or not self.is_enum(ty):
            return None
        return D.of([int(v['discr']) for v in vs if v.get('discr') is not None])

    def variant_named(self, ty, name):
        for i, v in enumerate(self.variants(ty) or []):
            if v['name'] == name:
                return i
        raise LookupError(f'{self.name(ty)}::{name}')

    def fields(self, ty, var):
        """[(name, ty)] of a struct/tuple/enum variant"""
        t = self.types.get(ty, {})
        k = t.get('k')
        if k == 'adt':
            vs = t.get('variants') or []
            return vs[var or 0]['fields'] if vs else []
        if k == 'tuple':
            return [[str(i), e] for i, e in enumerate(t['elems'])]
        if k == 'closure':
            return [[str(i), e] for i, e in enumerate(t.get('upvars') or [])]
        return None

    def to(self, ty):
        t = self.types.get(ty, {})
        return t.get('to')

    def size(self, ty):
        l = self.types.get(ty, {}).get('layout')
        return l['size']['num_bits'] // 8 if l and l.get('size') else None

    # ---- constants
    def const(self, c):
        key = json.dumps(c, sort_keys=True)
        v = self._cc.get(key)
        if v is None:
            v = self._const(c)
            self._cc[key] = v
        return v

    def _const(self, c):
        ty = c['ty']
        if c.get('z'):
            return self.zst(ty)
        if c.get('a') is not None:
            a = c['a']
            mem = bytes(int(a['hex'][i:i + 2], 16) if a['hex'][i:i + 2].strip('_') and '_' not in a['hex'][i:i + 2] else 0
                        for i in range(0, len(a['hex']), 2))
            ptrs = {o: p for o, p in a['ptrs']}
            return self.decode(mem, ptrs, 0, ty)
        return var(('uneval', ty), ty)

    def zst(self, ty):
        t = self.types.get(ty, {})
        k = t.get('k')
        if k == 'fndef':
            return Fn(t.get('inst'))
        if k == 'closure':
            return Agg(('clo', t.get('inst')), 0, ())
        if k == 'tuple':
            return Agg(ty, 0, [self.zst(e) for e in t['elems']]) if t['elems'] else UNIT
        if k == 'adt' and t.get('variants') and len(t['variants']) == 1:
            return Agg(ty, 0, [self.zst(f[1]) for f in t['variants'][0]['fields']])
        if k == 'array':
            return Agg(ty, 0, [])
        return UNIT

    def alloc_mem(self, aid):
        al = self.allocs.get(aid)
        if not al:
            return None
        if al.get('k') == 'mem' or 'a' in al:
            a = al['a']
        elif al.get('init'):
            a = al['init']
            if isinstance(a, dict) and 'a' in a:
                a = a['a']
        else:
            return None
        h = a['hex']
        mem = bytes(int(h[i:i + 2], 16) if '_' not in h[i:i + 2] else 0 for i in range(0, len(h), 2))
        return mem, {o: p for o, p in a['ptrs']}

    def decode(self, mem, ptrs, off, ty, depth=0):
        t = self.types.get(ty, {})
        k = t.get('k')
        if depth > 12:
            return var(('deep', ty), ty)
        if k == 'pat' and self.tk(t['elem']) == 'uint':
            return self.decode(mem, ptrs, off, t['elem'], depth + 1)
        if k in ('uint', 'int', 'bool', 'char'):
            n = self.size(ty)
            v = int.from_bytes(mem[off:off + n], 'little')
            b = self.bits(ty)
            if b[1]:
                v = wrap(v, b[0], True)
            return K(v)
        if k == 'fndef' or k == 'closure':
            return self.zst(ty)
        if k in ('ref', 'ptr'):
            to = t['to']
            tt = self.tk(to)
            if off not in ptrs:
                n = int.from_bytes(mem[off:off + 8], 'little')
                if tt in ('str', 'slice') :
                    ln = int.from_bytes(mem[off + 8:off + 16], 'little')
                    if ln == 0:
                        return SRef(mk('bytes', (b'',)), ZERO, ZERO)
                if self.size(to) == 0 and tt not in ('slice', 'str', 'dyn'):
                    return Ref(('zst', to))
                return var(('rawptr', ty, n), ty)
            aid = ptrs[off]
            delta = int.from_bytes(mem[off:off + 8], 'little')
            al = self.allocs.get(aid, {})
            if tt in ('str', 'slice'):
                ln = int.from_bytes(mem[off + 8:off + 16], 'little')
                am = self.alloc_mem(aid)
                ety = self.u8 if tt == 'str' else t.get('elem') or self.types[to].get('elem')
                if am is None:
                    return var(('alloc', aid, ty), ty)
                c = self.decode_seq(am[0], am[1], delta, ety, ln, depth)
                return SRef(c, ZERO, K(ln), None, ety)
            if al.get('k') == 'fn':
                return Fn(al.get('inst'))
            if tt == 'dyn':
                return var(('dynconst', aid), ty)
            return Ref(('alloc', aid, delta, to))
        if k == 'fnptr':
            if off in ptrs:
                al = self.allocs.get(ptrs[off], {})
                if al.get('inst') is not None:
                    return Fn(al['inst'])
            return var(('fnptr', off), ty)
        if k == 'array':
            return self.decode_seq(mem, ptrs, off, t['elem'], t['len'], depth, arr=ty)
        if k == 'tuple':
            offs = self.offsets(t['layout']['fields'], len(t['elems']))
            return Agg(ty, 0, [self.decode(mem, ptrs, off + o, e, depth + 1) for o, e in zip(offs, t['elems'])])
        if k == 'adt':
            vs = t.get('variants') or []
            lay = t.get('layout')
            if not lay:
                return var(('nolayout', ty), ty)
            V = lay['variants']
            if t['kind'] == 'Struct':
                offs = self.offsets(lay['fields'], len(vs[0]['fields']))
                return Agg(ty, 0, [self.decode(mem, ptrs, off + o, f[1], depth + 1) for o, f in zip(offs, vs[0]['fields'])])
            if t['kind'] == 'Enum':
                if 'Single' in V:
                    vi = V['Single']['index']
                    vi = vi if isinstance(vi, int) else 0
                    offs = self.offsets(lay['fields'], len(vs[vi]['fields']))
                elif 'Multiple' in V:
                    M = V['Multiple']
                    tag = M['tag'].get('Initialized') or M['tag'].get('Union')
                    prim = tag['value']
                    n = 8
                    if 'Int' in prim:
                        n = {'I8': 1, 'I16': 2, 'I32': 4, 'I64': 8, 'I128': 16}[prim['Int']['length']]
                    toff = self.offsets(lay['fields'], 1)[0]
                    raw = int.from_bytes(mem[off + toff:off + toff + n], 'little')
                    isptr = (off + toff) in ptrs
                    enc = M['tag_encoding']
                    if enc == 'Direct':
                        vi = None
                        for i, v in enumerate(vs):
                            if int(v['discr']) & mask(8 * n) == raw:
                                vi = i
                        if vi is None:
                            return var(('badtag', ty, raw), ty)
                    else:
                        nn = enc['Niche']
                        st, en = nn['niche_variants']['start'], nn['niche_variants']['end']
                        rel = (raw - nn['niche_start']) & mask(8 * n)
                        if isptr:
                            vi = nn['untagged_variant']
                        elif rel <= en - st:
                            vi = st + rel
                        else:
                            vi = nn['untagged_variant']
                    offs = [o['num_bits'] // 8 for o in M['variants'][vi]['offsets']]
                else:
                    return var(('emptyenum', ty), ty)
                fs = vs[vi]['fields']
                return Agg(ty, vi, [self.decode(mem, ptrs, off + o, f[1], depth + 1) for o, f in zip(offs, fs)])
        return var(('const', ty, off, mem[off:off + (self.size(ty) or 0)]), ty)

    def offsets(self, f, n):
        if f == 'Primitive':
            return [0] * n
        if 'Arbitrary' in f:
            return [o['num_bits'] // 8 for o in f['Arbitrary']['offsets']]
        return [0] * n

    def decode_seq(self, mem, ptrs, off, ety, n, depth=0, arr=None):
        if self.tk(ety) == 'uint' and self.bits(ety)[0] == 8:
            return mk('bytes', (mem[off:off + n],))
        sz = self.size(ety)
        vals = [self.decode(mem, ptrs, off + i * sz, ety, depth + 1) for i in range(n)]
        if all(isk(v) for v in vals):
            return mk('carr', (tuple(v.args[0] for v in vals),))
        return Agg(arr, 0, vals)

    def alloc_value(self, aid, delta, ty):
        am = self.alloc_mem(aid)
        if am is None:
            return None
        return self.decode(am[0], am[1], delta, ty)

    def static_value(self, name_rx):
        l = [s for s in self.statics if re.search(name_rx, s['name'])]
        if len(l) != 1:
            raise LookupError(f'static {name_rx!r}: {len(l)} matches')
        s = l[0]
        return self._const({'ty': s['ty'], 'a': s['init'].get('a', s['init']) if isinstance(s['init'], dict) and 'hex' not in s['init'] else s['init']})

    def const_value(self, name_rx):
        l = [s for s in self.consts if re.search(name_rx, s['name'])]
        if len(l) != 1:
            raise LookupError(f'const {name_rx!r}: {len(l)} matches')
        s = l[0]
        i = s['init']
        return self._const({'ty': s['ty'], 'a': i if 'hex' in i else i.get('a')} | ({'z': 1} if i.get('z') else {}))

    def span(self, sid):
        s = self.spans.get(sid)
        return f'{s[0]}:{s[1]}' if s else '?'
