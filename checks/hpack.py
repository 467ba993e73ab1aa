"""HPACK (RFC 7541)."""
from core import *
from spec import *
from text import *
from msg import *
from ser import *
from hdr import lower
from reg import prop

STATIC = [x.split('|') for x in """:authority|
:method|GET
:method|POST
:path|/
:path|/index.html
:scheme|http
:scheme|https
:status|200
:status|204
:status|206
:status|304
:status|400
:status|404
:status|500
accept-charset|
accept-encoding|gzip, deflate
accept-language|
accept-ranges|
accept|
access-control-allow-origin|
age|
allow|
authorization|
cache-control|
content-disposition|
content-encoding|
content-language|
content-length|
content-location|
content-range|
content-type|
cookie|
date|
etag|
expect|
expires|
from|
host|
if-match|
if-modified-since|
if-none-match|
if-range|
if-unmodified-since|
last-modified|
link|
location|
max-forwards|
proxy-authenticate|
proxy-authorization|
range|
referer|
refresh|
retry-after|
server|
set-cookie|
strict-transport-security|
transfer-encoding|
user-agent|
vary|
via|
www-authenticate|""".split('\n')]
STATIC = [(a.encode(), b.encode()) for a, b in STATIC]
# RFC 7541 appendix B: code lengths (A = 5); the codes are the canonical ones, in the order of (length, symbol)
HLEN = [ord(c) - 60 for c in
        'ISXXXXXXXTZXXZXXXXXXXXZXXXXXXXXXBFFHIBDGFFDGDBBBAAABBBBBBBCDKBHF'
        'IBCCCCCCCCCCCCCCCCCCCCCCDCDIOIJBKABABABBBACCBBBABCBAABCCCCCKGJIX'
        'PRPPRRRSRSSSSSTSTTRSTSSSSQRSRSSTRQPRRSSQSRRTQRSSQQRQSRSSPRRRSRRS'
        'VVPORSRUVVVWWVTUOQVWWVWTQQVVXWWWPTPQRQQSRRUUTTVSVWVVWWWWWXWWWWWVZ']


def canonical():
    code, prev, out = 0, 0, [None] * 257
    for i in sorted(range(257), key=lambda i: (HLEN[i], i)):
        code <<= HLEN[i] - prev
        prev = HLEN[i]
        out[i] = format(code, f'0{prev}b')
        code += 1
    assert code == 1 << prev
    return out


HUFF = canonical()
UNHUFF = {c: i for i, c in enumerate(HUFF)}


def huff(b):
    s = ''.join(HUFF[x] for x in b)
    s += '1' * (-len(s) % 8)
    return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))


def unhuff(b):
    """octets of a Huffman coded string; None when it is malformed"""
    out, cur = [], ''
    for bit in ''.join(format(x, '08b') for x in b):
        cur += bit
        k = UNHUFF.get(cur)
        if k == 256:
            return None
        if k is not None:
            out.append(k)
            cur = ''
    return None if len(cur) > 7 or '0' in cur else bytes(out)


class Malformed(Exception):
    pass


class Table:
    def __init__(self, mx=4096):
        self.e, self.max, self.limit = [], mx, mx

    def size(self):
        return sum(len(n) + len(v) + 32 for n, v in self.e)

    def evict(self):
        while self.size() > self.max:
            self.e.pop()

    def add(self, n, v):
        self.e.insert(0, (n, v))
        self.evict()

    def get(self, i):
        if i < 1 or i > 61 + len(self.e):
            raise Malformed()
        return STATIC[i - 1] if i <= 61 else self.e[i - 62]

    def copy(self):
        t = Table()
        t.e, t.max, t.limit = list(self.e), self.max, self.limit
        return t


def ref_int(b, i, p):
    m = (1 << p) - 1
    if i >= len(b):
        raise Malformed()
    v = b[i] & m
    i += 1
    if v < m:
        return v, i
    for k in range(4):
        if i >= len(b):
            raise Malformed()
        v += (b[i] & 127) << (7 * k)
        i += 1
        if b[i - 1] < 128:
            return v, i
    raise Malformed()            # longer than any size or index in use: treated as an error (5.1)


def ref_str(b, i):
    if i >= len(b):
        raise Malformed()
    n, j = ref_int(b, i, 7)
    if j + n > len(b):
        raise Malformed()
    s = bytes(b[j:j + n])
    if b[i] & 128:
        s = unhuff(s)
        if s is None:
            raise Malformed()
    return s, j + n


def ref_block(b, t):
    """fields of a block; updates the table"""
    out, i = [], 0
    while i < len(b):
        x = b[i]
        if x & 128:
            k, i = ref_int(b, i, 7)
            out.append(t.get(k))
        elif x & 64 or not x & 32:
            k, i = ref_int(b, i, 6 if x & 64 else 4)
            if k:
                n = t.get(k)[0]
            else:
                n, i = ref_str(b, i)
            v, i = ref_str(b, i)
            out.append((n, v))
            if x & 64:
                t.add(n, v)
        else:
            k, i = ref_int(b, i, 5)
            if k > t.limit:
                raise Malformed()
            t.max = k
            t.evict()
    return out


def enc_int(v, p, lead):
    m = (1 << p) - 1
    if v < m:
        return bytes([lead | v])
    out = [lead | m]
    v -= m
    while v >= 128:
        out.append(v % 128 + 128)
        v //= 128
    return bytes(out + [v])


def lit(s, h=False):
    s = huff(s) if h else s
    return enc_int(len(s), 7, 128 if h else 0) + s


# ------------------------------------------------------------------ the analysed side
class Prog:
    """one abstract interpreter, calls chained from state to state"""

    def __init__(self, m, rep, **kw):
        o = dict(EXACT)
        o.update(kw)
        self.m, self.rep = m, rep
        self.ai = AI(m, **{k: o.pop(k) for k in ('merge', 'cap', 'retcap', 'unroll')})
        for k, v in o.items():
            setattr(self.ai, k, v)

    def call(self, f, args, st):
        return self.ai.run(f, args, st)

    def one(self, f, args, st):
        r = self.call(f, args, st)
        if len(r) != 1:
            raise LookupError(f"{f['name']}: {len(r)} outcomes on known arguments")
        return r[0]

    def done(self):
        self.rep.took(self.ai)


class Hp:
    """the public HPACK interface"""

    def __init__(self, m, rep, **kw):
        self.m, self.p = m, Prog(m, rep, **kw)
        self.ai = self.p.ai
        HI = r'header_index::HeaderIndex::'
        self.new = one(m, HI + 'new$')
        self.get = one(m, HI + 'get_from_index$')
        self.find = one(m, HI + 'find_header$')
        self.add = one(m, HI + 'add_header$')
        self.size = one(m, HI + 'get_size$')
        self.setmax = one(m, HI + 'set_max_table_size$')
        self.getmax = one(m, HI + 'get_max_table_size$')
        self.tovec = one(m, HI + 'to_vec$')
        self.len = one(m, HI + 'len$')
        self.dec = one(m, r'decoder::Decoder::decode::<algorithm::buf::BinaryMut>$')
        self.decnew = one(m, r'decoder::Decoder::new_index$')
        self.enc = one(m, r'encoder::Encoder::encode_header_into::<algorithm::buf::BinaryMut>$')
        self.encnew = one(m, r'encoder::Encoder::new_index$')
        self.hi = type_named(m, r'header_index::HeaderIndex$')
        self.nt, self.vt = type_named(m, r'name::HeaderName$'), type_named(m, r'value::HeaderValue$')
        self.tab = Ref(('tab',), (('f', None, 0, self.hi),))

    def start(self, mx=None):
        """state with a shared table and a decoder and an encoder on it"""
        s, v = self.p.one(self.new, [], St(self.m))
        s.s[('tab',)] = Agg('RwLock', 0, [v])
        if mx is not None:
            s, _ = self.p.one(self.setmax, [self.tab, mx if isinstance(mx, T) else K(mx)], s)
        s, d = self.p.one(self.decnew, [Ref(('tab',))], s)
        s, e = self.p.one(self.encnew, [Ref(('tab',)), K(16384)], s)
        s.s[('dec',)], s.s[('enc',)] = d, e
        return s

    def decode(self, s, parts):
        s = s.copy()
        s.s[('in',)] = Vec(Agg(None, 0, template(self.m, parts)), ZERO, K(len(template(self.m, parts))), (), self.m.u8)
        return self.p.call(self.dec, [Ref(('dec',)), Ref(('in',))], s)

    def encode(self, s, name, value):
        s.s[('n',)], s.s[('v',)] = name_val(self.m, self.nt, name), name_val(self.m, self.vt, value)
        tup = self.enc['body']['locals'][2]
        return self.p.call(self.enc, [Ref(('enc',)), Agg(tup, 0, [Ref(('n',)), Ref(('v',))]), Ref(('out',))], s)

    def pairs(self, s, v):
        v = deref(self.ai, s, v)
        if not isinstance(v, Vec) or not isinstance(v.c, Agg) or s.val(v.n) is None:
            return ('?', repr(v)[:80])
        out = []
        for e in v.c.f[s.val(v.p):s.val(v.n)]:
            e = deref(self.ai, s, e)
            out.append((name_of(self.ai, s, e.f[0]), name_of(self.ai, s, e.f[1])))
        return out

    def table(self, s):
        """(entries, size, max) of the table"""
        s = s.copy()
        s, v = self.p.one(self.tovec, [self.tab], s)
        e = self.pairs(s, v)
        s, n = self.p.one(self.size, [self.tab], s)
        s, x = self.p.one(self.getmax, [self.tab], s)
        return e, s.val(n), s.val(x)


def agree(h, rep, key, s, parts, doms, ref, fold=False):
    """decode the block in state s (reference table ref) and compare every outcome with the reference decoder"""
    ai = h.ai
    for b, d in doms.items():
        s.refine(b, D.of(sorted(d)))
    ex = h.decode(s, parts)
    seen = set()
    for t, v, env in each(ai, ex, doms):
        seen.add(tuple(env.values()))
        rep.count('inputs')
        blk = fill(parts, env)
        r = ref.copy()
        try:
            want = ref_block(blk, r)
        except Malformed:
            rep.ob(f'{key}/refused', is_err(h.m, v), f'{blk.hex()} is malformed but accepted')
            continue
        if not rep.ob(f'{key}/accepted', is_ok(h.m, v), f'{blk.hex()} is refused: {errname(h.m, v)}'):
            continue
        got = h.pairs(t, inner(v))
        rep.ob(f'{key}/fields', got == want, f'{blk.hex()}: decoded {got}, specified {want}')
        e, n, mx = h.table(t)
        rep.ob(f'{key}/table', e == r.e, f'{blk.hex()}: table holds {e}, specified {r.e}')
        rep.ob(f'{key}/table-size', n == r.size(), f'{blk.hex()}: table size {n}, specified {r.size()}')
        rep.ob(f'{key}/table-max', mx == r.max, f'{blk.hex()}: table maximum {mx}, specified {r.max}')
    n = 1
    for d in doms.values():
        n *= len(d)
    rep.ob(f'{key}/returns', len(seen) == n, f'{n - len(seen)} of {n} blocks reach no return')


@prop('C10')
def c10(m, rep):
    """Abstract summaries of the indexed-field decoder and of the table look-ups against the 61 entries of RFC 7541 appendix A:
    every index octet, every index argument, every name and value in both directions."""
    h = Hp(m, rep)
    ai = h.ai
    b = var(('b', 0), m.u8)
    s0 = h.start()
    agree(h, rep, 'indexed', s0.copy(), [b], {b: set(range(128, 256))}, Table())
    for lead, hi, nm in ((0x40, 0x7f, 'incremental'), (0, 15, 'plain'), (16, 31, 'never')):
        agree(h, rep, f'name/{nm}', s0.copy(), [b, b'\x01z'], {b: set(range(lead + 1, hi)) - {lead + (15 if lead != 0x40 else 63)}}, Table())
    for i in range(15, 66):
        for lead, p in ((0, 4), (16, 4)):
            agree(h, rep, f'name/long', s0.copy(), [enc_int(i, p, lead) + b'\x01z'], {}, Table())
    # look-up by index, any index
    i = var(('idx',), m.usize) if hasattr(m, 'usize') else var(('idx',), h.get['body']['locals'][2])
    n = 0
    for t, v in h.p.call(h.get, [h.tab, i], s0.copy()):
        t.touch()
        d = t.dom(i)
        for k in range(0, 64):
            u = t.copy()
            if not D.has(d, k) or not u.refine(i, D.const(k)) or not consistent(u):
                continue
            n += 1
            if 1 <= k <= 61:
                ok = variant(m, v) == 'Some'
                e = inner(v)
                got = (name_of(ai, u, e.f[0]), name_of(ai, u, e.f[1])) if ok and isinstance(e, Agg) else None
                rep.ob(f'get/{k}', got == STATIC[k - 1], f'entry {k} is {got}, specified {STATIC[k - 1]}')
            else:
                rep.ob(f'get/{k}', variant(m, v) == 'None', f'entry {k} exists in an empty table')
        if d and d[-1][1] > 61:
            u = t.copy()
            if u.refine(i, D.rng(62, 1 << 64)) and consistent(u):
                rep.ob('get/beyond', variant(m, v) == 'None', f'an entry beyond the static table exists in an empty table: {D.show(u.dom(i))}')
    rep.ob('get/all', n >= 64, f'{n} indices covered')
    # look-up by content
    tup = h.find['body']['locals'][2]

    def find(name, value):
        s = s0.copy()
        s.s[('n',)], s.s[('v',)] = name_val(m, h.nt, name), name_val(m, h.vt, value)
        for b_ in syms_of(name, value):
            s.refine(b_, D.rng(0, 255))
        return h.p.call(h.find, [h.tab, Agg(tup, 0, [Ref(('n',)), Ref(('v',))])], s)

    def judge(key, name, value, t, v):
        nm = lower(name)
        full = [k + 1 for k, e in enumerate(STATIC) if e == (nm, value)]
        if variant(m, v) == 'None':
            return rep.ob(f'{key}/exact', not full, f'{name}: {value} is entry {full} but is not found')
        e = inner(v)
        k, whole = t.val(e.f[0]), t.val(e.f[1])
        if k is None or whole is None:
            return rep.ob(f'{key}/determined', False, f'{name}: {value}: {v!r}')
        if whole:
            return rep.ob(f'{key}/exact', k in full, f'{name}: {value} is found as entry {k}, which is {STATIC[k - 1] if 1 <= k <= 61 else None}')
        rep.ob(f'{key}/exact', not full, f'{name}: {value} is entry {full} but only its name is found')
        rep.ob(f'{key}/name', 1 <= k <= 61 and STATIC[k - 1][0] == nm, f'{name} is found as entry {k}, which is {STATIC[k - 1] if 1 <= k <= 61 else None}')
    for nm, val in STATIC:
        for q in (nm, nm.upper() if not nm.startswith(b':') else nm):
            for w in {val, b'', b'x', val + b'x', val[:-1], val.upper(), b'GET', b'200', b'http'}:
                for t, v in find(q, w):
                    rep.count('lookups')
                    judge('find', q, w, t, v)
    for q in (b'x-a', b'accept-', b'ccept', b':statu', b'', b':statuss'):
        for w in (b'', b'GET', b'x'):
            for t, v in find(q, w):
                rep.ob('find/unknown', variant(m, v) == 'None', f'{q} is found')
    h.p.done()


@prop('C11')
def c11(m, rep):
    """Abstract summaries of the Huffman coder against the canonical code of RFC 7541 appendix B: every symbol at every bit offset
    in both directions, every padding, the end-of-string code, and arbitrary octets in each place of short strings."""
    p = Prog(m, rep)
    ai = p.ai
    dnew = one(m, r'huffman::HuffmanDecoder::new$')
    dec = one(m, r'huffman::HuffmanDecoder::decode$')
    enc = one(m, r'huffman::HuffmanEncoder::encode$')
    encl = one(m, r'huffman::HuffmanEncoder::encode_lower$')
    b = var(('b', 0), m.u8)
    ALL = set(range(256))

    def run_(f, parts, doms, meth):
        s = St(m)
        for x, d in doms.items():
            s.refine(x, D.of(sorted(d)))
        args = [mkslice(m, parts)]
        if meth:
            s, v = p.one(dnew, [], s)
            s.s[('d',)] = v
            args = [Ref(('d',))] + args
        yield from each(ai, p.call(f, args, s), doms)

    def decodes(key, parts, doms={}):
        n = 0
        for t, v, env in run_(dec, parts, doms, True):
            n += 1
            rep.count('inputs')
            x = fill(parts, env)
            w = unhuff(x)
            if w is None:
                rep.ob(f'{key}/refused', is_err(m, v), f'{x.hex()} is malformed but decodes')
            elif rep.ob(f'{key}/accepted', is_ok(m, v), f'{x.hex()} is refused'):
                got = const_bytes_of(ai, t, inner(v))
                rep.ob(f'{key}/octets', got == w, f'{x.hex()} decodes to {got}, specified {w}')
        rep.ob(f'{key}/returns', n >= (256 if doms else 1), f'{n} inputs return')

    def encodes(key, parts, doms={}):
        for f, fold, k in ((enc, lambda x: x, 'plain'), (encl, lower, 'lower')):
            n = 0
            for t, v, env in run_(f, parts, doms, False):
                n += 1
                rep.count('inputs')
                x = fill(parts, env)
                got = const_bytes_of(ai, t, v)
                rep.ob(f'{key}/{k}', got == huff(fold(x)), f'{x} is coded as {got and got.hex()}, specified {huff(fold(x)).hex()}')
            rep.ob(f'{key}/{k}/returns', n >= (256 if doms else 1), f'{n} inputs return')
    # symbols whose lengths reach every offset modulo 8
    pre = {}
    for x in (b'', b'0', b'00', b'000', b'0a0a0', b'a0', b'A', b' ', b'?', b'!', b'00a', b'0000', b'Az', b'AAz', b'A0', b'A00', b'|0'):
        pre.setdefault(len(''.join(HUFF[c] for c in x)) % 8, x)
    assert len(pre) == 8
    for off, x in sorted(pre.items()):
        encodes(f'encode/offset{off}', [x, b], {b: ALL})
        encodes(f'encode/offset{off}/then', [x, b, b'0~A'], {b: ALL})
    for sym in range(256):
        for off, x in sorted(pre.items()):
            if rep.tier != 'thorough' and off not in (sym % 8, (sym + 5) % 8):
                continue
            decodes('decode/symbol', [huff(x + bytes([sym]))])
            decodes('decode/symbol then', [huff(x + bytes([sym]) + b'z0')])
    decodes('decode/empty', [b''])
    decodes('decode/octet', [b], {b: ALL})
    for x in (b'\x1c', b'\xff', b'\xfe\x3f', b'\xff\xff', b'\xff\xff\xff'):
        decodes(f'decode/after {x.hex()}', [x, b], {b: ALL})
    for x in (b'\xff', b'\x00', b'\xff\xff\xff'):
        decodes(f'decode/before {x.hex()}', [b, x], {b: ALL})
    # padding: every code followed by each number of pad bits of either kind
    for x in pre.values():
        base = ''.join(HUFF[c] for c in x)
        for n in range(0, 24):
            for pad in ('1' * n, '0' * n, '1' * (n - 1) + '0' if n else '', '0' + '1' * (n - 1) if n else ''):
                s = base + pad
                if len(s) % 8 == 0:
                    decodes('decode/padding', [bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))])
    # end of string
    for x in pre.values():
        s = ''.join(HUFF[c] for c in x) + HUFF[256]
        for tail in ('', HUFF[48], HUFF[0]):
            for fillb in '01':
                t = s + tail
                t += fillb * (-len(t) % 8)
                decodes('decode/end-of-string', [bytes(int(t[i:i + 8], 2) for i in range(0, len(t), 8))])
    p.done()


@prop('C14')
def c14(m, rep):
    """Abstract summaries of the integer writer (any value, every prefix) and of the decoder on blocks whose integer octets are
    all arbitrary, at each of the places an integer occurs, compared octet by octet and value by value with RFC 7541 5.1."""
    # ---- writer
    f = one(m, r'Encoder::encode_integer_into::<algorithm::buf::BinaryMut>$')
    top = (1 << 64) - 1
    for p in range(1, 9):
        mask = (1 << p) - 1
        x = var(('x',), f['body']['locals'][1])
        lead = var(('lead',), m.u8)
        for kind, val, rng in (('short', x, D.rng(0, mask - 1)), ('long', addk(x, mask), D.rng(0, top - mask))):
            if not rng:
                continue

            def setup(ai, st):
                st.s[('out',)] = Vec(Agg(None, 0, []), ZERO, ZERO, (), m.u8)
                st.refine(x, rng)
                st.refine(lead, D.rng(0, 255))
            ai, ex = run(m, rep, f, [val, K(p), lead, Ref(('out',))], setup=setup, **dict(EXACT, unroll=24))
            sizes = set()
            for s, v in ex:
                s.touch()
                if not consistent(s.copy()):
                    continue
                rep.count('writer_paths')
                rep.ob(f'write/{p}/{kind}/accepted', is_ok(m, v), 'a value is refused')
                got = emitted(ai, s, s.s[('out',)])
                if not rep.ob(f'write/{p}/{kind}/determined', got is not None, 'octets not determined'):
                    continue
                hi = mk('and', (lead, K(255 & ~mask)))
                if kind == 'short':
                    want = [mk('or', (hi, x))]
                else:
                    want = [mk('or', (hi, K(mask)))]
                    n = max(1, len(got) - 1)
                    sizes.add(n)
                    dig = lambda i: s.dom(mk('shr', (x, K(7 * i))) if i else x)
                    rep.ob(f'write/{p}/{kind}/shortest', dig(n - 1)[-1][1] <= 127 and (n == 1 or dig(n - 2)[0][0] >= 128), f'{n} continuation octets are not the fewest')
                    for j in range(n):
                        b = mk('and', (mk('shr', (x, K(7 * j))) if j else x, K(127)))
                        want.append(mk('or', (b, K(128))) if j < n - 1 else b)
                e = same_bytes(ai, s, got, want)
                rep.ob(f'write/{p}/{kind}/octets', not e, f'{e} (value {D.show(s.dom(val))})')
            if kind == 'long':
                rep.ob(f'write/{p}/long/all', sizes == set(range(1, 11)), f'lengths {sorted(sizes)}')
    # ---- reader: the index, name index, size and string length places of a block
    h = Hp(m, rep)
    ai = h.ai
    e = [var(('b', i), m.u8) for i in range(8)]
    asked = []

    def ask(ai_, st, fr, blk, inst, vals, dty):
        st.g['asked'] = vals[1]
        return [(st, Agg(dty, m.variant_named(dty, 'None'), []))]
    for nm, p, first in (('index', 7, range(128, 256)), ('name', 6, range(64, 128)), ('name', 4, range(0, 16)), ('name', 4, range(16, 32)), ('size', 5, range(32, 64)), ('length', 7, range(0, 128))):
        mask = (1 << p) - 1
        ai.hooks = {h.get['id']: ask} if nm != 'size' else {}
        ai.hooks[one(m, r'huffman::HuffmanDecoder::decode$')['id']] = lambda ai_, st, fr, blk, inst, vals, dty: [(st, Agg(dty, m.variant_named(dty, 'Ok'), [mkstr(m, b'h')]))]
        lead = [b'\x00'] if nm == 'length' else []
        for n in range(1, 8):
            last = min(n - 1, 4)
            for k in list(range(0, last + 1)) + [6]:
                # k continuation octets complete the integer; k = 6: it does not end within the block or is too long
                if nm == 'size' and k < 6 and k + 1 != n:
                    continue
                key = f'read/{nm}{p}/{n}/{k if k < 6 else "open"}'
                s = h.start(1 << 40)
                for q in e[:n]:
                    s.refine(q, D.rng(0, 255))
                s.refine(e[0], D.of([x for x in first if (x & mask == mask) == (k > 0) and (nm != 'name' or x & mask)]))
                for i in range(1, (last if k == 6 else k - 1) + 1):
                    s.refine(e[i], D.rng(128, 255))
                if 0 < k < 6:
                    s.refine(e[k], D.rng(0, 127))
                want = mk('and', (e[0], K(mask)))
                if 0 < k < 6:
                    want = K(mask)
                    for i in range(1, k + 1):
                        want = add(want, scale(mk('and', (e[i], K(127))), 1 << (7 * (i - 1))))
                if nm == 'length' and k < 6:
                    # strings that do not fit the rest of the block
                    if not s.assume(ge0(addk(want, -(n - k))), 1):
                        continue
                s.g.pop('asked', None)
                hit = 0
                for t, v in h.decode(s, lead + e[:n]):
                    t.touch()
                    u = feasible(t, [])
                    if u is None:
                        continue
                    hit += 1
                    rep.count('reader_paths')
                    got = u.g.get('asked')
                    if k == 6:
                        rep.ob(f'{key}/refused', is_err(m, v), 'an integer that does not end, or ends later than its fifth octet, is accepted')
                        rep.ob(f'{key}/unused', got is None, 'an integer that does not end is used')
                    elif nm in ('index', 'name'):
                        rep.ob(f'{key}/value', isinstance(got, T) and equal(ai, u, got, want), f'read as {show(got) if isinstance(got, T) else got}, specified {show(want)}')
                    elif nm == 'size':
                        if rep.ob(f'{key}/accepted', is_ok(m, v), f'a size update is refused: {errname(m, v)}'):
                            w, x = h.p.one(h.getmax, [h.tab], u.copy())
                            rep.ob(f'{key}/value', isinstance(x, T) and equal(ai, w, x, want), f'read as {show(x) if isinstance(x, T) else x}, specified {show(want)}')
                    else:
                        rep.ob(f'{key}/refused', is_err(m, v), 'a string longer than the rest of the block is accepted')
                rep.ob(f'{key}/paths', hit > 0, 'no analysed path')
    ai.hooks = {}
    h.p.done()


def flow(m, rep, ai, key, base=0):
    """no reachable panic in what was analysed"""
    bad = [(s.fn, s.kind, s.fails[0]) for s in ai.sites.values() if s.fails]
    for fn, kind, why in bad:
        rep.ob(f'{key}/{fn}:{kind}', False, f'may panic: {str(why)[:200]}')
    rep.ob(f'{key}/no panic', not bad, '')


@prop('C12')
def c12(m, rep):
    """Abstract summaries of histories of encoder and decoder calls on one table, with arbitrary octets in names, values and index
    positions and several table sizes: every block the encoder writes is read by the reference decoder of RFC 7541 to the same
    fields, every well-formed block is decoded to the reference's fields, and after each step the table holds the reference's entries."""
    b = var(('b', 0), m.u8)
    ALL = set(range(256))
    NAMEB = set(b"!#$%&'*+-.^_`|~0123456789") | set(range(65, 91)) | set(range(97, 123))
    sizes = [4096, 120, 75, 40, 0]
    # ---- encoder
    hists = {
        'values': [([b'x-a'], [b'v']), ([b'x-a'], [b]), ([b'x-a'], [b'v']), ([b'x-b'], [b'v']), ([b'X-A'], [b'v'])],
        'names': [([b'x-', b], [b'1']), ([b'x-a'], [b'1']), ([b'X-', b], [b'1'])],
        'static': [([b':method'], [b'GET']), ([b':method'], [b'PUT']), ([b':method'], [b'PUT']), ([b'Accept'], [b'*/*']), ([b'accept'], [b'*/*']),
                   ([b':status'], [b'20', b]), ([b'age'], [b'']), ([b'accept-encoding'], [b'gzip, deflate']), ([b'accept-encoding'], [b'gzip'])],
        'evict': [([b'x-a'], [b'1']), ([b'x-b'], [b'22']), ([b'x-c'], [b'333']), ([b'x-a'], [b'1']), ([b'x-c'], [b'333']), ([b'x-d'], [b'z' * 45]), ([b'x-c'], [b'333'])],
        'long': [([b'x-n'], [b'q' * 200]), ([b'n' * 130], [b'v']), ([b'x-n'], [b'q' * 200])],
        'empty': [([b'x'], [b'']), ([b'x'], [b'']), ([b'cookie'], [b'a=b']), ([b'cookie'], [b])],
    }
    def encoder(rep, mx, nm, hist):
        h = Hp(m, rep, unroll_all=True)
        ai = h.ai
        syms = {x: (NAMEB if nm == 'names' else ALL) for n, v in hist for x in syms_of(n, v)}
        s = h.start(mx)
        for x, d in syms.items():
            s.refine(x, D.of(sorted(d)))
        s.s[('out',)] = Vec(Agg(None, 0, []), ZERO, ZERO, (), m.u8)
        states = [s]
        key = f'encode/{nm}/{mx}'
        for step, (n, v) in enumerate(hist):
            nxt = []
            for s in states:
                for t, r in h.encode(s, n, v):
                    rep.ob(f'{key}/accepted', is_ok(m, r), f'step {step}: {errname(m, r)}')
                    nxt.append(t)
            states = nxt
            rep.count('steps')
            seen = set()
            for t, _, env in each(ai, [(s.copy(), None) for s in states], syms):
                rep.count('inputs')
                seen.add(tuple(env.values()))
                out = const_bytes_of(ai, t, ai.read(t, ('out',), ()))
                if not rep.ob(f'{key}/determined', out is not None, f'step {step}, {env}: octets not determined'):
                    continue
                ref = Table(mx)
                sent = [(fill(a, env), fill(c, env)) for a, c in hist[:step + 1]]
                try:
                    got = ref_block(out, ref)
                except Malformed:
                    rep.ob(f'{key}/grammar', False, f'{sent}: writes {out.hex()}, which is malformed')
                    continue
                rep.ob(f'{key}/fields', got == [(lower(a), c) for a, c in sent], f'{sent} is written as {out.hex()}, which reads {got}')
                e, size, _ = h.table(t)
                rep.ob(f'{key}/table', [(lower(a), c) for a, c in e] == ref.e, f'{sent}: encoder table {e}, a decoder of {out.hex()} has {ref.e}')
                rep.ob(f'{key}/table-size', size == ref.size(), f'{sent}: encoder table size {size}, specified {ref.size()}')
            k = 1
            for d in syms.values():
                k *= len(d)
            rep.ob(f'{key}/returns', len(seen) == k, f'step {step}: {k - len(seen)} of {k} histories return nothing')
        flow(m, rep, ai, key)
        h.p.done()
    jobs = [lambda r, mx=mx, nm=nm, hist=hist: encoder(r, mx, nm, hist) for mx in sizes for nm, hist in hists.items()]
    # ---- decoder: earlier blocks, then a block with an arbitrary octet
    A = b'\x40' + lit(b'x-a') + lit(b'1')
    B = b'\x40' + lit(b'x-b', True) + lit(b'two', True)
    C = b'\x40' + lit(b'x-c') + lit(b'3' * 20)
    hist2 = {
        'fresh': [],
        'one': [A], 'two': [A + B], 'three': [A, B, C], 'reused name': [A, b'\x7e\x01z'], 'indexed': [A + b'\xbe\xbe', B + b'\xbf'],
        'resize': [A, B, b'\x3f\x11'], 'resize away': [A, B + b'\x20', C, b'\x3f\x41' + A], 'plain': [b'\x00' + lit(b'x-p') + lit(b'1'), b'\x10' + lit(b'x-p') + lit(b'1'), A],
        'static name': [b'\x44' + lit(b'/x'), b'\x04' + lit(b'/y'), b'\x14' + lit(b'/z', True)],
    }
    tests = {
        'octet': [b], 'indexed': [b, b'\xbe'], 'name index': [b'\x40' + lit(b'k') + lit(b'v'), b, b'\x01z'],
        'value': [A[:-1], b, b'\xbe'], 'never': [b'\x1f', b, b'\x01z'], 'name index long': [b'\x7f', b, b'\x00'], 'resize': [b'\x3f', b, A, b'\xbe'],
        'length': [b'\x40\x01k', b, b'\x41\x42\x43'], 'name length': [b'\x00', b, b'k\x01v'],
    }
    def decoder(rep, mx, hn, blocks):
        h = Hp(m, rep, unroll_all=True)
        s = h.start(mx)
        ref = Table(mx)
        key = f'decode/{mx}/{hn}'
        try:
            for i, blk in enumerate(blocks):
                r = ref.copy()
                agree(h, rep, f'{key}/history', s.copy(), [blk], {}, r)
                ref_block(blk, ref)
                s, _ = h.p.one(h.dec, [Ref(('dec',)), Ref(('in',))], load(h, s, blk))
        except Malformed:
            return
        for tn, parts in tests.items():
            if rep.tier != 'thorough' and (mx != 4096 and tn in ('never', 'length', 'name length', 'value')):
                continue
            agree(h, rep, f'{key}/{tn}', s.copy(), parts, {b: ALL - ({0x81, 0x82, 0x83, 0x84} if 'length' in tn else set())}, ref)
        flow(m, rep, h.ai, key)
        h.p.done()
    jobs += [lambda r, mx=mx, hn=hn, blocks=blocks: decoder(r, mx, hn, blocks)
             for mx in ((4096, 75, 40) if rep.tier != 'thorough' else sizes) for hn, blocks in hist2.items()]
    def any_field(rep):
        """one encoder step for an arbitrary field and look-up result: the encoder's table grows exactly when the octets tell the decoder to"""
        us = next(k for k, x in m.types.items() if x.get('k') == 'uint' and x.get('n') == 'Usize')
        for kind in ('none', 'name', 'field'):
            for big in (0, 1):
                h = Hp(m, rep, unroll_all=False, unroll=24)
                ai = h.ai
                s = h.start(4096)
                idx, nc, vc = var(('idx',), us), var(('buf', 'n')), var(('buf', 'v'))
                for nm, ty, c in (('n', h.nt, nc), ('v', h.vt, vc)):
                    s.s[(nm,)] = Agg(ty, m.variant_named(ty, 'Value'), [Vec(c, ZERO, mk('len', (c,)), (), m.u8)])
                    s.refine(mk('len', (c,)), D.rng(0, 1 << 32))
                s.refine(idx, D.rng(1, 1 << 20))
                s.s[('out',)] = Vec(Agg(None, 0, []), ZERO, ZERO, (), m.u8)

                def find(ai_, st, fr, blk, inst, vals, dty):
                    if kind == 'none':
                        return [(st, Agg(dty, m.variant_named(dty, 'None'), []))]
                    o = m.variant_named(dty, 'Some')
                    return [(st, Agg(dty, o, [Agg(m.fields(dty, o)[0][1], 0, [idx, K(int(kind == 'field'))])]))]

                def grow(ai_, st, fr, blk, inst, vals, dty):
                    st.g['added'] = st.g.get('added', ()) + ((deref(ai_, st, vals[1]), deref(ai_, st, vals[2])),)
                    return [(st, UNIT)]

                def coded(ai_, st, fr, blk, inst, vals, dty):
                    c = var(('coded', blk, inst['id']))
                    st.refine(mk('len', (c,)), D.rng(127, 1 << 32) if big else D.rng(0, 126))
                    return [(st, Vec(c, ZERO, mk('len', (c,)), (), m.u8))]
                ai.hooks = {h.find['id']: find, h.add['id']: grow}
                for nm in ('encode', 'encode_lower'):
                    ai.hooks[one(m, rf'huffman::HuffmanEncoder::{nm}$')['id']] = coded
                tup = h.enc['body']['locals'][2]
                key = f'encode/any/{kind}'
                hit = 0
                for t, r in h.p.call(h.enc, [Ref(('enc',)), Agg(tup, 0, [Ref(('n',)), Ref(('v',))]), Ref(('out',))], s):
                    t.touch()
                    if not consistent(t.copy()):
                        continue
                    hit += 1
                    rep.count('encoder_steps')
                    rep.ob(f'{key}/accepted', is_ok(m, r), errname(m, r))
                    first = emitted(ai, t, t.s[('out',)].log[:1])
                    first = first[0] if first else None
                    d = t.dom(first) if isinstance(first, T) else ((0, 255),)
                    says = None if not first else True if not D.diff(d, D.rng(64, 127)) else False if not D.inter(d, D.rng(64, 127)) else None
                    if not rep.ob(f'{key}/determined', says is not None, f'the representation written is not determined: {first}'):
                        continue
                    add_ = t.g.get('added', ())
                    rep.ob(f'{key}/grows', len(add_) == int(says), f'the octets {"announce" if says else "do not announce"} an entry, {len(add_)} are added to the table; {describe(t)}')
                    if add_ and says:
                        ok = all(isinstance(x, Agg) and isinstance(x.f[0], (Vec, SRef)) and x.f[0].c == c for x, c in zip(add_[0], (nc, vc)))
                        rep.ob(f'{key}/entry', ok, f'the entry added is {add_[0]}')
                rep.ob(f'{key}/paths', hit > 0, 'no analysed path')
                h.p.done()
    jobs += [any_field]
    def lengths(rep, L):
        """long values: the decoder keeps the entry and reads the reference to it"""
        for k in L:
            h = Hp(m, rep, unroll_all=True)
            blk = b'\x40' + lit(b'x-l') + lit(b'q' * k)
            agree(h, rep, 'decode/long', h.start(4096), [blk + (b'\xbe' if k + 35 <= 4096 else b'')], {}, Table(4096))
            agree(h, rep, 'decode/long/static name', h.start(4096), [b'\x41' + lit(b'q' * k) + (b'\xbe' if k + 42 <= 4096 else b'')], {}, Table(4096))
            h.p.done()
    jobs += [lambda r, L=L: lengths(r, L) for L in ((126, 127, 128, 254), (255, 256, 257), (511, 512, 513), (1000, 1024), (2048,), (4000,), (4054, 4055, 4061, 4062))]
    par(rep, jobs)


def load(h, s, blk):
    s = s.copy()
    s.s[('in',)] = Vec(Agg(None, 0, template(h.m, [blk])), ZERO, K(len(blk)), (), h.m.u8)
    return s


@prop('C13')
def c13(m, rep):
    """Abstract summaries of table operations with names and values of arbitrary length and an arbitrary maximum, over tables of up
    to three (thorough: four) entries: exact size, first-in first-out eviction of as few entries as needed, index order; size updates
    in a block are bounded by the agreed maximum."""
    ut = one(m, r'HeaderIndex::get_size$')['body']['locals'][0]
    depth = 4 if rep.tier == 'thorough' else 3
    BIG = D.rng(0, 1 << 40)

    def content(h, s):
        v = deref(h.ai, s, fld_table(h, s))
        return v

    def fld_table(h, s):
        s2, v = h.p.one(h.tovec, [h.tab], s.copy())
        return v

    def entry(i):
        nc, vc = var(('buf', f'n{i}')), var(('buf', f'v{i}'))
        return (nc, mk('len', (nc,))), (vc, mk('len', (vc,)))

    def who(h, s):
        """entry numbers in the table, newest first; None when they cannot be told"""
        v = fld_table(h, s)
        if not isinstance(v, Vec) or not isinstance(v.c, Agg):
            return None
        out = []
        for e in v.c.f:
            e = deref(h.ai, s, e)
            ids = []
            for x, p in ((e.f[0], 'n'), (e.f[1], 'v')):
                y = inner(x)
                c = y.c if isinstance(y, Vec) else None
                if not (isinstance(c, T) and c.op == 'v' and isinstance(c.args[0], tuple) and c.args[0][0] == 'buf' and c.args[0][1][0] == p):
                    return None
                if not (s.val(y.p) == 0 and y.n is mk('len', (c,))):
                    return None
                ids.append(int(c.args[0][1][1:]))
            if ids[0] != ids[1]:
                return None
            out.append(ids[0])
        return out

    def total(ids):
        t = ZERO
        for i in ids:
            (_, a), (_, b_) = entry(i)
            t = add(add(add(t, a), b_), K(32))
        return t

    def step(h, key, s, t, before, offered, mx):
        """one operation took state s (table before) to t; offered: what it would hold without a limit"""
        rep.count('steps')
        got = who(h, t)
        if not rep.ob(f'{key}/entries', got is not None and got == offered[:len(got)], f'table {got}, specified the newest of {offered}'):
            return None
        _, n = h.p.one(h.size, [h.tab], t.copy())
        rep.ob(f'{key}/size', isinstance(n, T) and equal(h.ai, t, n, total(got)), f'size {show(n) if isinstance(n, T) else n}, specified {show(total(got))}')
        u = feasible(t, [(le(total(got), mx), 0)])
        rep.ob(f'{key}/bound', u is None, f'the size may exceed the maximum: {got}')
        if len(got) < len(offered):
            u = feasible(t, [(le(total(offered[:len(got) + 1]), mx), 1)])
            rep.ob(f'{key}/eviction', u is None, f'entry {offered[len(got)]} is evicted although it fits')
        _, ln = h.p.one(h.len, [h.tab], t.copy())
        rep.ob(f'{key}/count', t.val(ln) == len(got), f'{len(got)} entries, reports {show(ln)}')
        _, x = h.p.one(h.getmax, [h.tab], t.copy())
        rep.ob(f'{key}/maximum', isinstance(x, T) and equal(h.ai, t, x, mx), f'maximum {show(x) if isinstance(x, T) else x}, specified {show(mx)}')
        return got
    h = Hp(m, rep, unroll_all=True, unroll=40)
    M, M2 = var(('M',), ut), var(('M2',), ut)
    s = h.start()
    s.refine(M, BIG)
    s.refine(M2, BIG)
    s, _ = h.p.one(h.setmax, [h.tab, M], s)
    states = [(s, [])]
    for i in range(depth):
        (nc, nn), (vc, vn) = entry(i)
        nxt = []
        for s, ids in states:
            for q in (nn, vn):
                s.refine(q, BIG)
            name = enum_of(m, h.nt, 'Value', Vec(nc, ZERO, nn, (), m.u8))
            value = enum_of(m, h.vt, 'Value', Vec(vc, ZERO, vn, (), m.u8))
            res = h.p.call(h.add, [h.tab, name, value], s.copy())
            for t, _ in res:
                if feasible(t, []) is None:
                    continue
                g = step(h, f'add/{i}', s, t, ids, [i] + ids, M)
                if g is not None:
                    nxt.append((t, g))
        states = nxt
    rep.ob('add/reach', {len(g) for _, g in states} == set(range(depth + 1)), f'histories end with {sorted({len(g) for _, g in states})} entries')
    for s, ids in states:
        # look-up order
        for j, i in enumerate(ids):
            for t, v in h.p.call(h.get, [h.tab, K(62 + j)], s.copy()):
                ok = variant(m, v) == 'Some'
                c = inner(deref(h.ai, t, inner(inner(v), 1))) if ok and isinstance(inner(v), Agg) else None
                rep.ob('index/order', isinstance(c, Vec) and c.c is entry(i)[1][0], f'index {62 + j} is not the entry added {j} before the newest')
        for t, v in h.p.call(h.get, [h.tab, K(62 + len(ids))], s.copy()):
            rep.ob('index/end', variant(m, v) == 'None', f'index {62 + len(ids)} exists in a table of {len(ids)}')
        for nm, f in (('limit', h.setmax),):
            for t, _ in h.p.call(f, [h.tab, M2], s.copy()):
                if feasible(t, []) is not None:
                    step(h, f'{nm}/{len(ids)}', s, t, ids, ids, M2)
        # a size update inside a block: 5-bit prefix then two arbitrary octets
        b0, b1 = var(('b', 0), m.u8), var(('b', 1), m.u8)
        u = s.copy()
        u.refine(b0, D.rng(128, 255))
        u.refine(b1, D.rng(0, 127))
        want = add(add(K(31), mk('and', (b0, K(127)))), scale(mk('and', (b1, K(127))), 128))
        want = simp(u, want)
        hit = set()
        for t, v in h.decode(u, [b'\x3f', b0, b1]):
            if feasible(t, []) is None:
                continue
            if is_ok(m, v):
                hit.add('ok')
                rep.ob('update/bounded', feasible(t, [(le(want, M), 0)]) is None, 'a size update above the agreed maximum is applied')
                step(h, f'update/{len(ids)}', s, t, ids, ids, want)
            else:
                hit.add('err')
                rep.ob('update/refused', feasible(t, [(le(want, M), 1)]) is None, 'a size update within the agreed maximum is refused')
        rep.ob('update/reach', hit == {'ok', 'err'}, f'size updates end {sorted(hit)}')
    flow(m, rep, h.ai, 'table')
    h.p.done()
    rep.floor('steps', 40)
