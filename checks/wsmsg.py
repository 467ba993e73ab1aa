"""WebSocket frames and messages."""
from core import *
from spec import *
from reg import prop
from ser import mkstr, enum_of, option, fty, targ
from msg import EXACT
import models

LOW = [x for x in range(256) if x & 15 < 8]
OPN = {0: 'Continuation', 1: 'Text', 2: 'Binary', 8: 'Close', 9: 'Ping', 10: 'Pong'}


def err(ai, s, v):
    return None if is_err(ai.mir, v) else 'accepted'


@prop('C23')
def c23(m, rep):
    """Trace-partitioned summaries of both frame readers over a buffer of symbolic length and content: header bits, payload
    octets (unmasked), octets consumed, and the order limit check - completeness check - copy."""
    for rx, limited in ((r'ws::dataframe::DataFrame::read_dataframe::<', False), (r'ws::dataframe::DataFrame::read_dataframe_with_limit::<', True)):
        f = one(m, rx)
        nm = 'limited' if limited else 'plain'
        c = var(('buf', 'in'))
        n0 = mk('len', (c,))
        st0 = St(m)
        ai0 = AI(m)
        e = [ai0.elem(st0, c, K(i), m.u8) for i in range(64)]
        lim = var(('limit',), m.usize)

        def go(dom1, dom0=D.rng(0, 255), **kw):
            def setup(ai, st):
                st.s[('in',)] = Vec(c, ZERO, n0, (), m.u8)
                st.refine(e[0], dom0)
                st.refine(e[1], dom1)
                st.refine(n0, D.rng(0, 1 << 62))
                ai.events = [('alloc', lambda ai, st, fr, blk, a, b, n: allocs.append((st.copy(), n)))]
            o = dict(merge=False, cap=1500, retcap=1500)
            o.update(kw)
            return run(m, rep, f, [Ref(('in',)), None] + ([lim] if limited else []), setup=setup, **o)
        allocs = []

        def be(i, n):
            return be_term(e[i:i + n])

        def good(hd, ln, masked):
            def o(ai, s, v):
                if not is_ok(m, v):
                    return 'a complete legal frame is refused'
                x = inner(v)
                for nm_, bit in (('finished', 128),):
                    g = scalar(ai, s, fld(ai, s, x, nm_))
                    t = s.copy()
                    for b in (0, 1):
                        t = s.copy()
                        if t.refine(e[0], D.of([q for q in range(256) if bool(q & bit) == bool(b)])) and consistent(t) and not equal(ai, t, g, K(b)):
                            return f'{nm_} is {show(g)} although the bit is {b}'
                r = fld(ai, s, x, 'reserved')
                for j, bit in enumerate((64, 32, 16)):
                    g = ai.elem(s, r, K(j), None)
                    for b in (0, 1):
                        t = s.copy()
                        if t.refine(e[0], D.of([q for q in range(256) if bool(q & bit) == bool(b)])) and consistent(t) and not equal(ai, t, g, K(b)):
                            return f'reserved bit {j} is {show(g) if isinstance(g, T) else g} although it is {b} in the frame'
                opv = fld(ai, s, x, 'opcode')
                for q in range(16):
                    t = s.copy()
                    if not (t.refine(e[0], D.of([z for z in range(256) if z & 15 == q])) and consistent(t)):
                        continue
                    vs = variants_of(ai, t, opv)
                    if vs is None or len(vs) != 1 or q in OPN and vs != [OPN[q]] or q not in OPN and vs[0] in OPN.values():
                        return f'opcode {q} read as {vs}'
                dv = fld(ai, s, x, 'data')
                if not isinstance(dv, Vec):
                    return f'payload {dv!r}'
                if masked is None:
                    if not equal(ai, s, sub(dv.n, dv.p), ln):
                        return f'{show(sub(dv.n, dv.p))} octets of payload, the header announces {show(ln)}'
                    src, off = dv.c, dv.p
                    if dv.log and len(dv.log) == 1 and dv.log[0][0] == 's':
                        src, off = dv.log[0][1].c, dv.log[0][1].s
                    for j in range(3):
                        t = s.copy()
                        if not t.assume(ge0(addk(ln, -(j + 1))), 1):
                            continue
                        g, w = ai.elem(t, src, addk(off, j), m.u8), ai.elem(t, c, K(hd + j), m.u8)
                        if not equal(ai, t, g, w):
                            return f'payload octet {j} is {show(g)}, specified {show(w)}'
                else:
                    got = emitted(ai, s, dv) if dv.log else [ai.elem(s, dv.c, addk(dv.p, j), m.u8) for j in range(s.val(sub(dv.n, dv.p)))]
                    if got is None or len(got) != masked:
                        return f'{None if got is None else len(got)} octets of payload, the header announces {masked}'
                    for j in range(masked):
                        w = xor_(e[hd + j], e[hd - 4 + j % 4])
                        if not equal(ai, s, got[j], w):
                            return f'payload octet {j} is {show(got[j])}, specified {show(w)}'
                _, b2 = models.buf(ai, s, Ref(('in',)))
                if b2 is None or not equal(ai, s, b2.p, add(K(hd), ln)):
                    return f'{show(b2.p) if b2 else None} octets consumed, the frame has {show(add(K(hd), ln))}'
            return o

        def over(hd):
            def o(ai, s, v):
                if not is_err(m, v):
                    return 'a frame above the limit is accepted'
                _, b2 = models.buf(ai, s, Ref(('in',)))
                t = s.copy()
                if b2 is None or t.assume(ge0(addk(b2.p, -(hd + 1))), 1) and consistent(t):
                    return 'payload is consumed before the limit is applied'
            return o
        # unmasked, every length
        ai, ex = go(D.rng(0, 127))
        rep.count('paths', len(ex))
        for ext, l7, rng_ in ((0, D.rng(0, 125), None), (2, D.const(126), (126, 65535)), (8, D.const(127), (65536, (1 << 63) - 1))):
            hd = 2 + ext
            ln = e[1] if ext == 0 else be(2, ext)
            base = [('dom', e[1], l7), ('dom', e[0], D.of(LOW if ext else [x for x in range(256) if x & 15 < 8 or x & 128]))]
            base.append(('dom', n0, D.rng(hd, 1 << 62)))
            if rng_:
                base.append(('dom', ln, D.rng(*rng_)))
            fit = [(ge0(sub(n0, addk(ln, hd))), 1)]
            short = [(ge0(sub(addk(ln, hd - 1), n0)), 1)]
            within = [(ge0(sub(lim, ln)), 1)] if limited else []
            cases = [('complete', base + fit + within, good(hd, ln, None)), ('incomplete', base + short, err)]
            if limited:
                cases.append(('over the limit', base + [(ge0(addk(sub(ln, lim), -1)), 1)], over(hd)))
            check_cases(rep, f'{nm}/{ext * 8 or 7} bit', ai, ex, cases)
        # nothing is reserved for a payload that has not arrived or exceeds the limit
        for st, n in allocs:
            rep.count('allocations')
            t = st.copy()
            bad = n is None or t.assume(ge0(addk(sub(n, n0), -1)), 1) and consistent(t)
            rep.ob(f'{nm}/memory is reserved only for octets that are there', not bad, f'reserves {show(n) if isinstance(n, T) else n} with {show(n0)} octets at hand')
            if limited and not bad:
                t = st.copy()
                bad = t.assume(ge0(addk(sub(n, lim), -1)), 1) and consistent(t)
                rep.ob(f'{nm}/memory is reserved only within the limit', not bad, f'reserves {show(n)} with limit {show(lim)}')
        # masked payloads
        for n in list(range(0, 10)) + [16, 17, 35]:
            first = [0x82, 0x01, 0x90, 0x8a] if n in (0, 3, 5) else [0x82]
            ai, ex = go(D.const(128 + n), D.of(first), unroll=600)
            base = [('dom', e[0], D.of(first))]
            w = [('dom', lim, D.rng(n, 1 << 62))] if limited else []
            cases = [('complete', base + w + [('dom', n0, D.rng(6 + n, 1 << 62))], good(6, K(n), n)),
                     ('incomplete', base + w + [('dom', n0, D.rng(0, 5 + n))], err)]
            if limited and n:
                cases.append(('over the limit', base + [('dom', lim, D.rng(0, n - 1)), ('dom', n0, D.rng(6 + n, 1 << 62))], over(6)))
            check_cases(rep, f'{nm}/masked {n}', ai, ex, cases)
        # what is never a frame
        ai, ex = go(D.rng(0, 127))
        ctl = D.of([x for x in range(256) if x & 15 >= 8])
        check_cases(rep, f'{nm}/refused', ai, ex, [
            ('control frame above 125', [('dom', e[0], ctl), ('dom', e[1], D.rng(126, 127))], err),
            ('fragmented control frame', [('dom', e[0], D.of([x for x in range(256) if x & 15 >= 8 and not x & 128]))], err),
            ('no header', [('dom', n0, D.rng(0, 1))], err)])


# ------------------------------------------------------------------------------------------------- messages
def frame(m, opcode, data, fin=True, rsv=(0, 0, 0)):
    t = type_named(m, r'ws::dataframe::DataFrame$')
    op = enum_of(m, fty(m, t, 'opcode'), opcode) if isinstance(opcode, str) else opcode
    r = [x if isinstance(x, T) else K(x) for x in rsv]
    return struct(m, t, finished=fin if isinstance(fin, T) else K(int(fin)), reserved=Agg(fty(m, t, 'reserved'), 0, r), opcode=op, data=mkstr(m, data))


def seq(m, ty, el):
    return Vec(Agg('seq', 0, el), ZERO, K(len(el)), (), ty)


def text_of(ai, s, v):
    """octet terms of an owned or borrowed string"""
    v = deref(ai, s, v)
    if isinstance(v, Agg) and len(v.f) == 1 and variant(ai.mir, v) in ('Owned', 'Borrowed'):
        v = v.f[0]
    v = deref(ai, s, v)
    sl = models.slc(ai, s, v)
    if sl is None or s.val(sl.len) is None:
        return None
    return [ai.elem(s, sl.c, addk(sl.s, i), ai.mir.u8) for i in range(s.val(sl.len))]


def flat(m, parts):
    out = []
    for p in parts if isinstance(parts, list) else [parts]:
        out += [K(x) for x in p] if isinstance(p, bytes) else [p]
    return out


def owned(m, kind, data=None, code=None):
    t = type_named(m, r'ws::message::OwnedMessage$')
    vi = m.variant_named(t, kind)
    ft = m.fields(t, vi)[0][1]
    if kind == 'Close':
        cd = m.types[ft]['args'][0]
        x = None if code is None else struct(m, cd, status_code=code, reason=mkstr(m, data))
        return Agg(t, vi, [option(m, ft, x)])
    return Agg(t, vi, [mkstr(m, data)])


def borrowed(m, kind, data=b'', code=None):
    t = type_named(m, r'ws::message::Message$')
    return struct(m, t, opcode=enum_of(m, fty(m, t, 'opcode'), kind), cd_status_code=option(m, fty(m, t, 'cd_status_code'), code),
                  payload=enum_of(m, fty(m, t, 'payload'), 'Owned', mkstr(m, data)))


def is_owned(ai, s, v, kind, data, code=None):
    """None, or how v differs from the message of that kind"""
    m = ai.mir
    vs = variants_of(ai, s, v)
    if vs != [kind]:
        return f'becomes {vs}, specified {kind}'
    if kind == 'Close':
        o = inner(v)
        if code is None:
            return None if variants_of(ai, s, o) == ['None'] else 'a close frame without payload carries a status'
        if variants_of(ai, s, o) != ['Some']:
            return 'the close status is lost'
        g = scalar(ai, s, fld(ai, s, inner(o), 'status_code'))
        if not equal(ai, s, g, code):
            return f'close status {show(g)}, specified {show(code)}'
        return same_bytes(ai, s, text_of(ai, s, fld(ai, s, inner(o), 'reason')), flat(m, data))
    return same_bytes(ai, s, text_of(ai, s, inner(v)), flat(m, data))


def is_message(ai, s, v, kind, data, code=None):
    vs = variants_of(ai, s, fld(ai, s, v, 'opcode'))
    if vs != [kind]:
        return f'becomes {vs}, specified {kind}'
    o = fld(ai, s, v, 'cd_status_code')
    if variants_of(ai, s, o) != (['None'] if code is None else ['Some']):
        return f'close status {variants_of(ai, s, o)}'
    if code is not None and not equal(ai, s, scalar(ai, s, inner(o)), code):
        return 'close status changed'
    return same_bytes(ai, s, text_of(ai, s, fld(ai, s, v, 'payload')), flat(ai.mir, data))


@prop('C24')
def c24(m, rep):
    """Byte-exact summaries of message assembly for every sequence of up to three frames of a family (symbolic payload octets,
    reserved bits and close status), of the writer for every message kind, with and without masking key, and of the
    conversions between the two message types."""
    dft = type_named(m, r'ws::dataframe::DataFrame$')
    asm = one(m, r'ws::message::OwnedMessage::from_dataframes::<webparse::ws::dataframe::DataFrame>$')
    b = [var(('p', i), m.u8) for i in range(8)]
    ASCII = D.rng(0, 127)

    def assemble(key, frames, out, doms=()):
        ai, ex = run(m, rep, asm, [seq(m, dft, frames)], setup=lambda ai, st: [st.refine(x, d) for x, d in doms], **EXACT)
        rep.count('assemblies')
        rep.ob(f'assemble/{key}/reachable', bool(ex), 'no path')
        for s, v in ex:
            s.touch()
            s = feasible(s, [])
            if s is None:
                continue
            r = out(ai, s, v)
            rep.ob(f'assemble/{key}', not r, f'{r}; path: {describe(s)}')

    def msg(kind, data, code=None):
        def o(ai, s, v):
            if not is_ok(m, v):
                return 'a legal message is refused'
            return is_owned(ai, s, inner(v), kind, data, code)
        return o
    assemble('no frames', [], err)
    pay = {'empty': [], 'one': [b[0]], 'two': [b[0], b[1]], 'five': [b[0], b[1], b[2], b[3], b[4]]}
    for kind in ('Text', 'Binary', 'Ping', 'Pong'):
        dm = [(x, ASCII) for x in b] if kind == 'Text' else []
        for pn, p in pay.items():
            assemble(f'{kind}/{pn}', [frame(m, kind, p)], msg(kind, p), dm)
        for cut in range(0, 6):
            p = [b[i] for i in range(5)]
            assemble(f'{kind}/two frames/{cut}', [frame(m, kind, p[:cut], False), frame(m, 'Continuation', p[cut:])], msg(kind, p), dm)
        for c1, c2 in ((0, 0), (1, 3), (2, 2), (0, 5)):
            assemble(f'{kind}/three frames/{c1},{c2}', [frame(m, kind, p[:c1], False), frame(m, 'Continuation', p[c1:c2], False), frame(m, 'Continuation', p[c2:])],
                     msg(kind, p), dm)
    # text is checked as a whole, not frame by frame
    for good, t in ((True, 'é€𝄞z'.encode()), (False, b'ab\xff'), (False, b'\xc3'), (False, b'\xed\xa0\x80'), (False, b'a\xc0\xafb'), (False, b'\xf4\x90\x80\x80')):
        for cut in range(0, len(t) + 1):
            assemble(f'Text/UTF-8 {t!r}/{cut}', [frame(m, 'Text', t[:cut], False), frame(m, 'Continuation', t[cut:])], msg('Text', t) if good else err)
    for x in range(256):
        assemble(f'Text/octet {x}', [frame(m, 'Text', bytes([97, x]))], msg('Text', bytes([97, x])) if x < 128 else err)
    # close frames
    code = be_term(b[:2])
    assemble('Close/empty', [frame(m, 'Close', b'')], msg('Close', b'', None))
    assemble('Close/one octet', [frame(m, 'Close', [b[0]])], err)
    for n in (0, 1, 3, 6):
        assemble(f'Close/reason of {n}', [frame(m, 'Close', [b[i] for i in range(2 + n)])], msg('Close', [b[i] for i in range(2, 2 + n)], code), [(x, ASCII) for x in b[2:]])
    assemble('Close/UTF-8 reason', [frame(m, 'Close', [b[0], b[1], 'bé'.encode()])], msg('Close', 'bé'.encode(), code))
    assemble('Close/reason not UTF-8', [frame(m, 'Close', [b[0], b[1], b'x\xfe'])], err)
    # other opcodes, interleaved frames, reserved bits
    opt = fty(m, dft, 'opcode')
    allops = [v['name'] for v in m.variants(opt)]
    rep.ob('opcodes', len(allops) == 16, f'{len(allops)} opcodes')
    for o in allops:
        if o not in ('Text', 'Binary', 'Close', 'Ping', 'Pong'):
            assemble(f'opcode {o}', [frame(m, o, [b[0]])], err)
            assemble(f'opcode {o} fragmented', [frame(m, o, [b[0]], False), frame(m, 'Continuation', b'')], err)
        if o != 'Continuation':
            assemble(f'second frame {o}', [frame(m, 'Binary', [b[0]], False), frame(m, o, [b[1]])], err)
            assemble(f'third frame {o}', [frame(m, 'Binary', [b[0]], False), frame(m, 'Continuation', b'', False), frame(m, o, [b[1]])], err)
    for j in range(3):
        r = [int(i == j) for i in range(3)]
        assemble(f'reserved bit {j}', [frame(m, 'Binary', [b[0]], rsv=r)], err)
        assemble(f'reserved bit {j} later', [frame(m, 'Binary', [b[0]], False), frame(m, 'Continuation', [b[1]], rsv=r)], err)
    rep.floor('assemblies', 300)

    # ---- writing
    KEY = [var(('key', i), m.u8) for i in range(4)]
    OPC = {'Text': 1, 'Binary': 2, 'Close': 8, 'Ping': 9, 'Pong': 10}

    def method(tyname, fn):
        return one(m, rf'<webparse::ws::\w+::{tyname}(<.*>)? as webparse::ws::dataframe::DataFrameable>::{fn}$')

    def wire(first, data, masked):
        n = len(data)
        out = [first, add(K(128 * masked), K(n if n <= 125 else 126 if n <= 65535 else 127))]
        out += [] if n <= 125 else [K(n >> 8), K(n & 255)]
        if masked:
            out += KEY
        return out + [xor_(d, KEY[i % 4]) if masked else d for i, d in enumerate(data)]

    def opt_key(ty, masked):
        at = m.types[ty]['args'][0]
        return option(m, ty, Agg(at, 0, KEY) if masked else None)

    def written(key, tyname, value, first, data):
        wt, sz, tk, fs, wp = (method(tyname, f) for f in ('write_to', 'size', 'take_payload', 'frame_size', 'write_payload'))
        want = flat(m, data)
        for masked in (0, 1):
            k = opt_key(wt['body']['locals'][3], masked)

            def setup(ai, st):
                st.s[('out',)] = Vec(Agg(None, 0, ()), ZERO, ZERO, (), m.u8)
                st.s[('msg',)] = value
            ai, ex = run(m, rep, wt, [Ref(('msg',)), Ref(('out',)), k], setup=setup, **EXACT)
            rep.count('writes')
            rep.ob(f'write/{key}/reachable', bool(ex), 'no path')
            for s, v in ex:
                s.touch()
                if feasible(s, []) is None:
                    continue
                if not rep.ob(f'write/{key}/accepted', is_ok(m, v), 'a legal message is refused'):
                    continue
                w = wire(first, want, masked)
                o = s.s[('out',)]
                got = None if s.val(o.n) is None else [ai.elem(s, o.c, addk(o.p, i), m.u8) for i in range(s.val(o.n))]
                r = same_bytes(ai, s, got, w)
                rep.ob(f'write/{key}/{"masked" if masked else "plain"}', not r, r)
                rep.ob(f'write/{key}/count', equal(ai, s, scalar(ai, s, inner(v)), K(len(w))), f'reports {show(scalar(ai, s, inner(v)))} octets, wrote {len(w)}')
            ai, ex = run(m, rep, fs, [Ref(('msg',)), K(masked)], setup=setup, **EXACT)
            for s, v in ex:
                rep.ob(f'write/{key}/frame_size', equal(ai, s, scalar(ai, s, v), K(len(wire(first, want, masked)))), f'frame_size {show(scalar(ai, s, v))}, written {len(wire(first, want, masked))}')
        ai, ex = run(m, rep, sz, [Ref(('msg',))], setup=setup, **EXACT)
        for s, v in ex:
            rep.ob(f'write/{key}/size', equal(ai, s, scalar(ai, s, v), K(len(want))), f'size {show(scalar(ai, s, v))}, payload {len(want)}')
        ai, ex = run(m, rep, tk, [value], **EXACT)
        for s, v in ex:
            r = same_bytes(ai, s, text_of(ai, s, v), want)
            rep.ob(f'write/{key}/take_payload', not r, r)
    cc = var(('code',), m.u16 if hasattr(m, 'u16') else None)
    hi, lo = None, None
    st0 = St(m)
    ai0 = AI(m)
    st0.refine(cc, D.rng(0, 65535))
    code2 = [byte_of(ai0, st0, cc, 2, 0), byte_of(ai0, st0, cc, 2, 1)]
    long = [bytes([97 + i % 26 for i in range(n)]) for n in (125, 126, 130)]
    pays = [[], [b[0]], [b[i] for i in range(5)]] + [[x] for x in long]
    for kind in OPC:
        ps = pays if kind != 'Close' else []
        if kind in ('Ping', 'Pong'):
            ps = [p for p in ps if len(flat(m, p)) <= 125]
        for p in ps:
            n = len(flat(m, p))
            written(f'OwnedMessage/{kind}/{n}', 'OwnedMessage', owned(m, kind, p), K(128 + OPC[kind]), p)
            written(f'Message/{kind}/{n}', 'Message', borrowed(m, kind, p), K(128 + OPC[kind]), p)
    written('OwnedMessage/Close/none', 'OwnedMessage', owned(m, 'Close'), K(136), [])
    written('Message/Close/none', 'Message', borrowed(m, 'Close'), K(136), [])
    for p in ([], [b[0], b[1]], [long[0][:123]]):
        n = len(flat(m, p))
        for q in (1000, 256, 4999, 0xfeff):
            w = [K(q >> 8), K(q & 255)] + flat(m, p)
            written(f'OwnedMessage/Close/{n}', 'OwnedMessage', owned(m, 'Close', p, K(q)), K(136), w)
            written(f'Message/Close/{n}', 'Message', borrowed(m, 'Close', p, K(q)), K(136), w)
    for op in allops:
        q = m.discr_of(opt, m.variant_named(opt, op))
        for fin in (0, 1):
            for rsv in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
                if q >= 8 and not fin:
                    pass
                first = K(128 * fin + 64 * rsv[0] + 32 * rsv[1] + 16 * rsv[2] + q)
                for p in ([], [b[0], b[1], b[2]]):
                    written(f'DataFrame/{op}/fin {fin}/rsv {rsv}/{len(p)}', 'DataFrame', frame(m, op, p, fin, rsv), first, p)
    for p in ([long[0]], [long[1]], [long[2]]):
        written(f'DataFrame/Binary/{len(p[0])}', 'DataFrame', frame(m, 'Binary', p), K(130), p)
    rep.floor('writes', 200)

    # ---- conversions keep kind, status and payload
    to_owned = one(m, r'<webparse::ws::message::OwnedMessage as std::convert::From<webparse::ws::message::Message<.*>>>::from$')
    to_msg = one(m, r'<webparse::ws::message::Message<.*> as std::convert::From<webparse::ws::message::OwnedMessage>>::from$')
    for kind in OPC:
        for p in ([], [b[0]], [b[0], b[1], b[2]]):
            for code in ((None, cc) if kind == 'Close' else (None,)):
                if kind == 'Close' and code is None and p:
                    continue
                doms = [(x, ASCII) for x in b] + [(cc, D.rng(0, 65535))]
                for nm, f, v0, chk in (('owned', to_owned, borrowed(m, kind, p, code), is_owned), ('message', to_msg, owned(m, kind, p, code), is_message)):
                    ai, ex = run(m, rep, f, [v0], setup=lambda ai, st: [st.refine(x, d) for x, d in doms], **dict(EXACT, lossy_id=False))
                    rep.ob(f'convert/{nm}/{kind}/reachable', bool(ex), 'no path')
                    for s, v in ex:
                        r = chk(ai, s, v, kind, p, code)
                        rep.ob(f'convert/{nm}/{kind}/{len(p)}', not r, r)
                        rep.count('conversions')
    rep.floor('conversions', 20)
    pong = one(m, r'ws::message::Message::<.*>::into_pong$')
    for kind in OPC:
        def setup(ai, st):
            st.s[('msg',)] = borrowed(m, kind, [b[0], b[1]])
        ai, ex = run(m, rep, pong, [Ref(('msg',))], setup=setup, **EXACT)
        for s, v in ex:
            rep.ob(f'into_pong/{kind}', is_ok(m, v) if kind == 'Ping' else is_err(m, v), 'wrong outcome')
            r = is_message(ai, s, s.s[('msg',)], 'Pong' if kind == 'Ping' else kind, [b[0], b[1]])
            rep.ob(f'into_pong/{kind}/kept', not r, r)
