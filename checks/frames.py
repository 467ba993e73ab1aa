"""HTTP/2 frame dispatch and header lists."""
from core import *
from spec import *
from reg import prop
import models
from h2 import KINDS, U31, hparts, err
from ser import mkstr, name_val
from msg import EXACT

ANY = D.rng(0, 1 << 62)
NZ = D.rng(1, U31)


def stub_decoder(m, pairs, box):
    """hooks for the public decoder entry points: the block handed over is recorded and answered with the given pairs"""
    hooks = {}

    def seen(ai, st, v):
        r, b = models.buf(ai, st, v)
        if b is None:
            raise LookupError('the header block is not a buffer')
        st.g['block'] = b
        models.setv(ai, st, r, Vec(b.c, b.n, b.n, b.log, b.elt) if hasattr(b, 'elt') else Vec(b.c, b.n, b.n, b.log, m.u8))

    def decode(ai, st, fr, blk, inst, vals, dty):
        seen(ai, st, vals[1])
        st.g['decodes'] = st.g.get('decodes', 0) + 1
        vt = m.types[dty]['args'][0]
        tup = m.types[vt]['args'][0]
        nt, vty = m.types[tup]['args'] if m.types[tup].get('args') else [t for _, t in m.fields(tup, 0)]
        el = [Agg(tup, 0, [name_val(m, nt, n), name_val(m, vty, v)]) for n, v in pairs]
        return [(st, Agg(dty, m.variant_named(dty, 'Ok'), [Vec(Agg('seq', 0, el), ZERO, K(len(el)), (), tup)]))]
    for i in m.find(r'hpack::decoder::Decoder::decode::<'):
        if '{closure' not in i['name']:
            hooks[i['id']] = decode
    return hooks


def parse(m, rep, kind, pairs=(), limit=None, **kw):
    f = one(m, r'frame::frame::Frame::<.*>::parse$')
    ai0 = AI(m)
    c = var(('buf', 'in'))
    ln = mk('len', (c,))
    hty = type_named(m, r'frame::FrameHeader$')
    kt = dict(m.fields(hty, 0))['kind']
    h = struct(m, hty, kind=Agg(kt, m.variant_named(kt, kind), [var(('kindbyte',), m.u8)] if kind == 'Unregistered' and m.fields(kt, m.variant_named(kt, kind)) else []))
    st0 = St(m)
    i, fl, hl = hparts(ai0, st0, h)
    b = Vec(c, ZERO, ln, (), m.u8)

    def setup(ai, st):
        st.assume(eq(hl, ln), 1)
    o = dict(merge=False, cap=400, retcap=400)
    o.update(kw)
    ai, ex = run(m, rep, f, [h, b, None, limit if limit is not None else var(('limit',), m.usize)], setup=setup, hooks=stub_decoder(m, list(pairs), None), **o)
    e = [ai.elem(st0, c, K(j), m.u8) for j in range(16)]
    return ai, ex, e, ln, i, fl, hl


def fr(ai, s, v, name):
    """the payload of Ok(Frame::name(..)), or a message"""
    m = ai.mir
    if not is_ok(m, v):
        return None, 'a legal frame is refused'
    x = inner(v)
    vs = variants_of(ai, s, x)
    if vs != [name]:
        return None, f'read as {vs}'
    return inner(x), None


@prop('C35')
def c35(m, rep):
    """Trace-partitioned summaries of the frame reader for every frame type over a payload of symbolic length and content,
    the header-block decoder replaced by a recorder: result type, stream identifier, flags, the octets that are the frame's
    data or header block, and the frames that have to be refused (RFC 9113 5.1.1, 6.1-6.10)."""
    PADDED, PLAIN = D.of([x for x in range(256) if x & 8]), D.of([x for x in range(256) if not x & 8])

    def bits(on, off):
        return D.of([x for x in range(256) if x & on == on and not x & off])

    def ids(ai, s, x, i, fl=None):
        g = scalar(ai, s, fld(ai, s, x, 'stream_id'))
        if not equal(ai, s, g, i):
            return f'stream {show(g)} instead of the one in the header'
        if fl is not None:
            g = scalar(ai, s, fld(ai, s, x, 'flags'))
            if not equal(ai, s, g, fl):
                return f'flags {show(g)} differ from the header'

    # DATA
    ai, ex, e, ln, i, fl, hl = parse(m, rep, 'Data')

    def data(padded, whole):
        def o(ai, s, v):
            x, r = fr(ai, s, v, 'Data')
            if r:
                return r
            if not whole:
                r = ids(ai, s, x, i, fl)
                if r:
                    return r
            _, b = models.buf(ai, s, fld(ai, s, x, 'data'))
            if b is None:
                return 'the data is not the payload'
            if not whole and not equal(ai, s, b.p, K(1 if padded else 0)):
                return f'the data starts at octet {show(b.p)} of the payload'
            end = sub(ln, e[0]) if padded and whole else ln
            if (whole or not padded) and not equal(ai, s, b.n, end):
                return f'the data ends at octet {show(b.n)}, specified {show(end)}'
        return o
    zero = ('stream 0', [('dom', i, D.const(0))], err)
    check_cases(rep, 'DATA', ai, ex, [
        zero,
        ('plain', [('dom', i, NZ), ('dom', fl, PLAIN)], data(False, False)),
        ('padded/data', [('dom', i, NZ), ('dom', fl, PADDED), (ge0(addk(sub(ln, e[0]), -1)), 1)], data(True, False)),
        ('padded/padding kept', [('dom', i, NZ), ('dom', fl, PADDED), ('dom', ln, D.rng(2, 1 << 20)), ('dom', e[0], D.rng(1, 1))], data(True, True)),
        ('padding too long', [('dom', i, NZ), ('dom', fl, PADDED), ('dom', ln, D.rng(1, 255)), (ge0(sub(e[0], ln)), 1)], err),
        ('no pad length', [('dom', i, NZ), ('dom', fl, PADDED), ('dom', ln, D.const(0))], err)])

    # HEADERS and PUSH_PROMISE: what is handed to the decoder
    def block(ai, s, a, b_):
        if s.g.get('decodes', 0) != 1:
            return f"the header block is decoded {s.g.get('decodes', 0)} times"
        b = s.g['block']
        src, off = b.c, b.p
        n = sub(b.n, b.p)
        if not equal(ai, s, n, sub(b_, a)):
            return f'a block of {show(n)} octets is decoded, specified {show(sub(b_, a))}'
        for j in range(3):
            t = s.copy()
            if not t.assume(ge0(addk(sub(b_, a), -(j + 1))), 1):
                continue
            g, w = ai.elem(t, src, addk(off, j), m.u8), ai.elem(t, var(('buf', 'in')), addk(a, j), m.u8)
            if not equal(ai, t, g, w):
                return f'octet {j} of the block is {show(g)}, specified {show(w)}'

    def headers(pad, prio):
        def o(ai, s, v):
            x, r = fr(ai, s, v, 'Headers')
            if r:
                return r
            r = ids(ai, s, x, i, fl)
            if r:
                return r
            p = 1 if pad else 0
            dep = fld(ai, s, x, 'stream_dep')
            if prio:
                if variants_of(ai, s, dep) != ['Some']:
                    return 'the priority fields are lost'
                d = inner(dep)
                q = e[p:p + 5]
                for nm, w in (('dependency_id', mk('and', (be_term(q[:4]), K(U31)))), ('weight', q[4])):
                    g = scalar(ai, s, fld(ai, s, d, nm))
                    if not equal(ai, s, g, w):
                        return f'{nm} is {show(g)}'
            elif variants_of(ai, s, dep) != ['None']:
                return 'priority fields appear without the PRIORITY flag'
            a = K(p + (5 if prio else 0))
            return block(ai, s, a, sub(ln, e[0]) if pad else ln)
        return o
    ai, ex, e, ln, i, fl, hl = parse(m, rep, 'Headers')
    nz = ('dom', i, NZ)
    cases = [zero and ('stream 0', [('dom', i, D.const(0))], err),
             ('padding too long', [nz, ('dom', fl, PADDED), ('dom', ln, D.rng(1, 255)), (ge0(sub(e[0], ln)), 1)], err),
             ('no pad length', [nz, ('dom', fl, PADDED), ('dom', ln, D.const(0))], err),
             ('priority too short', [nz, ('dom', fl, bits(32, 8)), ('dom', ln, D.rng(0, 4))], err),
             ('padded priority too short', [nz, ('dom', fl, bits(40, 0)), ('dom', ln, D.rng(1, 5)), ('dom', e[0], D.const(0))], err)]
    for pad in (0, 1):
        for prio in (0, 1):
            c = [nz, ('dom', fl, bits(8 * pad + 32 * prio, 8 * (not pad) + 32 * (not prio)))]
            if prio:
                # a stream cannot depend on itself; take dependencies above every stream used
                c += [('dom', i, D.rng(1, 255)), ('dom', e[pad], D.rng(1, 127))]
            low = 5 * prio + pad
            c += [('dom', ln, D.rng(low, 1 << 20))]
            if pad:
                c += [(ge0(addk(sub(ln, e[0]), -low)), 1)]
            cases.append((f'padded={pad} priority={prio}', c, headers(pad, prio)))
    check_cases(rep, 'HEADERS', ai, ex, cases)

    def promise(pad):
        def o(ai, s, v):
            x, r = fr(ai, s, v, 'PushPromise')
            if r:
                return r
            r = ids(ai, s, x, i, fl)
            if r:
                return r
            w = mk('and', (be_term(e[pad:pad + 4]), K(U31)))
            g = scalar(ai, s, fld(ai, s, x, 'promised_id'))
            if not equal(ai, s, g, w):
                return f'promised stream is {show(g)}'
            return block(ai, s, K(4 + pad), sub(ln, e[0]) if pad else ln)
        return o
    ai, ex, e, ln, i, fl, hl = parse(m, rep, 'PushPromise')
    nz = ('dom', i, NZ)
    cases = [('stream 0', [('dom', i, D.const(0))], err),
             ('too short', [nz, ('dom', fl, PLAIN), ('dom', ln, D.rng(0, 3))], err),
             ('padding too long', [nz, ('dom', fl, PADDED), ('dom', ln, D.rng(1, 255)), (ge0(sub(e[0], ln)), 1)], err),
             ('no pad length', [nz, ('dom', fl, PADDED), ('dom', ln, D.const(0))], err),
             ('plain', [nz, ('dom', fl, PLAIN), ('dom', ln, D.rng(4, 1 << 20))], promise(0)),
             ('padded', [nz, ('dom', fl, PADDED), ('dom', ln, D.rng(5, 1 << 20)), (ge0(addk(sub(ln, e[0]), -5)), 1)], promise(1))]
    check_cases(rep, 'PUSH_PROMISE', ai, ex, cases)

    # the other types: the type's own reader decides the payload (C17, C18); here the type, the stream rule and that no
    # padding is taken off a type that has none
    def plain(name, sid=None):
        def o(ai, s, v):
            x, r = fr(ai, s, v, name)
            if r:
                return r
            if sid:
                return ids(ai, s, x, sid)
        return o
    for kind, name, legal, on0 in (('Priority', 'Priority', 5, False), ('Reset', 'Reset', 4, False), ('WindowUpdate', 'WindowUpdate', 4, None),
                                   ('Ping', 'Ping', 8, True), ('GoAway', 'GoAway', 8, True), ('Settings', 'Settings', 0, True)):
        ai, ex, e, ln, i, fl, hl = parse(m, rep, kind)
        cases = []
        if on0 is False:
            cases.append(('stream 0', [('dom', i, D.const(0))], err))
        if on0 is True:
            cases.append(('stream != 0', [('dom', i, NZ)], err))
        c = [('dom', i, D.const(0) if on0 else D.rng(1, 255)), ('dom', ln, D.const(legal))]
        if kind == 'Priority':
            c.append(('dom', e[0], D.rng(1, 127)))
        if kind == 'WindowUpdate':
            c.append(('dom', e[0], D.rng(1, 127)))
        cases.append(('legal', c, plain(name, None if on0 else i)))
        check_cases(rep, name, ai, ex, cases)
    # the accessors of a frame agree with the frame
    ft = next(k for k, v in m.types.items() if re.search(r'frame::frame::Frame$', v.get('path', '') or '') and v.get('k') == 'adt')
    for vi, vr in enumerate(m.variants(ft)):
        pt = m.fields(ft, vi)[0][1]
        has = [n for n, _ in (m.fields(pt, 0) or [])]
        x = Agg(ft, vi, [AI(m).sym(var(('frame', vi), pt), pt)])
        st0 = St(m)
        pay = inner(x)
        for fn, name in (('stream_id', 'stream_id'), ('is_end_stream', 'flags'), ('is_end_headers', 'flags'), ('is_data', None), ('is_header', None)):
            ai, ex = run(m, rep, one(m, rf'frame::frame::Frame::{fn}$'), [Ref(('fr',))], setup=lambda ai, st: st.s.__setitem__(('fr',), x), merge=False, cap=400, retcap=400)
            rep.ob(f'accessor/{vr["name"]}/{fn}/reachable', bool(ex), 'no path')
            for s, v in ex:
                g = scalar(ai, s, v)
                if fn == 'stream_id':
                    w = scalar(ai, s, fld(ai, s, pay, name)) if name in has else ZERO
                    rep.ob(f'accessor/{vr["name"]}/{fn}', equal(ai, s, g, w), f'{show(g)}, the frame says {show(w)}')
                elif name is None:
                    w = K(int(vr['name'] == {'is_data': 'Data', 'is_header': 'Headers'}[fn]))
                    rep.ob(f'accessor/{vr["name"]}/{fn}', equal(ai, s, g, w), f'{show(g)}')
                else:
                    bit = 1 if fn == 'is_end_stream' else 4
                    on = vr['name'] in (('Data', 'Headers') if bit == 1 else ('Headers',))
                    flv = scalar(ai, s, fld(ai, s, pay, 'flags')) if on else ZERO
                    for b in (0, 1):
                        t = s.copy()
                        if on and not (t.refine(flv, D.of([q for q in range(256) if bool(q & bit) == bool(b)])) and consistent(t)):
                            continue
                        rep.ob(f'accessor/{vr["name"]}/{fn}', equal(ai, t, g, K(b if on else 0)), f'{show(g)} although the flag is {b}')
                rep.count('accessor_paths')
    rep.floor('accessor_paths', 40)
    for kind in ('Continuation', 'Unregistered'):
        ai, ex, e, ln, i, fl, hl = parse(m, rep, kind)
        check_cases(rep, kind, ai, ex, [('refused', [('dom', i, D.rng(0, U31))], err)])


def option_text(ai, s, o, f=lambda v: v):
    vs = variants_of(ai, s, o)
    return None if vs == ['None'] else f(inner(o)) if vs == ['Some'] else ('?', vs)


def plain_text(ai, s, v, env):
    """octets of a string value with the symbolic ones filled in"""
    _, b = models.buf(ai, s, v)
    if b is None or s.val(sub(b.n, b.p)) is None:
        return ('?', repr(v)[:60])
    return b''.join(bytes([env[x.id] if x.id in env else s.val(x)]) if (x.id in env or s.val(x) is not None) else b'?'
                    for x in (ai.elem(s, b.c, addk(b.p, i), ai.mir.u8) for i in range(s.val(sub(b.n, b.p)))))


def value_text(ai, s, v, env):
    """octets of a HeaderName / HeaderValue, or of an enum written by name"""
    return plain_text(ai, s, inner(v), env)


def field_list(ai, s, hm, env):
    v = deref(ai, s, fld(ai, s, hm, 'headers'))
    if not isinstance(v, Vec) or not isinstance(v.c, Agg) or s.val(v.n) is None:
        return ('?', repr(v)[:60])
    return [(value_text(ai, s, deref(ai, s, e).f[0], env), value_text(ai, s, deref(ai, s, e).f[1], env)) for e in v.c.f[s.val(v.p):s.val(v.n)]]


@prop('C33')
def c33(m, rep):
    """Trace-partitioned summaries of the HEADERS and PUSH_PROMISE readers with the block decoder replaced by every list of a
    family of field lists and an arbitrary size limit: the list is refused exactly when its RFC 9113 10.5.1 size exceeds the
    limit, pseudo-header fields arrive in their part, all others in the map, in order."""
    b = var(('b', 0), m.u8)
    METHODS = {b'GET': 'Get', b'POST': 'Post', b'HEAD': 'Head', b'PUT': 'Put', b'DELETE': 'Delete', b'CONNECT': 'Connect', b'OPTIONS': 'Options'}
    SCHEMES = {b'http': 'Http', b'https': 'Https'}
    lists = [
        [], [(b'a', b'')], [(b'x-long-name', b'some value')], [(b'a', b'1'), (b'b', b'22'), (b'c', b'333')],
        [(b':method', b'GET'), (b':scheme', b'https'), (b':authority', b'h.example:8443'), (b':path', b'/p?q=1')],
        [(b':method', b'POST'), (b':path', b'/'), (b':scheme', b'http'), (b':authority', b'h'), (b'content-length', b'3'), (b'accept', b'*/*')],
        [(b':status', b'200'), (b'server', b's')], [(b':status', b'404')], [(b':status', b'599'), (b'date', b'now')],
        [(b':method', b'CONNECT'), (b':authority', b'h:1')], [(b':path', b'*'), (b':method', b'OPTIONS')],
        [(b'host', b'h'), (b'cookie', b'c'), (b'x', b'')],
        [(b':path', b'/a'), (b'k', [b'v', b, b'w'])],
        [(b'k' * 40, b'v' * 60), (b'k2', b'v' * 200)]]
    for mt in METHODS:
        lists.append([(b':method', mt)])
    bad = [[(b':status', b'20')], [(b':status', b'abc')], [(b':status', b'2000')], [(b':status', b'')], [(b'a', b'1'), (b':status', b'9')]]

    def check(key, pairs, illegal, kind):
        lim = var(('limit',), m.usize)
        ai, ex, e, ln, i, fl, hl = parse(m, rep, kind, pairs, lim)
        total = sum(len(n) + (len(v) if isinstance(v, bytes) else sum(len(q) if isinstance(q, bytes) else 1 for q in v)) + 32 for n, v in pairs)
        ip = one(m, rf'headers::{"Headers" if kind == "Headers" else "PushPromise"}::into_parts$')
        base = [('dom', i, D.rng(1, 255)), ('dom', fl, D.of([0])), ('dom', ln, D.rng(4, 1 << 20)), ('dom', b, D.rng(0, 127))]

        def ok(ai, s, v):
            x, r = fr(ai, s, v, kind)
            if r:
                return r
            a2 = AI(m, merge=False)
            for s2, w in a2.run(ip, [x], s.copy()):
                parts, hm = w.f
                env = {}
                if isinstance(pairs[-1][1], list) if pairs else False:
                    env = {b.id: 1}
                want = dict((n, v_) for n, v_ in pairs if n in (b':method', b':scheme', b':authority', b':path', b':status'))
                got = {}
                for nm in ('authority', 'path'):
                    t = option_text(ai, s2, fld(ai, s2, parts, nm), lambda q: plain_text(ai, s2, q, env))
                    if t is not None:
                        got[b':' + nm.encode()] = t
                t = option_text(ai, s2, fld(ai, s2, parts, 'method'), lambda q: variants_of(ai, s2, q))
                if t is not None:
                    got[b':method'] = next((k for k, q in METHODS.items() if [q] == t), t)
                t = option_text(ai, s2, fld(ai, s2, parts, 'scheme'), lambda q: variants_of(ai, s2, q))
                if t is not None:
                    got[b':scheme'] = next((k for k, q in SCHEMES.items() if [q] == t), t)
                t = option_text(ai, s2, fld(ai, s2, parts, 'status'), lambda q: s2.val(scalar(ai, s2, q)))
                if t is not None:
                    got[b':status'] = str(t).encode()
                if got != want:
                    return f'the parts are {got}, specified {want}'
                wl = [(n, b''.join(q if isinstance(q, bytes) else b'\x01' for q in v_) if isinstance(v_, list) else v_) for n, v_ in pairs if n not in want]
                gl = field_list(ai, s2, hm, env)
                if gl != wl:
                    return f'the fields are {gl}, specified {wl}'
            rep.took(a2)
        cases = [] if total == 0 else [('over', base + [('dom', lim, D.rng(0, total - 1))], err)]
        cases.append(('within', base + [('dom', lim, D.rng(total, 1 << 62))], err if illegal else ok))
        check_cases(rep, key, ai, ex, cases)
    for kind in ('Headers', 'PushPromise'):
        for k, ps in enumerate(lists):
            check(f'{kind}/{k}', ps, False, kind)
        for k, ps in enumerate(bad):
            check(f'{kind}/bad{k}', ps, True, kind)


def split_frames(data):
    """[(type, flags, stream, payload)] of a concrete octet string, or a message"""
    out, i = [], 0
    while i < len(data):
        if i + 9 > len(data):
            return 'a truncated frame header is written'
        n = int.from_bytes(data[i:i + 3], 'big')
        if i + 9 + n > len(data):
            return 'a length goes beyond what is written'
        out.append((data[i + 3], data[i + 4], int.from_bytes(data[i + 5:i + 9], 'big'), data[i + 9:i + 9 + n]))
        i += 9 + n
    return out


@prop('C37')
def c37(m, rep):
    """Abstract summaries of the DATA, HEADERS and PUSH_PROMISE writers for every combination of flags, stream identifiers and
    frame-size limits around the payload length: the frames written, their sizes, flags and stream, against RFC 9113 4.3, 6.1, 6.2, 6.6;
    the block written, re-read by the reference HPACK decoder, is the field list with the pseudo-header fields first."""
    from hpack import Hp, Table, ref_block, Malformed
    from ser import option, enum_of, fty, headermap
    # ---- DATA



    f = one(m, r"data::Data::encode::<")
    dt = m.to(f['body']['locals'][1])
    newd = one(m, r'data::Data::<.*>::new$')
    hty = type_named(m, r'frame::FrameHeader$')
    kt = dict(m.fields(hty, 0))['kind']
    h = Hp(m, rep, unroll_all=True, unroll=200)
    ai = h.ai
    ety = type_named(m, r'encoder::Encoder$')
    sid = var(('sid',), m.types and dict(m.fields(hty, 0))['length'])
    flagv = var(('flagbits',), m.u8)

    def start(mx, exact=True):
        s = h.start()
        e = s.s[('enc',)]
        k = [n for n, _ in m.fields(ety, 0)].index('max_frame_size')
        s.s[('enc',)] = Agg(e.ty, e.var, [K(mx) if j == k else x for j, x in enumerate(e.f)])
        s.s[('out',)] = Vec(Agg(None, 0, []) if exact else var(('buf', 'out')), ZERO, ZERO, (), m.u8)
        return s

    def head(kind, sidt, flt):
        i, fl = dict(m.fields(hty, 0))['id'], dict(m.fields(hty, 0))['flag']
        return struct(m, hty, kind=Agg(kt, m.variant_named(kt, kind), []), id=Agg(i, 0, [sidt]), flag=flag(fl, flt))

    def flag(t, v):
        while m.tk(t) == 'adt':
            return Agg(t, 0, [flag(m.fields(t, 0)[0][1], v)])
        return v
    for n in range(0, 8):
        for mx in sorted({1, 2, 3, max(n - 1, 1), n or 1, n + 1, 16384}):
            if n > 4 and mx == 1:
                continue
            s = start(mx, False)
            c = var(('buf', 'data'))
            d = struct(m, dt, stream_id=Agg(dict(m.fields(dt, 0))['stream_id'], 0, [sid]), data=Vec(c, ZERO, K(n), (), m.u8), flags=flag(dict(m.fields(dt, 0))['flags'], flagv))
            s.s[('d',)] = d
            s.refine(sid, NZ)
            s.refine(flagv, D.rng(0, 255))
            for u, v in h.p.call(f, [Ref(('d',)), Ref(('enc',)), Ref(('out',))], s):
                u.touch()
                u = feasible(u, [])
                if u is None:
                    continue
                rep.count('data_paths')
                key = f'DATA/{n} octets, limit {mx}'
                if not rep.ob(f'{key}/returns', is_ok(m, v), 'legal data is refused'):
                    continue
                sizes = [mx] * (n // mx) + ([n % mx] if n % mx or n == 0 else [])
                want, at = [], 0
                got = emitted(ai, u, u.s[('out',)])
                if not rep.ob(f'{key}/known', got is not None, 'the octets written cannot be determined'):
                    continue
                for j, q in enumerate(sizes):
                    last = j == len(sizes) - 1
                    want += [K(0), K(0), K(q), K(0), mk('and', (flagv, K(0xf7 if last else 0xf6)))] + [byte_of(ai, u, sid, 4, x) for x in range(4)]
                    want += [ai.elem(u, c, K(at + x), m.u8) for x in range(q)]
                    at += q
                fl_at = [9 * j + sum(sizes[:j]) + 4 for j in range(len(sizes))]
                # flags: END_STREAM as set, on the last frame only; PADDED never; the rest is left open
                g2 = list(got)
                for j, a in enumerate(fl_at):
                    if a < len(got) and isinstance(got[a], T):
                        last = j == len(sizes) - 1
                        for bit, w in ((1, mk('and', (flagv, K(1))) if last else ZERO), (8, ZERO)):
                            x = mk('and', (got[a], K(bit)))
                            rep.ob(f'{key}/flag {bit}', equal(ai, u, x, w), f'frame {j}: flag bit {bit} is {show(x)}, specified {show(w)}')
                        g2[a] = want[a]
                r = same_bytes(ai, u, g2, want)
                rep.ob(f'{key}/frames', not r, r)
                rv = scalar(ai, u, inner(v))
                rep.ob(f'{key}/size', u.val(rv) == len(want), f'reports {show(rv) if isinstance(rv, T) else rv} octets, wrote {len(want)}')
    rep.floor('data_paths', 20)
    # ---- HEADERS
    tr = one(m, r'headers::Headers::trailers$')
    enc = one(m, r'headers::Headers::encode::<')
    pty = type_named(m, r'headers::Parts$')
    fty_ = type_named(m, r'headers::Headers$')
    MT, ST = 'GetPost', None

    def parts_of(method=None, scheme=None, authority=None, path=None, status=None):
        def e(nm, v, mkv):
            return option(m, fty(m, pty, nm), None if v is None else mkv(v))
        mt, sct = (m.types[fty(m, pty, q)]['args'][0] for q in ('method', 'scheme'))
        return struct(m, pty, method=e('method', method, lambda v: enum_of(m, mt, v)), scheme=e('scheme', scheme, lambda v: enum_of(m, sct, v)),
                      authority=e('authority', authority, lambda v: mkstr(m, v)), path=e('path', path, lambda v: mkstr(m, v)),
                      status=e('status', status, lambda v: flag(m.types[fty(m, pty, 'status')]['args'][0], K(v))))
    TXT = {'Get': b'GET', 'Post': b'POST', 'Https': b'https', 'Http': b'http'}

    def judge(key, u, v, s_, flv, sidv, mx, pseudo, fields, pre=(), table=None, first=1):
        """frames written into out, from frame number len(pre) on"""
        o = u.s[('out',)]
        got = None if u.val(o.n) is None else [ai.elem(u, o.c, addk(o.p, j), m.u8) for j in range(u.val(o.n))]
        if not rep.ob(f'{key}/returns', is_ok(m, v), 'a legal header list is refused'):
            return
        vals = None if got is None else [u.val(x) if isinstance(x, T) else None for x in got]
        if not rep.ob(f'{key}/known', vals is not None and None not in vals, f'the octets written cannot be determined: {got if got is None else [show(x) if isinstance(x, T) else x for x, q in zip(got, vals) if q is None][:3]}'):
            return
        frames = split_frames(bytes(vals))
        if not rep.ob(f'{key}/frames', isinstance(frames, list), frames):
            return
        rv = u.val(scalar(ai, u, inner(v)))
        rep.ob(f'{key}/size', rv == len(vals), f'reports {rv} octets, wrote {len(vals)}')
        t = table or Table()
        if pre:
            x = frames.pop(0) if frames else (None, 0, 0, b'')
            rep.ob(f'{key}/promise', x[0] == 5 and x[1] & 4 and not x[1] & 8 and x[2] == pre[0] and x[3][:4] == pre[1].to_bytes(4, 'big'), f'PUSH_PROMISE written as {x}')
            try:
                r = ref_block(x[3][4:], t)
            except Malformed:
                r = 'malformed'
            rep.ob(f'{key}/promise fields', isinstance(r, list) and sorted(r) == sorted(pre[2]), f'the promised request reads as {r}, specified {pre[2]}')
        rep.ob(f'{key}/types', bool(frames) and frames[0][0] == 1 and all(x[0] == 9 for x in frames[1:]), f'frame types {[x[0] for x in frames]}')
        rep.ob(f'{key}/streams', all(x[2] == sidv for x in frames), f'streams {[x[2] for x in frames]}, specified {sidv}')
        rep.ob(f'{key}/limit', all(len(x[3]) <= mx for x in frames), f'payloads of {[len(x[3]) for x in frames]} octets, limit {mx}')
        rep.ob(f'{key}/end headers', [bool(x[1] & 4) for x in frames] == [False] * (len(frames) - 1) + [True], f'END_HEADERS on {[bool(x[1] & 4) for x in frames]}')
        rep.ob(f'{key}/end stream', [x[1] & 1 for x in frames] == [flv & 1] + [0] * (len(frames) - 1), f'END_STREAM on {[x[1] & 1 for x in frames]}, asked for {flv & 1}')
        rep.ob(f'{key}/no padding or priority', not any(x[1] & 0x28 for x in frames), f'flags {[x[1] for x in frames]} announce fields that are not written')
        try:
            r = ref_block(b''.join(x[3] for x in frames), t)
        except Malformed:
            r = 'malformed'
        np = len(pseudo)
        rep.ob(f'{key}/fields', isinstance(r, list) and sorted(r[:np]) == sorted(pseudo) and r[np:] == fields, f'the block reads as {r}, specified {pseudo + fields}')

    cases = [
        (dict(method='Get', scheme='Https', authority=b'h.example', path=b'/p'), [(b'accept', b'*/*'), (b'x-one', b'1')]),
        (dict(method='Post', scheme='Http', path=b'/'), []),
        (dict(status=200), [(b'server', b's'), (b'content-length', b'10')]),
        (dict(status=404), []),
        ({}, [(b'a', b'1'), (b'b', b'2'), (b'c', b'3')]),
        ({}, [(b':path', b'/q'), (b'a', b'1')]),
        ({}, [(b'a', b'1'), (b':status', b'200')]),
        ({}, []),
        (dict(status=500), [(b'x-long', b'v' * 50), (b'x-longer', b'w' * 60), (b'x', b'')])]
    for k, (pp, hs) in enumerate(cases):
        pseudo = [(b':' + n.encode(), TXT.get(v) or (str(v).encode() if isinstance(v, int) else v)) for n, v in pp.items()] + [x for x in hs if x[0][:1] == b':']
        fields = [x for x in hs if x[0][:1] != b':']
        for mx in (1, 2, 5, 7, 8, 9, 10, 11, 12, 16, 20, 40, 64, 16384):
            if mx < 5 and k not in (1, 3, 4):
                continue
            for flv in ((0, 1, 4, 5, 0x2d) if mx in (5, 16384) else (0, 1)):
                s = start(mx)
                s, hd = h.p.one(tr, [Agg(dict(m.fields(fty_, 0))['stream_id'], 0, [K(7)]), parts_of(**pp), headermap(m, hs)], s)
                fi = [n for n, _ in m.fields(fty_, 0)].index('flags')
                hd = Agg(hd.ty, hd.var, [flag(dict(m.fields(fty_, 0))['flags'], K(flv)) if j == fi else x for j, x in enumerate(hd.f)])
                for u, v in h.p.call(enc, [hd, Ref(('enc',)), Ref(('out',))], s):
                    rep.count('header_paths')
                    judge(f'HEADERS/{k}/limit {mx}/flags {flv}', u, v, s, flv, 7, mx, pseudo, fields)
    rep.floor('header_paths', 100)
    # ---- PUSH_PROMISE: the promised request, then the response's HEADERS on the promised stream
    pp_t = type_named(m, r'headers::PushPromise$')
    pnew = one(m, r'headers::PushPromise::new$')
    penc = one(m, r'headers::PushPromise::encode::<')
    sets = {n: one(m, rf'headers::PushPromise::set_{n}$') for n in ('method', 'authority', 'path', 'status')}
    mt = m.types[fty(m, pty, 'method')]['args'][0]
    for flv in (4, 5, 0xc):
        for status in (200, 404):
            for mx in (5, 16384):
                s = start(mx)
                hs = [(b'server', b's'), (b'x', b'y')]
                s, v = h.p.one(pnew, [head('PushPromise', K(3), K(flv)), Agg(dict(m.fields(hty, 0))['id'], 0, [K(6)]), headermap(m, [(b':scheme', b'https')] + hs)], s)
                s.s[('pp',)] = v
                for n, x in (('method', enum_of(m, mt, 'Get')), ('authority', mkstr(m, b'h')), ('path', mkstr(m, b'/i')), ('status', flag(m.types[fty(m, pty, 'status')]['args'][0], K(status)))):
                    s, _ = h.p.one(sets[n], [Ref(('pp',)), x], s)
                for u, v in h.p.call(penc, [s.s[('pp',)], Ref(('enc',)), Ref(('out',))], s):
                    rep.count('promise_paths')
                    judge(f'PUSH_PROMISE/{status}/limit {mx}/flags {flv}', u, v, s, flv, 6, mx, [(b':status', str(status).encode())], hs,
                          pre=(3, 6, [(b':method', b'GET'), (b':authority', b'h'), (b':scheme', b'https'), (b':path', b'/i')]))
    rep.floor('promise_paths', 4)
    h.p.done()
