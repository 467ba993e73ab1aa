"""HTTP/2 framing properties."""
from core import *
from spec import *
from reg import prop

U31 = (1 << 31) - 1
KINDS = ['Data', 'Headers', 'Priority', 'Reset', 'Settings', 'PushPromise', 'Ping', 'GoAway', 'WindowUpdate', 'Continuation']
KNOWN_FLAGS = D.of([x for x in range(256) if not x & ~0x2d])


def header(m, ai, st, kind=None):
    """a frame header with symbolic length, flags and stream id"""
    ty = type_named(m, r'frame::FrameHeader$')
    fs = {}
    if kind is not None:
        kt = dict(m.fields(ty, 0))['kind']
        fs['kind'] = Agg(kt, m.variant_named(kt, kind), [])
    h = struct(m, ty, **fs)
    return h


def hparts(ai, st, h):
    return scalar(ai, st, fld(ai, st, h, 'id')), scalar(ai, st, fld(ai, st, h, 'flag')), fld(ai, st, h, 'length')


def parse_run(m, rep, rx, kind=None, n=None, headarg=True, extra=(), unroll=None, **kw):
    f = one(m, rx)
    ai0 = AI(m)
    h = header(m, ai0, St(m), kind)
    box = {}

    def setup(ai, st):
        _, box['c'] = inbuf(ai, st, 'in', n)
    given = ([h] if headarg else []) + [Ref(('in',))] + list(extra)
    ai, ex = run(m, rep, f, given, setup=setup, merge=False, cap=400, retcap=400, **({'unroll': unroll} if unroll else {}), **kw)
    st0 = St(m)
    e = [ai.elem(st0, box['c'], K(i), m.u8) for i in range(48)]
    ln = mk('len', (box['c'],)) if n is None else K(n)
    rep.count('paths', len(ex))
    i, f_, l = hparts(ai, st0, h)
    return ai, ex, e, ln, i, f_, l


def err(ai, s, v):
    return None if is_err(ai.mir, v) else 'an illegal frame is accepted'


def okf(**want):
    """Ok(frame) with the given (name path -> term) fields"""
    def o(ai, s, v):
        if not is_ok(ai.mir, v):
            return 'a legal frame is refused'
        x = inner(v)
        for k, w in want.items():
            got = scalar(ai, s, fld(ai, s, x, *k.split('__')))
            if not isinstance(got, T) or not equal(ai, s, got, w):
                return f'{k} is {show(got) if isinstance(got, T) else got}, specified {show(w)}'
    return o


def u31(ai, e):
    return mk('and', (be_term(e), K(U31)))


def consumed(ai, s, n, name='in'):
    b = s.s[(name,)]
    return equal(ai, s, b.p, n)


@prop('C15')
def c15(m, rep):
    """Trace-partitioned summaries of the frame-header reader and writer over a symbolic buffer compared with the
    9-octet layout of RFC 9113 4.1: 24-bit length, type, flags, reserved bit ignored, 31-bit stream identifier."""
    ai, ex, e, ln, *_ = parse_run(m, rep, r'frame::FrameHeader::parse::<', headarg=False)

    def good(kind):
        def o(ai, s, v):
            if not is_ok(m, v):
                return 'a legal header is refused'
            h = inner(v)
            i, f, l = hparts(ai, s, h)
            for nm, g, w in (('length', l, be_term(e[0:3])), ('flags', f, e[4]), ('stream id', i, mk('and', (be_term(e[5:9]), K(U31))))):
                if not equal(ai, s, g, w):
                    return f'{nm} read as {show(g)}, specified {show(w)}'
            if variants_of(ai, s, fld(ai, s, h, 'kind')) != [kind]:
                return f'type {kind} read as {variants_of(ai, s, fld(ai, s, h, "kind"))}'
            if not consumed(ai, s, K(9)):
                return 'bytes consumed differ from 9'
        return o
    cases = [('short', [('dom', ln, D.rng(0, 8))], err)]
    for k, nm in enumerate(KINDS):
        cases.append((f'type={nm}', [('dom', ln, D.rng(9, 1 << 62)), ('dom', e[4], KNOWN_FLAGS), ('dom', e[3], D.const(k))], good(nm)))
    cases.append(('type=unknown', [('dom', ln, D.rng(9, 1 << 62)), ('dom', e[4], KNOWN_FLAGS), ('dom', e[3], D.rng(10, 255))], good('Unregistered')))
    check_cases(rep, 'read', ai, ex, cases)
    # writer
    f = one(m, r'frame::FrameHeader::encode::<')
    for k, nm in enumerate(KINDS):
        ai0 = AI(m)
        h = header(m, ai0, St(m), nm)
        box = {}

        def setup(ai, st):
            newbuf(ai, st)
            box['h'] = place(st, 'h', h)
        ai, ex = run(m, rep, f, [Ref(('h',)), Ref(('out',))], setup=setup, merge=False)
        i, fl, l = hparts(ai, St(m), h)

        def wrote(ai, s, v):
            if not is_ok(m, v) or not equal(ai, s, scalar(ai, s, inner(v)), K(9)):
                return f'reports {v!r} instead of 9 octets'
            want = [byte_of(ai, s, l, 4, j) for j in (1, 2, 3)] + [K(k), fl] + [byte_of(ai, s, i, 4, j) for j in range(4)]
            return same_bytes(ai, s, emitted(ai, s, s.s[('out',)]), want)
        check_cases(rep, 'write', ai, ex, [(nm, [('dom', i, D.rng(0, U31)), ('dom', l, D.rng(0, (1 << 24) - 1))], wrote)])


@prop('C16')
def c16(m, rep):
    """Frame-type, flag-bit, error-code and setting-identifier conversions summarised per input value and compared with
    the code points of RFC 9113 (6, 7, 6.5.2) and RFC 8441."""
    f = one(m, r'frame::kind::Kind::new$')
    g = one(m, r'frame::kind::Kind::encode$')
    ai, ex = run(m, rep, f, merge=False)
    x = arg(m, f, 0)

    def nm_(n):
        return lambda ai, s, v: None if variants_of(ai, s, v) == [n] else f'becomes {variants_of(ai, s, v)}'
    check_cases(rep, 'Kind::new', ai, ex, [(n, [('dom', x, D.const(i))], nm_(n)) for i, n in enumerate(KINDS)]
                + [('unknown', [('dom', x, D.rng(10, 255))], nm_('Unregistered'))])
    kt = f['body']['locals'][0]
    for i, n in enumerate(KINDS):
        def setup(ai, st):
            place(st, 'k', Agg(kt, m.variant_named(kt, n), []))
        ai, ex = run(m, rep, g, [Ref(('k',))], setup=setup, merge=False)
        for s, v in ex:
            rep.ob(f'Kind::encode/{n}', isinstance(v, T) and s.val(v) == i, f'{v!r}')
    # flags
    fl = {'ack': 1, 'end_stream': 1, 'end_headers': 4, 'padded': 8, 'priority': 0x20}
    for n, bit in fl.items():
        f = one(m, rf'frame::flag::Flag::{n}$')
        ai, ex = run(m, rep, f, merge=False)
        for s, v in ex:
            rep.ob(f'Flag::{n}', s.val(scalar(ai, s, v)) == bit, f'{v!r}')
        f = one(m, rf'frame::flag::Flag::is_{n}$')
        ai, ex = run(m, rep, f, merge=False)
        st0 = St(m)
        w = scalar(ai, st0, Ref(('d', arg(m, f, 0))))
        for b in (0, 1):
            check_cases(rep, f'Flag::is_{n}', ai, ex, [(f'{b}', [('dom', w, D.of([q for q in range(256) if bool(q & bit) == bool(b)]))],
                        lambda ai, s, v: None if s.val(v) == b else f'{v!r}')])
    for n, bit, on in (('set_end_headers', 4, 1), ('unset_end_headers', 4, 0), ('set_padded', 8, 1), ('unset_padded', 8, 0),
                       ('set_end_stream', 1, 1), ('unset_end_stream', 1, 0)):
        f = one(m, rf'frame::flag::Flag::{n}$')
        ft = m.to(f['body']['locals'][1])
        v0 = Agg(ft, 0, [Agg(m.fields(ft, 0)[0][1], 0, [var(('flagbits',), m.u8)])])

        def setup(ai, st):
            place(st, 'fl', v0)
        ai, ex = run(m, rep, f, [Ref(('fl',))], setup=setup, merge=False)
        w = scalar(ai, St(m), v0)
        for s, v in ex:
            got = scalar(ai, s, s.s[('fl',)])
            want = mk('or', (w, K(bit))) if on else mk('and', (w, K(255 & ~bit)))
            rep.ob(f'Flag::{n}', equal(ai, s, got, want), f'{show(got)}, specified {show(want)}')
    # error codes pass through unchanged, and names denote the registered values
    f = one(m, r'frame::reason::Reason as std::convert::From<u32>>::from$')
    g = one(m, r'frame::reason::<impl std::convert::From<.*Reason> for u32>::from$')
    ai, ex = run(m, rep, f, merge=False)
    for s, v in ex:
        a2 = AI(m, merge=False)
        for s2, r in a2.run(g, [v], s):
            rep.ob('Reason/u32->Reason->u32', equal(a2, s2, r, arg(m, f, 0)), show(r) if isinstance(r, T) else r)
    import named
    named.reasons(m, rep)
    # setting identifiers
    ids = {1: 'HeaderTableSize', 2: 'EnablePush', 3: 'MaxConcurrentStreams', 4: 'InitialWindowSize', 5: 'MaxFrameSize', 6: 'MaxHeaderListSize', 8: 'EnableConnectProtocol'}
    f = one(m, r'settings::Setting::from_id$')
    ai, ex = run(m, rep, f, merge=False)
    x, val = arg(m, f, 0), arg(m, f, 1)

    def sid(n):
        def o(ai, s, v):
            if n is None:
                return None if variant(m, v) == 'None' else 'an unknown setting is not ignored'
            if variant(m, v) != 'Some' or variant(m, inner(v)) != n:
                return f'becomes {variant(m, inner(v)) if inner(v) else v!r}'
            return None if equal(ai, s, inner(inner(v)), val) else 'value changed'
        return o
    check_cases(rep, 'Setting::from_id', ai, ex, [(n, [('dom', x, D.const(i))], sid(n)) for i, n in ids.items()]
                + [('unknown', [('dom', x, D.diff(D.rng(0, 65535), D.of(ids)))], sid(None))])


@prop('C17')
def c17(m, rep):
    """Trace-partitioned summaries of every fixed-layout frame reader over a payload of symbolic length and content,
    compared with the length, stream-identifier and value rules of RFC 9113 6.3-6.9."""
    ANY = D.rng(0, 1 << 62)
    NZ = D.rng(1, U31)
    # PING
    ai, ex, e, ln, i, fl, _ = parse_run(m, rep, r'ping::Ping::parse::<', 'Ping')

    def ping(ack):
        def o(ai, s, v):
            if not is_ok(m, v):
                return 'a legal frame is refused'
            p = inner(v)
            if s.val(scalar(ai, s, fld(ai, s, p, 'ack'))) != ack:
                return 'ACK flag lost'
            pl = fld(ai, s, p, 'payload')
            for j in range(8):
                if not equal(ai, s, ai.elem(s, pl, K(j), m.u8), e[j]):
                    return f'opaque byte {j} changed'
            return None if consumed(ai, s, K(8)) else 'consumed length differs'
        return o
    odd, even = D.of(range(1, 256, 2)), D.of(range(0, 256, 2))
    check_cases(rep, 'PING', ai, ex, [
        ('stream!=0', [('dom', i, NZ)], err),
        ('len<8', [('dom', i, D.const(0)), ('dom', ln, D.rng(0, 7))], err),
        ('len>8', [('dom', i, D.const(0)), ('dom', ln, D.rng(9, 1 << 62))], err),
        ('ack', [('dom', i, D.const(0)), ('dom', ln, D.const(8)), ('dom', fl, odd)], ping(1)),
        ('no ack', [('dom', i, D.const(0)), ('dom', ln, D.const(8)), ('dom', fl, even)], ping(0))])
    # WINDOW_UPDATE
    ai, ex, e, ln, i, fl, _ = parse_run(m, rep, r'window_update::WindowUpdate::parse::<', 'WindowUpdate')
    inc = mk('and', (be_term(e[:4]), K(U31)))
    check_cases(rep, 'WINDOW_UPDATE', ai, ex, [
        ('len<4', [('dom', ln, D.rng(0, 3))], err), ('len>4', [('dom', ln, D.rng(5, 1 << 62))], err),
        ('zero increment', [('dom', ln, D.const(4)), ('dom', e[0], D.of([0, 128])), ('dom', e[1], D.const(0)), ('dom', e[2], D.const(0)), ('dom', e[3], D.const(0))], err),
        ] + [(f'increment byte{j}!=0', [('dom', ln, D.const(4)), ('dom', e[j], D.rng(1, 127))], okf(stream_id=i, size_increment=inc)) for j in range(4)])
    # RST_STREAM
    ai, ex, e, ln, i, fl, _ = parse_run(m, rep, r'reset::Reset::parse::<', 'Reset')
    check_cases(rep, 'RST_STREAM', ai, ex, [
        ('len<4', [('dom', ln, D.rng(0, 3))], err), ('len>4', [('dom', ln, D.rng(5, 1 << 62))], err),
        ('legal', [('dom', ln, D.const(4)), ('dom', i, NZ)], okf(stream_id=i, error_code=be_term(e[:4])))])
    # PRIORITY
    ai, ex, e, ln, i, fl, _ = parse_run(m, rep, r'priority::Priority::parse::<', 'Priority')
    dep = mk('and', (be_term(e[:4]), K(U31)))

    def prio(excl):
        def o(ai, s, v):
            r = okf(stream_id=i, dependency__dependency_id=dep, dependency__weight=e[4])(ai, s, v)
            if r:
                return r
            x = scalar(ai, s, fld(ai, s, inner(v), 'dependency', 'is_exclusive'))
            s2 = s.copy()
            got = s.val(x)
            return None if got == excl else f'exclusive flag is {got}, specified {excl}'
        return o
    check_cases(rep, 'PRIORITY', ai, ex, [
        ('len<5', [('dom', ln, D.rng(0, 4))], err),
        ('self dependency', [('dom', ln, D.const(5)), ('dom', e[0], D.rng(0, 127)), (eq(be_term([mk('and', (e[0], K(127)))] + e[1:4]), i), 1)], err),
        ('legal', [('dom', ln, D.const(5)), ('dom', e[0], D.rng(1, 127)), ('dom', i, D.rng(1, 255))], prio(0)),
        ('legal exclusive', [('dom', ln, D.const(5)), ('dom', e[0], D.rng(129, 255)), ('dom', i, D.rng(1, 255))], prio(1))])
    # GOAWAY
    ai, ex, e, ln, *_ = parse_run(m, rep, r'go_away::GoAway::parse::<', headarg=False)

    def goaway(ai, s, v):
        r = okf(last_stream_id=mk('and', (be_term(e[:4]), K(U31))), error_code=be_term(e[4:8]))(ai, s, v)
        if r:
            return r
        import models
        _, b = models.buf(ai, s, fld(ai, s, inner(v), 'debug_data'))
        if b is None or not equal(ai, s, sub(b.n, b.p), addk(ln, -8)):
            return 'debug data is not the rest of the payload'
    check_cases(rep, 'GOAWAY', ai, ex, [
        ('len<8', [('dom', ln, D.rng(0, 7))], err),
        ('legal', [('dom', ln, D.rng(8, 1 << 24))], goaway)])
    # SETTINGS
    ai, ex, e, ln, i, fl, _ = parse_run(m, rep, r'settings::Settings::parse::<', 'Settings', 0)
    check_cases(rep, 'SETTINGS/len=0', ai, ex, [('stream!=0', [('dom', i, NZ)], err),
                ('ack', [('dom', i, D.const(0)), ('dom', fl, odd)], okf(flags=K(1))),
                ('empty', [('dom', i, D.const(0)), ('dom', fl, even)], okf(flags=K(0)))])
    for n in list(range(1, 6)) + [7, 11, 13]:
        ai, ex, e, ln, i, fl, _ = parse_run(m, rep, r'settings::Settings::parse::<', 'Settings', n, unroll=20)
        check_cases(rep, f'SETTINGS/len={n}', ai, ex, [('refused', [('dom', i, D.rng(0, U31))], err)])
    ai, ex, e, ln, i, fl, _ = parse_run(m, rep, r'settings::Settings::parse::<', 'Settings')
    check_cases(rep, 'SETTINGS', ai, ex, [('stream!=0', [('dom', i, NZ)], err),
                ('ack with payload', [('dom', fl, odd), ('dom', ln, D.rng(1, 1 << 62))], err)])


    # an error code is the next four octets
    f = one(m, r'ErrorCode::parse::<')
    c = var(('buf', 'in'))

    def setup(ai, st):
        st.s[('in',)] = Vec(c, ZERO, mk('len', (c,)), (), m.u8)
        st.refine(mk('len', (c,)), D.rng(4, 1 << 30))
    ai, ex = run(m, rep, f, [Ref(('in',))], setup=setup, merge=False, cap=50, retcap=50)
    e = [ai.elem(St(m), c, K(j), m.u8) for j in range(4)]

    def code(ai, s, v):
        g = scalar(ai, s, v)
        if not equal(ai, s, g, be_term(e)):
            return f'read as {show(g)}'
        return None if equal(ai, s, s.s[('in',)].p, K(4)) else 'consumed length differs'
    check_cases(rep, 'ErrorCode', ai, ex, [('four octets', [], code)])


SETRULE = {  # id: (field, accepted values)
    1: ('header_table_size', D.rng(0, (1 << 32) - 1)), 2: ('enable_push', D.rng(0, 1)), 3: ('max_concurrent_streams', D.rng(0, (1 << 32) - 1)),
    4: ('initial_window_size', D.rng(0, U31)), 5: ('max_frame_size', D.rng(16384, (1 << 24) - 1)), 6: ('max_header_list_size', D.rng(0, (1 << 32) - 1)),
    8: ('enable_connect_protocol', D.rng(0, 1))}
FIELDS = [v[0] for v in SETRULE.values()]


def settings_want(want):
    """want: {field: value term}; every other setting must stay unset"""
    def o(ai, s, v):
        m = ai.mir
        if not is_ok(m, v):
            return 'legal settings are refused'
        x = inner(v)
        for f in FIELDS:
            o_ = fld(ai, s, x, f)
            vs = variants_of(ai, s, o_)
            if f in want:
                if vs != ['Some']:
                    return f'{f} is not recorded'
                g = scalar(ai, s, inner(o_))
                if not equal(ai, s, g, want[f]):
                    return f'{f} recorded as {show(g)}'
            elif vs != ['None']:
                return f'{f} changed although it is not in the frame'
    return o


@prop('C18')
def c18(m, rep):
    """Trace-partitioned summaries of the settings-payload reader for one and for two settings (loop unrolled, identifier
    and value symbolic), compared with the value ranges of RFC 9113 6.5.2: legal values recorded in their own field, the
    last of two equal identifiers wins, illegal values refused, unknown identifiers ignored; and of the writer."""
    from state import St as _
    A32 = D.rng(0, (1 << 32) - 1)
    for rx in (r'settings::Settings::parse::<', ):
        for n in (1, 2):
            ai, ex, e, ln, i, fl, _l = parse_run(m, rep, rx, 'Settings', 6 * n, unroll=20)
            base = [('dom', i, D.const(0)), ('dom', fl, D.of(range(0, 256, 2)))]
            v = [be_term(e[6 * k + 2:6 * k + 6]) for k in range(n)]

            def at(k, ident, d=None):
                c = [('dom', e[6 * k], D.const(ident >> 8)), ('dom', e[6 * k + 1], D.const(ident & 255))]
                return c + ([('dom', v[k], d)] if d is not None else [])
            cases = []
            if n == 1:
                for ident, (f, ok) in SETRULE.items():
                    for a, b in ok:
                        cases.append((f'{f}/legal', base + at(0, ident, ((a, b),)), settings_want({f: v[0]})))
                    for a, b in D.diff(A32, ok):
                        cases.append((f'{f}/illegal/{a}', base + at(0, ident, ((a, b),)), err))
                for ident in (0, 7, 9, 255, 256, 258, 65535):
                    cases.append((f'unknown/{ident}', base + at(0, ident), settings_want({})))
                cases.append(('unknown/10..255', base + [('dom', e[0], D.const(0)), ('dom', e[1], D.rng(10, 255))], settings_want({})))
                cases.append(('unknown/256..', base + [('dom', e[0], D.rng(1, 255))], settings_want({})))
            else:
                for i1, (f1, ok1) in SETRULE.items():
                    for i2, (f2, ok2) in SETRULE.items():
                        cases.append((f'{f1},{f2}', base + at(0, i1, ok1) + at(1, i2, ok2), settings_want({f1: v[0], f2: v[1]})))
                        for a, b in D.diff(A32, ok2):
                            cases.append((f'{f1},{f2}/illegal', base + at(0, i1, ok1) + at(1, i2, ((a, b),)), err))
                        for a, b in D.diff(A32, ok1):
                            cases.append((f'{f1}/illegal,{f2}', base + at(0, i1, ((a, b),)) + at(1, i2, ok2), err))
                    cases.append((f'unknown,{f1}', base + at(0, 7) + at(1, i1, ok1), settings_want({f1: v[1]})))
                    cases.append((f'{f1},unknown', base + at(0, i1, ok1) + at(1, 7), settings_want({f1: v[0]})))
            check_cases(rep, f'parse/{n}', ai, ex, cases)
    # the same payload rules apply to the HTTP2-Settings header: both go through the same summaries
    rep.floor('exit_case_pairs', 150)


def encode_run(m, rep, rx, selfty, byref=True, fields=None, extra=(), setup2=None, **kw):
    f = one(m, rx)
    ty = type_named(m, selfty)
    v0 = struct(m, ty, **(fields(m, ty) if fields else {}))

    def setup(ai, st):
        newbuf(ai, st)
        if byref:
            place(st, 'self', v0)
        if setup2:
            setup2(ai, st)
    ai, ex = run(m, rep, f, [Ref(('self',)) if byref else v0] + list(extra) + [Ref(('out',))], setup=setup, merge=False, cap=3000, retcap=3000, **kw)
    rep.count('paths', len(ex))
    return ai, ex, v0


def frame_bytes(ai, s, v, kind, flags, sid, payload, tail=None):
    """emitted = header(len(payload)) + payload, and the reported size is the number of bytes"""
    m = ai.mir
    if not is_ok(m, v):
        return 'a legal frame is refused'
    got = emitted(ai, s, s.s[('out',)])
    n = len(payload)
    hl = K(n) if tail is None else add(K(n), tail.len)
    want = [byte_of(ai, s, hl, 4, j) for j in (1, 2, 3)] + [K(KINDS.index(kind)), flags] + [byte_of(ai, s, sid, 4, j) for j in range(4)] + payload
    total = add(K(9), hl)
    if tail is not None:
        want.append(tail)
    r = same_bytes(ai, s, got, want)
    if r:
        return r
    rv = scalar(ai, s, inner(v))
    if not isinstance(rv, T) or not equal(ai, s, rv, total):
        return f'reports {show(rv) if isinstance(rv, T) else rv} octets, wrote {show(total)}'


@prop('C19')
def c19(m, rep):
    """Trace-partitioned summaries of every frame writer into a logged output buffer: the header's length field, type,
    flags and stream identifier and every payload octet are compared with the RFC 9113 layout, and the reported size with
    the octets written."""
    def quad(ai, s, t):
        return [byte_of(ai, s, t, 4, j) for j in range(4)]
    st0 = St(m)
    SID = D.rng(0, U31)
    # WINDOW_UPDATE, RST_STREAM
    for rx, ty, kind, fl2 in ((r'window_update::WindowUpdate::encode::<', r'WindowUpdate$', 'WindowUpdate', 'size_increment'),
                              (r'reset::Reset::encode::<', r'reset::Reset$', 'Reset', 'error_code')):
        ai, ex, v0 = encode_run(m, rep, rx, ty)
        sid, x = scalar(ai, st0, fld(ai, st0, v0, 'stream_id')), scalar(ai, st0, fld(ai, st0, v0, fl2))
        check_cases(rep, kind, ai, ex, [('layout', [('dom', sid, SID), ('dom', x, D.rng(0, U31))],
                    lambda ai, s, v: frame_bytes(ai, s, v, kind, K(0), sid, quad(ai, s, x)))])
    # PRIORITY
    ai, ex, v0 = encode_run(m, rep, r'priority::Priority::encode::<', r'priority::Priority$')
    sid = scalar(ai, st0, fld(ai, st0, v0, 'stream_id'))
    dep = fld(ai, st0, v0, 'dependency')
    did, w, exq = (scalar(ai, st0, fld(ai, st0, dep, n)) for n in ('dependency_id', 'weight', 'is_exclusive'))
    for b in (0, 1):
        def prio(ai, s, v):
            q = quad(ai, s, did)
            if b:
                q[0] = mk('or', (q[0], K(128)))
            return frame_bytes(ai, s, v, 'Priority', K(0), sid, q + [w])
        check_cases(rep, 'Priority', ai, ex, [(f'exclusive={b}', [('dom', sid, SID), ('dom', did, SID), ('dom', exq, D.const(b))], prio)])
    # PING
    for rx in (r'ping::Ping::encode::<', r'ping::Ping as webparse::serialize::Serialize>::serialize::<'):
        f = one(m, rx)
        ai, ex, v0 = encode_run(m, rep, rx, r'ping::Ping$')
        pl = fld(ai, st0, v0, 'payload')
        ack = scalar(ai, st0, fld(ai, st0, v0, 'ack'))
        for b in (0, 1):
            check_cases(rep, rx[6:20], ai, ex, [(f'ack={b}', [('dom', ack, D.const(b))],
                        lambda ai, s, v: frame_bytes(ai, s, v, 'Ping', K(b), K(0), [ai.elem(s, pl, K(j), m.u8) for j in range(8)]))])
    # GOAWAY
    data = var(('debug',))

    def gf(m_, ty):
        t = dict(m_.fields(ty, 0))['debug_data']
        return {'debug_data': Vec(data, ZERO, mk('len', (data,)), (), m_.u8)}
    ai, ex, v0 = encode_run(m, rep, r'go_away::GoAway::encode::<', r'go_away::GoAway$', fields=gf)
    last, code = scalar(ai, st0, fld(ai, st0, v0, 'last_stream_id')), scalar(ai, st0, fld(ai, st0, v0, 'error_code'))
    n = mk('len', (data,))
    check_cases(rep, 'GoAway', ai, ex, [('layout', [('dom', last, SID), ('dom', n, D.rng(0, (1 << 24) - 9))],
                lambda ai, s, v: frame_bytes(ai, s, v, 'GoAway', K(0), K(0), quad(ai, s, last) + quad(ai, s, code), SRef(data, ZERO, n, None, m.u8)))])
    # SETTINGS: every subset of present settings
    ai, ex, v0 = encode_run(m, rep, r'settings::Settings::encode::<', r'settings::Settings$')
    fl = scalar(ai, st0, fld(ai, st0, v0, 'flags'))
    opt = {i: fld(ai, st0, v0, f) for i, (f, _) in SETRULE.items()}
    import itertools
    ids = list(SETRULE)
    for present in itertools.product((0, 1), repeat=len(ids)):
        conds = [('dom', mk('discr', (opt[i],)), D.const(p)) for i, p in zip(ids, present)]

        def sett(ai, s, v):
            pl = []
            for i, p in zip(ids, present):
                if p:
                    ot = opt[i].ty
                    x = ai.proj(opt[i], ('f', 1, 0), m.fields(ot, 1)[0][1])
                    pl += [K(0), K(i)] + quad(ai, s, x)
            return frame_bytes(ai, s, v, 'Settings', fl, K(0), pl)
        check_cases(rep, 'Settings', ai, ex, [(''.join(map(str, present)), conds, sett)])
