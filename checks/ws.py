"""WebSocket properties."""
from core import *
from spec import *
from reg import prop

def outbuf(ai, st, name='out'):
    return newbuf(ai, st, name)


@prop('C20')
def c20(m, rep):
    # ---- writer
    w = one(m, r'ws::frame_header::write_header$')
    ai, ex = run(m, rep, w, [Ref(('out',))], setup=outbuf, merge=False, cap=400, retcap=400)
    rep.count('paths', len(ex))
    h = arg(m, w, 1)
    st0 = St(m)
    op = fld(ai, st0, h, 'opcode')
    ln = fld(ai, st0, h, 'len')
    fl = scalar(ai, st0, fld(ai, st0, h, 'flags'))
    mk_ = fld(ai, st0, h, 'mask')
    has = mk('discr', (mk_,))
    key = ai.proj(mk_, ('f', 1, 0), m.fields(mk_.ty, 1)[0][1])

    def wrote(ext, masked):
        def f(ai, s, v):
            if not is_ok(m, v):
                return 'a legal header is refused'
            if ext == 0:
                b1 = add(ln, K(128 if masked else 0))
                tail = []
            else:
                b1 = K({2: 126, 8: 127}[ext] + (128 if masked else 0))
                tail = [byte_of(ai, s, ln, ext, i) for i in range(ext)]
            want = [mk('or', tuple(sorted((op, fl), key=lambda t: -t.id))), b1] + tail
            if masked:
                want += [ai.elem(s, key, K(i), m.u8) for i in range(4)]
            return same_bytes(ai, s, emitted(ai, s, s.s[('out',)]), want)
        return f

    def refused(ai, s, v):
        if not is_err(m, v):
            return 'an illegal header is accepted'
        if s.val(s.s[('out',)].n) != 0:
            return 'bytes written before the header was refused'
    sizes = [('7bit', 0, D.rng(0, 125)), ('16bit', 2, D.rng(126, 65535)), ('64bit', 8, D.rng(65536, (1 << 64) - 1))]
    cases = [('write/opcode>15', [('dom', op, D.rng(16, 255))], refused)]
    for nm, ext, d in sizes:
        for mm in (0, 1):
            cases.append((f'write/data/{nm}/mask{mm}', [('dom', op, D.rng(0, 7)), ('dom', ln, d), ('dom', has, D.const(mm))], wrote(ext, mm)))
            if ext == 0:
                cases.append((f'write/control/{nm}/mask{mm}', [('dom', op, D.rng(8, 15)), ('dom', ln, d), ('dom', has, D.const(mm))], wrote(ext, mm)))
    cases.append(('write/control>125', [('dom', op, D.rng(8, 15)), ('dom', ln, D.rng(126, (1 << 64) - 1))], refused))
    check_cases(rep, 'write_header', ai, ex, cases)
    # ---- reader, every instantiation in the crate
    for r in m.find(r'ws::frame_header::read_header::<'):
        rep.count('readers')
        ai, ex = run(m, rep, r, merge=False, cap=400, retcap=400)
        rep.count('paths', len(ex))
        st0 = St(m)
        a0 = arg(m, r, 0)
        import models
        _, b = models.buf(ai, st0, a0)
        if b is None:
            raise Missing('reader argument is not a buffer')
        c = b.c
        n0 = sub(b.n, b.p)
        e = [ai.elem(st0, c, addk(b.p, i), m.u8) for i in range(16)]

        def be(i, n):
            t = ZERO
            for j in range(n):
                t = add(t, scale(e[i + j], 1 << (8 * (n - 1 - j))))
            return t

        def okread(ext, masked):
            def f(ai, s, v):
                if not is_ok(m, v):
                    return 'a legal header is refused'
                hd = inner(v)
                want = mk('and', (e[1], K(127))) if ext == 0 else be(2, ext)
                if not equal(ai, s, fld(ai, s, hd, 'len'), want):
                    return f"length read as {show(fld(ai, s, hd, 'len'))}"
                if not equal(ai, s, fld(ai, s, hd, 'opcode'), mk('and', (e[0], K(15)))):
                    return f"opcode read as {show(fld(ai, s, hd, 'opcode'))}"
                if not equal(ai, s, scalar(ai, s, fld(ai, s, hd, 'flags')), mk('and', (e[0], K(240)))):
                    return 'flag bits differ from the high nibble of the first byte'
                k = fld(ai, s, hd, 'mask')
                if variants_of(ai, s, k) != (['Some'] if masked else ['None']):
                    return 'mask presence differs from the mask bit'
                if masked:
                    kk = inner(k)
                    for i in range(4):
                        if not equal(ai, s, ai.elem(s, kk, K(i), m.u8), e[2 + ext + i]):
                            return f'mask byte {i} is {show(ai.elem(s, kk, K(i), m.u8))}'
                _, b2 = models.buf(ai, s, a0)
                if not equal(ai, s, sub(b2.p, b.p), K(2 + ext + (4 if masked else 0))):
                    return 'bytes consumed differ from the header size'
            return f

        def short(ai, s, v):
            if not is_err(m, v):
                return 'a truncated header is accepted'

        def illegal(ai, s, v):
            if not is_err(m, v):
                return 'an illegal header is accepted'
        cases = [('read/empty', [('dom', n0, D.rng(0, 1))], short)]
        low = [x for x in range(256) if x & 15 < 8]
        ctl = [x for x in range(256) if x & 15 >= 8 and x & 128]
        bad = [x for x in range(256) if x & 15 >= 8 and not x & 128]
        for mm in (0, 1):
            o = 128 * mm
            for ext, l7, cond, nm in ((0, D.rng(o, o + 125), None, '7bit'),
                                      (2, D.const(o + 126), (126, 65535), '16bit'),
                                      (8, D.const(o + 127), (65536, (1 << 64) - 1), '64bit')):
                total = 2 + ext + 4 * mm
                base = [('dom', e[1], l7)]
                cases.append((f'read/{nm}/mask{mm}/short', base + [('dom', n0, D.rng(0, total - 1))], short))
                full = base + [('dom', n0, D.rng(total, 1 << 62))]
                if ext == 0:
                    for kind, ds in (('data', low), ('control', ctl)):
                        cases.append((f'read/{kind}/{nm}/mask{mm}', full + [('dom', e[0], D.of(ds))], okread(0, mm)))
                    cases.append((f'read/fragmented-control/mask{mm}', full + [('dom', e[0], D.of(bad))], illegal))
                else:
                    v = be(2, ext)
                    cases.append((f'read/data/{nm}/mask{mm}', full + [('dom', e[0], D.of(low)), ('dom', v, D.rng(*cond))], okread(ext, mm)))
                    cases.append((f'read/nonminimal/{nm}/mask{mm}', full + [('dom', v, D.rng(0, cond[0] - 1))], illegal))
                    cases.append((f'read/control-too-long/{nm}/mask{mm}', full + [('dom', e[0], D.of(ctl + bad))], illegal))
        check_cases(rep, 'read_header', ai, ex, cases)
    rep.floor('readers', 1)


@prop('C21')
def c21(m, rep):
    """Trace-partitioned summaries of the opcode and close-code conversions compared with the tables of RFC 6455."""
    f = one(m, r'ws::dataframe::Opcode::new$')
    ai, ex = run(m, rep, f, merge=False, cap=400, retcap=400)
    x = arg(m, f, 0)
    names = {0: 'Continuation', 1: 'Text', 2: 'Binary', 8: 'Close', 9: 'Ping', 10: 'Pong'}

    def known(n):
        def o(ai, s, v):
            w = inner(v)
            if variant(m, v) != 'Some':
                return f'opcode {n} refused'
            if not isinstance(w, Agg) or m.discr_of(w.ty, w.var) != n:
                return f'opcode {n} becomes {variant(m, w)}, whose wire value differs'
            if n in names and variant(m, w) != names[n]:
                return f'opcode {n} becomes {variant(m, w)}, specified {names[n]}'
        return o

    def refused(ai, s, v):
        return None if variant(m, v) == 'None' else 'a value above 15 is accepted as an opcode'
    check_cases(rep, 'Opcode::new', ai, ex, [(str(n), [('dom', x, D.const(n))], known(n)) for n in range(16)]
                + [('>15', [('dom', x, D.rng(16, 255))], refused)])
    # close codes
    f = one(m, r'CloseCode as std::convert::From<u16>>::from$')
    g = one(m, r'CloseCode as std::convert::Into<u16>>::into$')
    code = arg(m, f, 0)
    table = {1000: 'Normal', 1001: 'Away', 1002: 'Protocol', 1003: 'Unsupported', 1005: 'Status', 1006: 'Abnormal', 1007: 'Invalid',
             1008: 'Policy', 1009: 'Size', 1010: 'Extension', 1011: 'Error', 1012: 'Restart', 1013: 'Again', 1015: 'Tls', 0: 'Empty'}
    ai, ex = run(m, rep, f, merge=False, cap=400, retcap=400)
    other = D.diff(D.rng(0, 65535), D.of(table))

    def named(nm):
        return lambda ai, s, v: None if variants_of(ai, s, v) == [nm] else f'becomes {variants_of(ai, s, v)}, specified {nm}'
    check_cases(rep, 'CloseCode::from', ai, ex, [(str(n), [('dom', code, D.const(n))], named(nm)) for n, nm in table.items()]
                + [('other', [('dom', code, other)], lambda ai, s, v: None if variant(m, v) == 'Other' and equal(ai, s, inner(v), code)
                    else f'unlisted code becomes {v!r}')])
    # inverse: from then into gives the code back
    n = 0
    for st, v in ex:
        a2 = AI(m, merge=False)
        st.touch()
        for s2, r in a2.run(g, [v], st.copy()):
            n += 1
            rep.ob('CloseCode::into(from(x))=x', equal(a2, s2, r, code), f'{variants_of(a2, s2, v)} is sent as {show(r)}; path {describe(s2)}')
        rep.took(a2)
    rep.count('roundtrip_paths', n)
    rep.floor('roundtrip_paths', 16)
    # message kinds carry the right opcode
    for tyrx, fn in ((r'ws::message::OwnedMessage$', r'OwnedMessage as webparse::ws::dataframe::DataFrameable>::opcode$'),
                     (r'ws::message::Message$', r'Message<.*> as webparse::ws::dataframe::DataFrameable>::opcode$')):
        g = one(m, fn)
        want = {'Text': 1, 'Binary': 2, 'Close': 8, 'Ping': 9, 'Pong': 10}
        ai, ex = run(m, rep, g, merge=False, cap=100, retcap=100)
        ex = [(s, v) for s, v in ex]
        st0 = St(m)
        self_ = deref(ai, st0, Ref(('d', arg(m, g, 0))))
        kind = fld(ai, st0, self_, 'opcode') if 'OwnedMessage' not in tyrx else self_
        d = mk('discr', (kind,))
        cases = []
        for nm, w in want.items():
            dv = m.discr_of(kind.ty, m.variant_named(kind.ty, nm))
            cases.append((nm, [('dom', d, D.const(dv))], lambda ai, s, v, w=w: None if equal(ai, s, v, K(w)) else f'sent with opcode {show(v)}'))
        check_cases(rep, tyrx.split('::')[2][:-1] + '::opcode', ai, ex, cases)


LENS = list(range(0, 14)) + [16, 17, 31, 33, 64]


@prop('C22')
def c22(m, rep):
    """Payload masking: exact byte-level abstract summaries (symbolic payload and key bytes; payload lengths 0-13 and
    16-259 with the loops unrolled) of the one-shot transform, of the masking writer over one and over two successive
    writes, and of the reader's unmasking; every output byte must be payload[k] xor key[k mod 4]."""
    data = var(('payload',))
    MASKLENS = LENS + ([67, 128, 130, 259] if rep.tier == 'thorough' else [67])

    def exact(key, ai, st, got, c, off, n, keyc, pos):
        if got is None or len(got) != n:
            return f'{n}-byte payload yields {None if got is None else len(got)} bytes'
        for i in range(n):
            w = xor_(ai.elem(st, c, K(i), m.u8), ai.elem(st, keyc, K((pos + i) % 4), m.u8))
            if not equal(ai, st, got[i], w):
                return f'byte {i} of {n}: {show(got[i])}, specified {show(w)}'

    # mask_data
    f = next(iter(m.find(r'ws::mask::mask_data$')), None)
    keyv = arg(m, f, 0) if f else None
    for n in MASKLENS if f else ():
        ai, ex = run(m, rep, f, [None, SRef(data, ZERO, K(n), None, m.u8)], merge=False, unroll=600)
        for s, v in ex:
            e = exact('', ai, s, emitted(ai, s, v) if isinstance(v, Vec) else None, data, 0, n, keyv, 0)
            rep.ob(f'mask_data/len={n}', not e, e)
            rep.count('mask_paths')
    # Masker: any starting position, position carried to the next write
    f = one(m, r'ws::mask::Masker<.*> as algorithm::buf::BtMut>::put_slice$')
    mty = type_named(m, r'ws::mask::Masker$')
    kc = var(('key',))
    new = one(m, r'ws::mask::Masker::<.*>::new$')
    # a writer as its constructor leaves it
    for split in [(n,) for n in MASKLENS] + [(a, b) for a in range(0, 6) for b in (0, 1, 3, 4)]:
        ai = AI(m, merge=False, unroll=600)
        st = St(m)
        newbuf(ai, st)
        b0 = ai.body(new)
        keyv = ai.sym(var(('key',), b0.locals[1]), b0.locals[1])
        states = [(s, Ref(('mk',))) for s, v in ai.run(new, [keyv, Ref(('out',))], st) if s.s.__setitem__(('mk',), v) is None]
        off = 0
        for n in split:
            nxt = []
            for s, r in states:
                for s2, v in ai.run(f, [r, SRef(data, K(off), K(off + n), None, m.u8)], s):
                    rep.ob('Masker/reports bytes written', equal(ai, s2, v, K(n)) if isinstance(v, T) else False, f'{v!r} for {n} bytes')
                    nxt.append((s2, r))
            states = nxt
            off += n
        rep.ob('Masker/reachable', bool(states), 'no path through the masking writer')
        for s, _ in states:
            e = exact('', ai, s, emitted(ai, s, s.s[('out',)]), data, 0, off, keyv, 0)
            rep.ob(f'Masker/writes={"+".join(map(str, split))}', not e, e)
            rep.count('mask_paths')
        rep.took(ai)
    rep.floor('mask_paths', len(MASKLENS))
    # a masked frame read back is unmasked with its own key; an unmasked one is returned as is
    body = one(m, r'ws::dataframe::DataFrame::read_dataframe_body$')
    hty = type_named(m, r'ws::frame_header::WsFrameHeader$')
    for n in (0, 1, 5, 9) if f else MASKLENS:
        ai, ex = run(m, rep, body, [None, Vec(data, ZERO, K(n), (), m.u8)], merge=False, unroll=600, cap=400, retcap=400)
        st0 = St(m)
        h = arg(m, body, 0)
        mkf = fld(ai, st0, h, 'mask')
        keyv = ai.proj(mkf, ('f', 1, 0), m.fields(mkf.ty, 1)[0][1])
        has = mk('discr', (mkf,))
        op = fld(ai, st0, h, 'opcode')

        def out(masked):
            def o(ai, s, v):
                if not is_ok(m, v):
                    return 'frame refused'
                dv = fld(ai, s, inner(v), 'data')
                if not isinstance(dv, Vec):
                    return f'payload {dv!r}'
                if masked:
                    return exact('', ai, s, emitted(ai, s, dv), data, 0, n, keyv, 0)
                if dv.c is not data or dv.log or not equal(ai, s, dv.n, K(n)) or not equal(ai, s, dv.p, ZERO):
                    return f'unmasked payload changed: {dv!r}'
            return o
        check_cases(rep, f'read_dataframe_body/len={n}', ai, ex,
                    [('masked', [('dom', op, D.rng(0, 15)), ('dom', has, D.const(1))], out(True)),
                     ('unmasked', [('dom', op, D.rng(0, 15)), ('dom', has, D.const(0))], out(False))])
