"""URL properties: percent coding, authority splitting, serialisation."""
from core import *
from spec import *
from text import *
from reg import prop

HEX = b'0123456789ABCDEF'
UNRESERVED = set(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~')
URISAFE = UNRESERVED | set(b":/?#[]@!$&'()*+,;=")
HEXV = {**{48 + i: i for i in range(10)}, **{65 + i: 10 + i for i in range(6)}, **{97 + i: 10 + i for i in range(6)}}


def out_bytes(ai, st, v):
    """byte terms of a String / Vec result"""
    if isinstance(v, Vec) and not v.log:
        n = st.val(sub(v.n, v.p))
        if n is None or n > 4096:
            return None
        return [ai.elem(st, v.c, addk(v.p, i), ai.mir.u8) for i in range(n)]
    if isinstance(v, Vec):
        return emitted(ai, st, v)
    if isinstance(v, SRef):
        if v.src is not None:
            return emitted(ai, st, v.src)
        n = st.val(v.len)
        return None if n is None else [ai.elem(st, v.c, addk(v.s, i), ai.mir.u8) for i in range(n)]
    return None


def decode_model(bs):
    """[(dom conditions on bytes, decoded byte spec list or None)] for a string of len(bs) symbolic bytes"""
    out = []

    def go(i, conds, acc):
        if i == len(bs):
            out.append((conds, acc))
            return
        go(i + 1, conds + [('dom', bs[i], D.diff(D.U8, D.const(37)))], acc + [bs[i]])
        pc = conds + [('dom', bs[i], D.const(37))]
        if i + 2 >= len(bs):
            out.append((pc, None))
            return
        out.append((pc + [('dom', bs[i + 1], NOTHEX)], None))
        out.append((pc + [('dom', bs[i + 1], ISHEX), ('dom', bs[i + 2], NOTHEX)], None))
        go(i + 3, pc + [('dom', bs[i + 1], ISHEX), ('dom', bs[i + 2], ISHEX)], acc + [(bs[i + 1], bs[i + 2])])
    go(0, [], [])
    return out


ISHEX = D.of(list(HEXV))
NOTHEX = D.diff(D.U8, ISHEX)


def hexpair(ai, st, g, hi, lo):
    """g = 16*hexval(hi)+hexval(lo) on every value the state allows"""
    hv = mk('tbl', (mk('carr', (tuple(HEXV.get(i, 0) for i in range(256)),)), hi))
    lv = mk('tbl', (mk('carr', (tuple(HEXV.get(i, 0) for i in range(256)),)), lo))
    return equal(ai, st, g, add(scale(hv, 16), lv))


@prop('C26')
def c26(m, rep):
    """Byte-level abstract summaries of the percent encoder and decoders over symbolic bytes."""
    # hex digits
    th = one(m, r'helper::Helper::to_hex$')
    for i in range(16):
        ai, ex = run(m, rep, th, [K(i)], merge=False)
        for s, v in ex:
            rep.ob(f'to_hex/{i}', isinstance(v, T) and s.val(v) == HEX[i], f'{i} becomes {v!r}')
        rep.ob('to_hex/returns', bool(ex))
    ch = one(m, r'helper::Helper::convert_hex$')
    x = arg(m, ch, 0)
    ai, ex = run(m, rep, ch, merge=False)

    def val(w):
        return lambda ai, s, v: None if variant(m, v) == 'Some' and s.val(inner(v)) == w else f'becomes {v!r}, specified {w}'
    check_cases(rep, 'convert_hex', ai, ex, [(chr(b), [('dom', x, D.const(b))], val(w)) for b, w in HEXV.items()]
                + [('other', [('dom', x, NOTHEX)], lambda ai, s, v: None if variant(m, v) == 'None' else f'becomes {v!r}')])
    # encoder: every byte value in every position of strings of up to 3 bytes
    enc = one(m, r'url::url::Url::url_encode$')
    f = one(m, r'url::url::Url::url_decode$')
    lit = set()
    for n in (0, 1, 2, 3):
        sv, c = symstr('s', n)
        e = [ai.elem(St(m), c, K(i), m.u8) for i in range(n)]
        ai, ex = run(m, rep, enc, [sv], merge=False, cap=400, retcap=400, unroll=20)
        rep.ob('encode/returns', bool(ex), 'no path returns')
        for s, v in ex:
            s.touch()
            out = out_bytes(ai, s, v)
            rep.count('encode_paths')
            if not rep.ob('encode/output known', out is not None, f'{v!r}'):
                continue
            k = 0
            for i in range(n):
                d = s.dom(e[i])
                if k < len(out) and s.val(out[k]) == 37 and k + 2 < len(out) and D.has(d, 0) is not None and s.val(out[k]) != s.val(e[i]):
                    for b in D.it(d):
                        s2 = s.copy()
                        if not s2.refine(e[i], D.const(b)):
                            continue
                        s2.touch()
                        rep.ob('encode/escape is the byte in hex', s2.val(out[k + 1]) == HEX[b >> 4] and s2.val(out[k + 2]) == HEX[b & 15],
                               f'byte {b} is written as %{s2.val(out[k + 1])}/{s2.val(out[k + 2])}')
                    k += 3
                elif k < len(out):
                    lit |= set(D.it(d))
                    bad = set(D.it(d)) - (URISAFE - {37})
                    rep.ob('encode/literal bytes are URI characters', not bad, f'bytes {sorted(bad)[:8]} are written unescaped')
                    rep.ob('encode/literal bytes unchanged', equal(ai, s, out[k], e[i]), f'{show(out[k])} written for {show(e[i])}')
                    k += 1
            rep.ob('encode/one unit per byte', k == len(out), f'{len(out)} bytes written for {n}; path {describe(s)}')
    rep.count('literal_bytes', len(lit))
    rep.ob('encode/letters and digits stay', all(b in lit for b in b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'),
           'a letter or digit is escaped')
    # decoders
    p = one(m, r'url::url::Url::parse_url_token$')
    for nm, g, mkargs in (('url_decode', f, lambda sv: [sv]), ('parse_url_token', p, None)):
        for n in range(0, 6):
            sv, c = symstr('s', n)
            e = [ai.elem(St(m), c, K(i), m.u8) for i in range(n)]
            if mkargs:
                ai, ex = run(m, rep, g, mkargs(sv), merge=False, cap=4000, retcap=4000, unroll=20, lossy_id=True)
            else:
                def setup(ai, st):
                    st.s[('in',)] = Vec(c, ZERO, K(n), (), m.u8)
                ai, ex = run(m, rep, g, [Ref(('in',)), K(1)], setup=setup, merge=False, cap=4000, retcap=4000, unroll=20, unroll_buf=True)
                ex = [(s, v) for s, v in ex if not (is_err(m, v) and is_utf8_err(ai, s, v))]

            def outcome(acc):
                def o(ai, s, v):
                    if acc is None:
                        return None if is_err(m, v) else f'an invalid escape is accepted: {v!r}'
                    if is_err(m, v):
                        return None if mkargs is None and nonascii(s, acc) else 'a valid string is refused'
                    w = inner(v)
                    if variant(m, w) == 'Some':
                        w = inner(w)
                    got = out_bytes(ai, s, w)
                    if got is None or len(got) != len(acc):
                        return f'decodes to {None if got is None else len(got)} bytes, specified {len(acc)}'
                    for a, b in zip(got, acc):
                        if isinstance(b, tuple):
                            if not hexpair(ai, s, a, *b):
                                return f'an escape decodes to {show(a)}'
                        elif not equal(ai, s, a, b):
                            return f'{show(b)} decodes to {show(a)}'
                return o
            cs = decode_model(e)
            check_cases(rep, f'{nm}/len={n}', ai, ex, [(str(i), cd, outcome(acc)) for i, (cd, acc) in enumerate(cs)])
            rep.count('decode_cases', len(cs))
    rep.floor("decode_cases", 70)


def nonascii(st, acc):
    return any(isinstance(b, tuple) or st.hi(b) > 127 for b in acc)


def is_utf8_err(ai, s, v):
    return False
