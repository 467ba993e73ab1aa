"""Status codes, name tables, character classes."""
import re
from core import *
from spec import *
from reg import prop


def cstr(b):
    return SRef(mk('bytes', (bytes(b),)), ZERO, K(len(b)))


def symstr(name='s', n=None):
    c = var(('buf', name))
    return SRef(c, ZERO, mk('len', (c,)) if n is None else K(n)), c


def const_of(ai, st, v):
    """constant bytes of a str/slice value, or None"""
    v = deref(ai, st, v)
    if isinstance(v, SRef) and isinstance(v.c, T) and v.c.op == 'bytes':
        a, b = st.val(v.s), st.val(v.e)
        if a is not None and b is not None:
            return v.c.args[0][a:b]
    if isinstance(v, Vec):
        return vec_const(ai, st, v)
    return None


def vec_const(ai, st, v):
    r = emitted(ai, st, v)
    if r and all(isinstance(x, T) and st.val(x) is not None for x in r):
        return bytes(st.val(x) for x in r)
    return None


def forced(ai, st, c, off, want):
    """the path facts force bytes off.. of container c to equal want"""
    return all(st.val(ai.elem(st, c, addk(off, i) if isinstance(off, T) else K(off + i), ai.mir.u8)) == b for i, b in enumerate(want))


def name_in(rep, m, key, f, table, wrap_ok=True, other='Err', fold=False):
    """string -> enum: exactly the names of the table map to their variants; anything else is `other`
    ('Err' or a variant name)"""
    for txt, vn in table:
        ai, ex = run(m, rep, f, [cstr(txt.encode())], merge=False)
        rep.ob(f'{key}/some path for {txt!r}', len(ex) > 0, 'no path returns')
        for s, v in ex:
            x = v
            if wrap_ok:
                if not rep.ob(f'{key}/{txt}', is_ok(m, v), f'{txt!r} is refused'):
                    continue
                x = inner(v)
            rep.ob(f'{key}/{txt}', variants_of(ai, s, x) == [vn], f'{txt!r} becomes {variants_of(ai, s, x)}')
    if fold:
        # the function folds case first: every case variant of a name is the name, near misses are not
        reg = {t.lower() for t, _ in table}
        for txt, vn in table:
            for q in (txt.lower(), txt.upper(), txt.capitalize()):
                ai, ex = run(m, rep, f, [cstr(q.encode())], merge=False)
                for s, v in ex:
                    rep.ob(f'{key}/{q}', is_ok(m, v) and variants_of(ai, s, inner(v)) == [vn], f'{q!r} becomes {v!r}')
            for q in {txt[:-1], txt + 'x', txt + ' ', ' ' + txt, txt[0] + txt[2:], txt[:-1] + chr(ord(txt[-1]) - 1)} - {''}:
                if q.lower() in reg:
                    continue
                ai, ex = run(m, rep, f, [cstr(q.encode())], merge=False)
                for s, v in ex:
                    ok_ = is_err(m, v) if other == 'Err' else is_ok(m, v) and variants_of(ai, s, inner(v)) == [other]
                    rep.ob(f'{key}/unlisted', ok_, f'{q!r} becomes {v!r}')
        return
    s0, c = symstr()
    ai, ex = run(m, rep, f, [s0], merge=False, cap=400, retcap=400)
    names = {vn: txt for txt, vn in table}
    seen = set()
    for s, v in ex:
        rep.count('paths')
        if wrap_ok and is_err(m, v):
            continue
        x = inner(v) if wrap_ok else v
        vs = variants_of(ai, s, x)
        for n in vs or ['?']:
            seen.add(n)
            if n in names:
                t = names[n].encode()
                s.touch()
                okk = s.val(sub(s0.e, s0.s)) == len(t) and forced(ai, s, c, 0, t)
                rep.ob(f'{key}/only {names[n]!r} is {n}', okk, f'another string may become {n}; path: {describe(s)}')
            else:
                rep.ob(f'{key}/unlisted', n == other, f'an unlisted name becomes {n}')
    return seen


def name_out(rep, m, key, f, ty, table, byref=True):
    """enum -> string"""
    for txt, vn in table:
        def setup(ai, st):
            place(st, 'x', Agg(ty, m.variant_named(ty, vn), []))
        ai, ex = run(m, rep, f, [Ref(('x',)) if byref else Agg(ty, m.variant_named(ty, vn), [])], setup=setup, merge=False)
        rep.ob(f'{key}/{vn} returns', len(ex) > 0, 'no path returns')
        for s, v in ex:
            g = const_of(ai, s, v)
            rep.ob(f'{key}/{vn}', g == txt.encode(), f'{vn} is written as {g!r}, specified {txt!r}')


METHODS = [(x, x.capitalize()) for x in 'GET POST PUT DELETE HEAD OPTIONS CONNECT PATCH TRACE'.split()]
VERSIONS = [('HTTP/1.0', 'Http10'), ('HTTP/1.1', 'Http11'), ('HTTP/2', 'Http2'), ('HTTP/3', 'Http3')]
SCHEMES = [('http', 'Http'), ('https', 'Https'), ('ws', 'Ws'), ('wss', 'Wss'), ('ftp', 'Ftp')]


def flags_of(rep, m, key, f, ty, true_set, payload=()):
    """predicate on an enum: true exactly for the named variants"""
    for v in m.variants(ty):
        n = v['name']
        def setup(ai, st):
            place(st, 'x', struct(m, ty, n))
        ai, ex = run(m, rep, f, [Ref(('x',))], setup=setup, merge=False)
        for s, r in ex:
            rep.ob(f'{key}/{n}', isinstance(r, T) and s.val(r) == (1 if n in true_set else 0), f'{n}: {r!r}')


@prop('C27')
def c27(m, rep):
    """Constant-propagation and symbolic-string summaries of the name conversions: every registered method, version and
    scheme name maps to its own variant and back, and no other string reaches a registered variant (the path facts must
    force every byte)."""
    mt = type_named(m, r'http::method::Method$')
    name_in(rep, m, 'Method::try_from', one(m, r'method::Method as .*TryFrom<&str>>::try_from$'), METHODS)
    name_in(rep, m, 'Method::from_str', one(m, r'method::Method as .*FromStr>::from_str$'), METHODS, fold=True)
    name_out(rep, m, 'Method::as_str', one(m, r'method::Method::as_str$'), mt, METHODS)
    flags_of(rep, m, 'Method::is_nobody', one(m, r'method::Method::is_nobody$'), mt, {'Get', 'Head', 'Options', 'Connect'})
    flags_of(rep, m, 'Method::res_nobody', one(m, r'method::Method::res_nobody$'), mt, {'Head', 'Options', 'Connect'})
    vt = type_named(m, r'http::version::Version$')
    name_in(rep, m, 'Version::from', one(m, r'version::Version as .*From<&str>>::from$'), VERSIONS, wrap_ok=False, other='None')
    name_out(rep, m, 'Version::as_str', one(m, r'version::Version::as_str$'), vt, VERSIONS)
    flags_of(rep, m, 'Version::is_http1', one(m, r'version::Version::is_http1$'), vt, {'Http10', 'Http11'})
    flags_of(rep, m, 'Version::is_http2', one(m, r'version::Version::is_http2$'), vt, {'Http2'})
    st_ = type_named(m, r'url::scheme::Scheme$')
    name_in(rep, m, 'Scheme::try_from', one(m, r'scheme::Scheme as .*TryFrom<&str>>::try_from$'), SCHEMES, other='Extension')
    name_in(rep, m, 'Scheme::from_str', one(m, r'scheme::Scheme as .*FromStr>::from_str$'), SCHEMES, other='Extension', fold=True)
    name_out(rep, m, 'Scheme::as_str', one(m, r'scheme::Scheme::as_str$'), st_, SCHEMES)
    for n in ('http', 'https', 'ws', 'wss', 'none'):
        flags_of(rep, m, f'Scheme::is_{n}', one(m, rf'scheme::Scheme::is_{n}$'), st_, {n.capitalize()})


REASONS = {
    100: 'Continue', 101: 'Switching Protocols', 102: 'Processing', 200: 'OK', 201: 'Created', 202: 'Accepted',
    203: 'Non-Authoritative Information', 204: 'No Content', 205: 'Reset Content', 206: 'Partial Content', 207: 'Multi-Status',
    208: 'Already Reported', 226: 'IM Used', 300: 'Multiple Choices', 301: 'Moved Permanently', 302: 'Found', 303: 'See Other',
    304: 'Not Modified', 305: 'Use Proxy', 307: 'Temporary Redirect', 308: 'Permanent Redirect', 400: 'Bad Request',
    401: 'Unauthorized', 402: 'Payment Required', 403: 'Forbidden', 404: 'Not Found', 405: 'Method Not Allowed',
    406: 'Not Acceptable', 407: 'Proxy Authentication Required', 408: 'Request Timeout', 409: 'Conflict', 410: 'Gone',
    411: 'Length Required', 412: 'Precondition Failed', 413: 'Payload Too Large', 414: 'URI Too Long', 415: 'Unsupported Media Type',
    416: 'Range Not Satisfiable', 417: 'Expectation Failed', 418: "I'm a teapot", 421: 'Misdirected Request',
    422: 'Unprocessable Entity', 423: 'Locked', 424: 'Failed Dependency', 426: 'Upgrade Required', 428: 'Precondition Required',
    429: 'Too Many Requests', 431: 'Request Header Fields Too Large', 451: 'Unavailable For Legal Reasons',
    500: 'Internal Server Error', 501: 'Not Implemented', 502: 'Bad Gateway', 503: 'Service Unavailable', 504: 'Gateway Timeout',
    505: 'HTTP Version Not Supported', 506: 'Variant Also Negotiates', 507: 'Insufficient Storage', 508: 'Loop Detected',
    510: 'Not Extended', 511: 'Network Authentication Required'}


def norm(s):
    return re.sub(r'[^a-z0-9]', '', s.lower())


@prop('C09')
def c09(m, rep):
    """Interval and enumeration summaries of the status-code functions over every 16-bit number, every byte string and
    every code, compared with RFC 9110 15: 100-999 only, three digits, class ranges, registered reason phrases."""
    f = one(m, r'status::StatusCode::from_u16$')
    ai, ex = run(m, rep, f, merge=False)
    x = arg(m, f, 0)

    def same(t):
        def o(ai, s, v):
            if not is_ok(m, v):
                return 'a code between 100 and 999 is refused'
            g = scalar(ai, s, inner(v))
            if not isinstance(g, T) or not equal(ai, s, g, t):
                return f'the code read is {g!r}'
        return o

    def refused(ai, s, v):
        return None if is_err(m, v) else 'a value that is not a three-digit status code is accepted'
    check_cases(rep, 'from_u16', ai, ex, [('below 100', [('dom', x, D.rng(0, 99))], refused), ('100-999', [('dom', x, D.rng(100, 999))], same(x)),
                                          ('above 999', [('dom', x, D.rng(1000, 65535))], refused)])
    dig = D.rng(48, 57)
    nd = D.of([i for i in range(256) if not 48 <= i <= 57])
    for nm, rx in (('from_bytes', r'status::StatusCode::from_bytes$'), ('try_from(&[u8])', r'StatusCode as .*TryFrom<&.*\[u8\]>>::try_from$'),
                   ('try_from(&str)', r'StatusCode as .*TryFrom<&.*str>>::try_from$'), ('from_str', r'StatusCode as .*FromStr>::from_str$')):
        f = one(m, rx)
        s0, c = symstr()
        ai, ex = run(m, rep, f, [s0], merge=False, cap=400, retcap=400)
        ln = s0.e
        e = [ai.elem(St(m), c, K(i), m.u8) for i in range(3)]
        v100 = addk(add(add(scale(e[0], 100), scale(e[1], 10)), e[2]), -48 * 111)
        check_cases(rep, nm, ai, ex, [
            ('short', [('dom', ln, D.rng(0, 2))], refused), ('long', [('dom', ln, D.rng(4, 1 << 62))], refused),
            ('digits', [('dom', ln, D.const(3)), ('dom', e[0], D.rng(49, 57)), ('dom', e[1], dig), ('dom', e[2], dig)], same(v100)),
            ('leading zero', [('dom', ln, D.const(3)), ('dom', e[0], D.const(48))], refused)] + [
            (f'non-digit {i}', [('dom', ln, D.const(3)), ('dom', e[i], nd)], refused) for i in range(3)])
    # code -> text: the slice [3(c-100), 3(c-100)+3) of the digit table
    ty = type_named(m, r'http::status::StatusCode$')
    g = one(m, r'status::StatusCode::as_str$')
    tab = {}
    for code in range(100, 1000):
        def setup(ai, st):
            place(st, 'x', code_val(m, ty, code))
        ai, ex = run(m, rep, g, [Ref(('x',))], setup=setup, merge=False)
        rep.ob('as_str/returns', len(ex) > 0, f'{code}: no path returns')
        for s, v in ex:
            w = const_of(ai, s, v)
            rep.ob('as_str', w == str(code).encode(), f'{code} is written as {w!r}')
            rep.count('codes')
    rep.floor('codes', 900)
    r = one(m, r'status::StatusCode::canonical_reason$')
    cls = [('is_informational', 1), ('is_success', 2), ('is_redirection', 3), ('is_client_error', 4), ('is_server_error', 5)]
    sym = var(('code',), m.u16 if hasattr(m, 'u16') else None)
    for nm, k in cls:
        f = one(m, rf'status::StatusCode::{nm}$')

        def setup(ai, st):
            place(st, 'x', code_val(m, ty, sym))
            st.refine(sym, D.rng(1, 65535))
        ai, ex = run(m, rep, f, [Ref(('x',))], setup=setup, merge=False)

        def is_(b):
            return lambda ai, s, v: None if isinstance(v, T) and s.val(v) == b else f'answers {v!r}'
        check_cases(rep, nm, ai, ex, [('inside', [('dom', sym, D.rng(100 * k, 100 * k + 99))], is_(1)), ('below', [('dom', sym, D.rng(100, 100 * k - 1))], is_(0))][:2 if k > 1 else 1]
                    + [('above', [('dom', sym, D.rng(100 * k + 100, 999))], is_(0))])
    for code in range(100, 1000):
        def setup(ai, st):
            place(st, 'x', code_val(m, ty, code))
        ai, ex = run(m, rep, r, [Ref(('x',))], setup=setup, merge=False)
        for s, v in ex:
            if code in REASONS:
                w = const_of(ai, s, inner(v)) if variant(m, v) == 'Some' else None
                rep.ob(f'reason/{code}', w is not None and norm(w.decode('latin1')) == norm(REASONS[code]), f'{code}: {w!r}')
            else:
                w = const_of(ai, s, inner(v)) if variant(m, v) == 'Some' else None
                rep.ob('reason/unregistered', w is None or norm(w.decode('latin1')) not in {norm(q) for q in REASONS.values()}, f'{code}: {w!r}')


def code_val(m, ty, x):
    """StatusCode holding x (descends the NonZero wrappers)"""
    x = K(x) if isinstance(x, int) else x

    def build(t, d=0):
        if m.bits(t) is not None or d > 6:
            return x
        fs = m.fields(t, 0)
        if not fs or len(fs) != 1:
            return x
        return Agg(t, 0, [build(fs[0][1], d + 1)])
    return build(ty)
