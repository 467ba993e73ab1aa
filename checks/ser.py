"""Serialisation of HTTP/1 heads and of bodies."""
from core import *
from spec import *
from text import *
from msg import *
from reg import prop



def mkstr(m, parts):
    """String / Vec<u8> of constant and symbolic bytes"""
    bs = template(m, parts if isinstance(parts, list) else [parts])
    return Vec(Agg(None, 0, bs), ZERO, K(len(bs)), (), m.u8)


def mkslice(m, parts, cell=None):
    bs = template(m, parts if isinstance(parts, list) else [parts])
    return SRef(Agg(None, 0, bs), ZERO, K(len(bs)), cell, m.u8)


def enum_of(m, ty, name, *fs):
    return Agg(ty, m.variant_named(ty, name), list(fs))


def option(m, ty, v):
    return enum_of(m, ty, 'None') if v is None else enum_of(m, ty, 'Some', v)


def fty(m, ty, name, v=0):
    return next(t for n, t in m.fields(ty, v) if n == name)


def targ(m, ty, i=0):
    return m.types[ty]['args'][i]


def pointee(m, ty):
    t = m.types[ty]
    return t.get('to', t.get('ty', t.get('args', [None])[0]))


def name_val(m, ty, v, stand=False):
    return enum_of(m, ty, 'Stand', mkslice(m, v)) if stand else enum_of(m, ty, 'Value', mkstr(m, v))


def headermap(m, hs, stand=False):
    """HeaderMap of [(name parts, value parts)]"""
    ty = type_named(m, r'header::HeaderMap$')
    tup = targ(m, fty(m, ty, 'headers'))
    nt, vt = m.types[tup]['args'] if m.types[tup].get('args') else [t for _, t in m.fields(tup, 0)]
    el = [Agg(tup, 0, [name_val(m, nt, n, stand), name_val(m, vt, v, stand)]) for n, v in hs]
    return struct(m, ty, headers=Vec(Agg('seq', 0, el), ZERO, K(len(el)), (), tup))


def url_val(m, path=b'/', query=None, **kw):
    ty = type_named(m, r'url::url::Url$')
    o = {k: option(m, fty(m, ty, k), None if v is None else v if k == 'port' else mkstr(m, v))
         for k, v in dict(dict(username=None, password=None, domain=None, port=None, query=query), **kw).items() if k != 'scheme'}
    sch = kw.get('scheme', 'None')
    return struct(m, ty, scheme=enum_of(m, fty(m, ty, 'scheme'), sch) if isinstance(sch, str) else sch, path=mkstr(m, path), **o)



BODY = b'\x00z\r\n'


def self_ty(m, f):
    return pointee(m, f['body']['locals'][1])


def request_val(m, ty, method='Get', version='Http11', headers=(), body=BODY, **url):
    pt = fty(m, ty, 'parts')
    mt, vt = fty(m, pt, 'method'), fty(m, pt, 'version')
    mv = enum_of(m, mt, method) if isinstance(method, str) else method
    return struct(m, ty, body=mkstr(m, body), parts=struct(m, pt, method=mv, version=enum_of(m, vt, version), header=headermap(m, headers), url=url_val(m, **url)))


def response_val(m, ty, status=200, version='Http11', headers=(), body=BODY):
    pt = fty(m, ty, 'parts')
    return struct(m, ty, body=mkstr(m, body), parts=struct(m, pt, status=code_val(m, fty(m, pt, 'status'), status),
                                                           version=enum_of(m, fty(m, pt, 'version'), version), header=headermap(m, headers)))


def syms_of(*parts):
    return [p for x in parts for p in (x if isinstance(x, list) else [x]) if isinstance(p, T)]


def fill(parts, env):
    return b''.join(bytes([env[p]]) if isinstance(p, T) else p for p in (parts if isinstance(parts, list) else [parts]))


def each(ai, exits, doms):
    """(state, value, {symbol: byte}) for every exit and every value its symbols can take there"""
    syms = list(doms)
    for s, v in exits:
        s.touch()
        rng = [[x for x in D.it(s.dom(b)) if x in doms[b]] for b in syms]
        for vals in itertools.product(*rng):
            t = s.copy()
            if not all(t.refine(b, D.const(x)) for b, x in zip(syms, vals)):
                continue
            t.touch()
            if consistent(t, 1):
                yield t, v, dict(zip(syms, vals))


def write(m, rep, key, f, selfv, doms, check, ret=False):
    """run a writer (self, buffer) [or (self) -> Vec] on the value and check what it emits for every value of the symbols"""
    def setup(ai, st):
        st.s[('me',)] = selfv
        st.s[('out',)] = Vec(Agg(None, 0, []), ZERO, ZERO, (), m.u8)
        for b, d in doms.items():
            st.refine(b, D.of(sorted(d)))
    ai, ex = run(m, rep, f, [Ref(('me',))] + ([] if ret else [Ref(('out',))]), setup=setup, **EXACT)
    seen = set()
    for t, v, env in each(ai, ex, doms):
        rep.count('inputs')
        seen.add(tuple(env.values()))
        check(ai, t, v, env)
    n = 1
    for d in doms.values():
        n *= len(d)
    rep.ob(f'{key}/returns', len(seen) == n, f'{n - len(seen)} of {n} inputs reach no return')


ASCII = set(range(128))


@prop('C29')
def c29(m, rep):
    """Byte-exact abstract summaries of the HTTP/1 head writers on values with an arbitrary byte in each text part; what they
    emit is read by the reference grammar and has to give the value back, and the size returned is what was written."""
    b = var(('b', 0), m.u8)
    rq = one(m, r'Request::<algorithm::buf::BinaryMut>::encode_header')
    rd = one(m, r'Request::<algorithm::buf::BinaryMut>::http1_data$')
    rs = one(m, r'Response::<algorithm::buf::BinaryMut>::encode_header')
    rr = one(m, r'Response::<algorithm::buf::BinaryMut>::httpdata$')
    ser = one(m, r'Response<algorithm::buf::BinaryMut> as .*Serialize>::serialize')
    H = [(b'Host', b'h:1'), (b'x-a', b''), (b'B', b'1 2')]

    def request(key, f, ret, doms, **kw):
        ty = self_ty(m, f)

        def check(ai, t, v, env):
            name = kw.get('method', 'Get')
            good = name != 'None' and kw.get('version', 'Http11') != 'None'
            if not good:
                rep.ob(f'{key}/refused', is_err(m, v), f'{kw} is written')
                return
            if not rep.ob(f'{key}/written', is_ok(m, v), f'{env}: {v!r}'):
                return
            out = const_bytes_of(ai, t, inner(v)) if ret else const_bytes_of(ai, t, ai.read(t, ('out',), ()))
            if not rep.ob(f'{key}/determined', out is not None, f'{env}: bytes not determined'):
                return
            if not ret:
                rep.ob(f'{key}/size', num_of(ai, t, inner(v)) == len(out), f'reports {num_of(ai, t, inner(v))} bytes, writes {len(out)}: {out!r}')
            k, r = verdict(ref_request, out)
            if not rep.ob(f'{key}/grammar', k == 'ok', f'writes {out!r}, which is {k}'):
                return
            path, q = fill(kw.get('path', b'/'), env), kw.get('query')
            q = None if q is None else fill(q, env)
            mname = fill(name, env) if isinstance(name, list) else name
            rep.ob(f'{key}/body', out[r['used']:] == (fill(kw.get('body', BODY), env) if ret else b''), f'{out!r}: after the head')
            rep.ob(f'{key}/method', r['method'] == mname, f'{out!r}: method {r["method"]!r}, set {mname!r}')
            rep.ob(f'{key}/version', r['version'] == kw.get('version', 'Http11'), f'{out!r}: version')
            want = [(fill(n, env), fill(w, env)) for n, w in kw.get('headers', ())]
            rep.ob(f'{key}/headers', r['headers'] == want, f'{out!r}: headers, set {want!r}')
            if name == 'Connect':
                if kw.get('domain'):
                    rep.ob(f'{key}/address', (r['url']['domain'], r['url']['port']) == (kw['domain'], kw['port'].args[0]), f'{out!r}: connects elsewhere')
                return
            rep.ob(f'{key}/path', r['url']['path'] == path, f'{out!r}: path {r["url"]["path"]!r}, set {path!r}')
            rep.ob(f'{key}/query', r['url']['query'] == q, f'{out!r}: query {r["url"]["query"]!r}, set {q!r}')
        a = dict(kw)
        if a.get('method', 'Get') in METHVAR:
            a['method'] = a.get('method', 'Get')
        write(m, rep, key, f, request_val(m, ty, **a), doms, check, ret)

    def response(key, f, ret, doms, **kw):
        ty = self_ty(m, f)

        def check(ai, t, v, env):
            if kw.get('version') == 'None':
                rep.ob(f'{key}/refused', is_err(m, v), f'{kw} is written')
                return
            if not is_ok(m, v):
                rep.ob(f'{key}/written', kw.get('status', 200) not in REASONS, f'{kw}: {v!r}')
                return
            out = const_bytes_of(ai, t, inner(v)) if ret else const_bytes_of(ai, t, ai.read(t, ('out',), ()))
            if not rep.ob(f'{key}/determined', out is not None, f'{env}: bytes not determined'):
                return
            if not ret:
                rep.ob(f'{key}/size', num_of(ai, t, inner(v)) == len(out), f'reports {num_of(ai, t, inner(v))} bytes, writes {len(out)}: {out!r}')
            k, r = verdict(ref_response, out)
            if not rep.ob(f'{key}/grammar', k == 'ok', f'writes {out!r}, which is {k}'):
                return
            rep.ob(f'{key}/body', out[r['used']:] == (fill(kw.get('body', BODY), env) if ret or kw.get('whole') else b''), f'{out!r}: after the head')
            rep.ob(f'{key}/status', r['status'] == kw.get('status', 200), f'{out!r}: status')
            rep.ob(f'{key}/version', r['version'] == kw.get('version', 'Http11'), f'{out!r}: version')
            want = [(fill(n, env), fill(w, env)) for n, w in kw.get('headers', ())]
            rep.ob(f'{key}/headers', r['headers'] == want, f'{out!r}: headers, set {want!r}')
        write(m, rep, key, f, response_val(m, ty, **{k: v for k, v in kw.items() if k != 'whole'}), doms, check, ret)

    for nm, f, ret in (('request head', rq, False), ('request', rd, True)):
        for v in ('Http10', 'Http11', 'Http2', 'Http3', 'None'):
            request(nm, f, ret, {}, version=v, headers=H)
        for me in sorted(METHVAR | {'None'}):
            request(nm, f, ret, {}, method=me, headers=H)
        for port in (1, 80, 443, 65535):
            request(nm, f, ret, {}, method='Connect', domain=b'h.x', port=K(port), headers=H)
            request(nm, f, ret, {}, domain=b'h.x', port=K(port), path=b'/a', headers=H)
        ab = {b: ASCII}
        request(nm, f, ret, ab, path=[b'/', b])
        request(nm, f, ret, ab, path=[b'/a', b, b'z'], query=b'q', headers=H)
        request(nm, f, ret, ab, path=b'/p', query=[b])
        request(nm, f, ret, ab, path=b'/\xe4\xbd\xa0', query=[b'k=', b, b'\xc3\xbf'], headers=H)
        request(nm, f, ret, {b: set(range(0x80, 0xc0))}, path=[b'/\xc3', b], query=[b'\xc3', b])
        request(nm, f, ret, {b: TCHAR}, headers=[(b'A', b'1'), ([b], b'v')])
        request(nm, f, ret, {b: TCHAR}, headers=[([b'x', b, b'y'], b'v'), (b'Z', b'')])
        request(nm, f, ret, {b: VALUE - {32}}, headers=[(b'A', [b])])
        request(nm, f, ret, {b: VALUE}, headers=[(b'A', [b'x', b, b'y']), (b'C', b'd')])
    request('request', rd, True, {b: set(range(256))}, body=[b'\r', b, b'\n'])
    request('request', rd, True, {}, body=b'')
    for nm, f, ret, wh in (('response head', rs, False, False), ('response', rr, True, False), ('serialized response', ser, False, True)):
        for v in ('Http10', 'Http11', 'Http2', 'Http3', 'None'):
            response(nm, f, ret, {}, version=v, headers=H, whole=wh)
        for c in sorted(REASONS) + [299, 999]:
            response(nm, f, ret, {}, status=c, whole=wh)
        response(nm, f, ret, {b: TCHAR}, headers=[([b'x', b, b'y'], b'v'), (b'Z', b'')], whole=wh)
        response(nm, f, ret, {b: VALUE}, headers=[(b'A', [b'x', b, b'y']), (b'C', b'd')], whole=wh)
    for nm, f, ret, wh in (('response', rr, True, False), ('serialized response', ser, False, True)):
        response(nm, f, ret, {b: set(range(256))}, body=[b'\r', b, b'\n'], whole=wh)
        response(nm, f, ret, {}, body=b'', whole=wh)
    rep.floor('inputs', 4000)


METHVAR = set(METH.values())


# ------------------------------------------------------------------ URLs written out
@prop('C36')
def c36(m, rep):
    """Byte-exact abstract summaries of the URL formatter on values with an arbitrary ASCII byte in each part; what it writes is
    read by the reference splitter and has to give every part back."""
    b = var(('b', 0), m.u8)
    f = one(m, r'url::url::Url as std::fmt::Display>::fmt$')
    tos = one(m, r'url::url::Url::get_connect_url$')
    auth = one(m, r'url::url::Url::get_authority$')
    base = dict(scheme='Http', domain=b'h.x', port=K(80), path=b'/p')

    def put(doms, **kw):
        u = dict(base)
        u.update(kw)

        def check(ai, t, v, env):
            out = const_bytes_of(ai, t, ai.read(t, ('out',), ()))
            if not rep.ob('url/determined', out is not None and is_ok(m, v), f'{env}: bytes not determined'):
                return
            k, r = verdict(ref_url, out)
            if not rep.ob('url/grammar', k == 'ok', f'writes {out!r}, which is {k}'):
                return
            for p in ('scheme', 'username', 'password', 'domain', 'port', 'path', 'query'):
                w = u.get(p)
                w = (w.args[0] if w is not None else 0) if p == 'port' else w if p == 'scheme' or w is None else fill(w, env)
                if p == 'scheme' and w == 'None':
                    w = None
                rep.ob(f'url/{p}', r[p] == w, f'writes {out!r}: {p} {r[p]!r}, set {w!r}')
        write(m, rep, 'url', f, url_val(m, **u), doms, check)
    for sch in ('Http', 'Https', 'Ws', 'Wss', 'Ftp'):
        for port in (80, 443, 21, 1, 65535):
            put({}, scheme=sch, port=K(port))
            put({}, scheme=sch, port=K(port), username=b'u', password=b'p', query=b'q')
            put({}, scheme=sch, port=K(port), path=b'/', query=b'')
    put({}, scheme='None', domain=None, port=None, path=b'/a', query=b'b=c')
    put({}, scheme='None', domain=None, port=None, path=b'/')
    a = {b: ASCII}
    for up in ({}, dict(username=b'u', password=b'p')):
        put(a, path=[b'/', b], **up)
        put(a, path=[b'/a', b, b'z'], query=b'', **up)
        put(a, query=[b, b'=1'], **up)
        put(a, domain=[b'x', b, b'y'], **up)
        put({b: ASCII - {64, 58}}, domain=[b], port=K(8), **up)
    put(a, username=[b], password=b'x')
    put(a, username=b'x', password=[b'1', b])
    put(a, username=[b'x', b], password=[b])
    put({b: set(range(0x80, 0xc0))}, path=[b'/\xe4\xbd', b], query=[b'\xc3', b], domain=[b'd\xc3', b])
    # address and authority
    for sch, dflt in (('Http', 80), ('Https', 443), ('Ws', None), ('Wss', None), ('Ftp', None)):
        for port in (1, 21, 80, 443, 8080, 65535):
            val = url_val(m, scheme=sch, domain=b'h.x', port=K(port))

            def addr(want, key, wrap):
                def check(ai, t, v, env):
                    got = opt(ai, t, v, lambda x: text_of(ai, t, x)) if wrap else text_of(ai, t, v)
                    rep.ob(key, got == want, f'{sch} port {port}: {got!r}, specified {want!r}')
                return check
            write(m, rep, 'connect', tos, val, {}, addr(b'h.x:%d' % port, 'connect/address', True), True)
            write(m, rep, 'authority', auth, val, {}, addr(b'h.x' if port == dflt else b'h.x:%d' % port, 'authority/text', False), True)
    write(m, rep, 'connect', tos, url_val(m, path=b'/x'), {}, lambda ai, t, v, env: rep.ob('connect/none', opt(ai, t, v, lambda x: 1) is None, 'address without a host'), True)
    rep.floor('inputs', 1500)


# ------------------------------------------------------------------ bodies and single tokens
@prop('C28')
def c28(m, rep):
    """Write-log summaries of every serialiser over a symbolic string of symbolic length: the bytes appended are the bytes of
    the value and the size returned is their number."""
    def go(key, f, val, want, noneerr=False):
        def setup(ai, st):
            st.s[('me',)] = val(ai, st)
            newbuf(ai, st)
        ai, ex = run(m, rep, f, [Ref(('me',)), Ref(('out',))], setup=setup, merge=False)
        rep.ob(f'{key}/returns', bool(ex), 'no path returns')
        for s, v in ex:
            rep.count('paths')
            if noneerr:
                rep.ob(f'{key}/refused', is_err(m, v), f'{v!r}')
                rep.ob(f'{key}/nothing written', s.val(ai.read(s, ('out',), ()).n) == 0, 'writes something')
                continue
            if not rep.ob(f'{key}/ok', is_ok(m, v), f'{v!r}'):
                continue
            o = ai.read(s, ('out',), ())
            w = want(ai, s)
            wl = w.len if isinstance(w, SRef) else K(len(w))
            rep.ob(f'{key}/size', isinstance(inner(v), T) and equal(ai, s, inner(v), wl), f'reports {inner(v)!r}, writes {show(wl)}')
            rep.ob(f'{key}/length', equal(ai, s, o.n, wl), f'appends {show(o.n)} bytes, specified {show(wl)}')
            if isinstance(w, bytes):
                rep.ob(f'{key}/bytes', const_bytes_of(ai, s, o) == w, f'writes {const_bytes_of(ai, s, o)!r}, specified {w!r}')
            else:
                e = same_bytes(ai, s, emitted(ai, s, o), [w])
                rep.ob(f'{key}/bytes', not e, e)
    R = r'as .*Serialize>::serialize::<algorithm::buf::BinaryMut>$'
    c = var(('buf', 's'))
    ln = mk('len', (c,))
    sl = SRef(c, ZERO, ln, None, m.u8)
    vec = lambda ai, st: Vec(c, ZERO, ln, (), m.u8)
    ref = lambda ai, st: sl
    whole = lambda ai, s: sl
    for nm, rx, val in (('&str', r"<&.*str ", ref), ('String', r'<std::string::String ', vec), ('Vec<u8>', r'<std::vec::Vec<u8> ', vec),
                        ('&[u8]', r'<&.*\[u8\] ', ref), ('Binary', r'<algorithm::buf::Binary ', vec), ('BinaryMut', r'<algorithm::buf::BinaryMut ', vec)):
        go(nm, one(m, rx + R), val, whole)
    # a buffer that has been partly read serialises what is left
    p0 = var(('fld0', 'pos'), m.usize)
    for nm in ('Binary', 'BinaryMut'):
        def part(ai, st):
            st.assume(ge0(sub(ln, p0)), 1)
            st.refine(p0, ((0, 1 << 40),))
            return Vec(c, p0, ln, (), m.u8)
        go(nm + ' partly read', one(m, rf'<algorithm::buf::{nm} ' + R), part, lambda ai, s: SRef(c, p0, ln, None, m.u8))
    go('()', one(m, r'<\(\) ' + R), lambda ai, st: UNIT, lambda ai, s: b'')
    for nm, rx, ty in (('header name', r'name::HeaderName::encode::', r'name::HeaderName$'), ('header value', r'value::HeaderValue::encode::', r'value::HeaderValue$')):
        t = type_named(m, ty)
        go(nm + ' static', one(m, rx), lambda ai, st: enum_of(m, t, 'Stand', sl), whole)
        go(nm, one(m, rx), lambda ai, st: enum_of(m, t, 'Value', Vec(c, ZERO, ln, (), m.u8)), whole)
    for nm, rx, ty, tab in (('method', r'method::Method::encode::', r'method::Method$', METH), ('version', r'version::Version::encode::', r'version::Version$', VERS),
                            ('scheme', r'<webparse::url::scheme::Scheme ' + R, r'scheme::Scheme$', SCHM)):
        t = type_named(m, ty)
        for txt, vn in tab.items():
            go(f'{nm} {vn}', one(m, rx), lambda ai, st: enum_of(m, t, vn), lambda ai, s: txt)
        go(f'{nm} unset', one(m, rx), lambda ai, st: enum_of(m, t, 'None'), None, True)
    t = type_named(m, r'scheme::Scheme$')
    go('scheme extension', one(m, r'<webparse::url::scheme::Scheme ' + R), lambda ai, st: enum_of(m, t, 'Extension', Vec(c, ZERO, ln, (), m.u8)), whole)
    # a header list of up to three fields of arbitrary content
    f = one(m, r'HeaderMap::encode::<algorithm::buf::BinaryMut>$')
    for k in range(4):
        def setup(ai, st):
            st.s[('me',)] = headermap(m, [])
            hm = st.s[('me',)]
            tup = targ(m, fty(m, hm.ty, 'headers'))
            nt, vt = [x for _, x in m.fields(tup, 0)] or m.types[tup]['args']
            el = []
            for i in range(k):
                a, b = (var(('buf', q, i)) for q in 'nv')
                el.append(Agg(tup, 0, [enum_of(m, nt, 'Value', Vec(a, ZERO, mk('len', (a,)), (), m.u8)), enum_of(m, vt, 'Value', Vec(b, ZERO, mk('len', (b,)), (), m.u8))]))
            st.s[('me',)] = struct(m, hm.ty, headers=Vec(Agg('seq', 0, el), ZERO, K(k), (), tup))
            newbuf(ai, st)
        ai, ex = run(m, rep, f, [Ref(('me',)), Ref(('out',))], setup=setup, merge=False, unroll=8)
        rep.ob(f'fields {k}/returns', bool(ex))
        for s, v in ex:
            want, tot = [], ZERO
            for i in range(k):
                for q, sep in (('n', b': '), ('v', b'\r\n')):
                    a = var(('buf', q, i))
                    want += [SRef(a, ZERO, mk('len', (a,)), None, m.u8)] + [K(x) for x in sep]
                    tot = add(tot, addk(mk('len', (a,)), 2))
            want += [K(13), K(10)]
            tot = addk(tot, 2)
            o = ai.read(s, ('out',), ())
            e = same_bytes(ai, s, emitted(ai, s, o), want)
            rep.ob(f'fields {k}/bytes', not e, e)
            rep.ob(f'fields {k}/size', is_ok(m, v) and equal(ai, s, inner(v), tot), f'reports {inner(v)!r}, specified {show(tot)}')
    rep.floor('paths', 30)


# ------------------------------------------------------------------ chunked coding
def ref_chunk(b):
    c = Cur(b)
    try:
        n = c.run(HEXD)
    except Partial:
        if b and int(b, 16) >= 1 << 64:
            raise Any()
        raise
    if int(n, 16) >= 1 << 64:
        raise Bad()
    c.eol()
    n = int(n, 16)
    if len(b) - c.i < n + 2:
        if len(b) - c.i > n and b[c.i + n] != 13:
            raise Any()
        raise Partial()
    if b[c.i + n:c.i + n + 2] != b'\r\n':
        raise Bad()
    return dict(used=c.i, size=n)


@prop('C30')
def c30(m, rep):
    """Byte-exact abstract summaries of the chunk reader on chunk templates cut at every position and with an arbitrary byte in
    place of or before each byte, against a reference reader, and of the chunk writer for data of many lengths, whose output
    has to be the reference coding."""
    b = var(('b', 0), m.u8)
    f = one(m, r'helper::Helper::parse_chunk_data::<algorithm::buf::BinaryMut>$')

    def rd(parts):
        bs = template(m, parts)
        syms = [x for x in bs if not isk(x)]
        ai, ex = run_on(m, rep, f, bs, given=[Ref(('in',))])
        rep.ob('read/returns', bool(ex), 'no path returns')
        n = 0
        for t, v, env in each(ai, ex, {x: set(range(256)) for x in syms}):
            n += 1
            rep.count('inputs')
            data = fill(parts, env)
            k, r = verdict(ref_chunk, data)
            rest = ai.read(t, ('in',), ())
            if k == 'any':
                continue
            if is_err(m, v):
                en = errname(m, v)
                rep.ob('read/accepted', k != 'ok', f'a well-formed chunk is refused ({en}): {data!r}')
                rep.ob('read/incomplete', k != 'partial' or en == 'Http.Partial', f'an incomplete chunk is refused with {en}: {data!r}')
                rep.ob('read/malformed', k != 'bad' or en != 'Http.Partial', f'a malformed chunk is reported as incomplete: {data!r}')
                continue
            if not rep.ob('read/refused', k == 'ok', f'a chunk that is {k} is accepted: {data!r}'):
                continue
            tup = inner(v)
            got = tuple(num_of(ai, t, x) for x in tup.f)
            rep.ob('read/value', got == (r['used'], r['size']), f'{data!r}: {got}, specified header length {r["used"]} and size {r["size"]}')
            rep.ob('read/position', isinstance(rest, Vec) and t.val(rest.p) == 0, f'{data!r}: the buffer moves')
        rep.ob('read/covered', n == 256 ** len(syms), f'{parts}: {n} inputs return')
    for t in (b'5\r\nhel\r\n\r\nZ', b'0\r\n\r\n', b'0A\n0123456789\r\n', b'f\r\n0123456789abcde\r\n1', b'ffffffffffffffff\r\nab\r\n', b'10000000000000000\r\nab\r\n',
              b'00000000000000000002\r\nab\r\n', b'1\r\n\r\r\n'):
        rd([t])
        for i in range(len(t)):
            rd([t[:i]])
            rd([t[:i], b, t[i + 1:]])
            rd([t[:i], b, t[i:]])
        rd([t, b])
    g = one(m, r'helper::Helper::encode_chunk_data::<algorithm::buf::BinaryMut>$')
    for n in list(range(0, 34)) + [64, 255, 256, 257, 1000, 4095, 4096, 65535, 65536]:
        k = min(n, 300)
        c = var(('buf', 'd'))
        data = SRef(c, ZERO, K(n), None, m.u8)

        def setup(ai, st):
            newbuf(ai, st)
        ai, ex = run(m, rep, g, [Ref(('out',)), data], setup=setup, merge=False)
        rep.ob('write/returns', bool(ex), 'no path returns')
        for s, v in ex:
            o = ai.read(s, ('out',), ())
            head = b'%x\r\n' % n
            want = [K(x) for x in head]
            want += [ai.elem(s, c, K(i), m.u8) for i in range(n)] if n <= 64 else [data]
            want += [K(13), K(10)]
            e = same_bytes(ai, s, emitted(ai, s, o), want)
            rep.ob('write/bytes', not e, f'{n} bytes: {e}')
            rep.ob('write/size', is_ok(m, v) and num_of(ai, s, inner(v)) == len(head) + n + 2, f'{n} bytes: reports {inner(v)!r}')
            rep.count('writes')
    rep.floor('inputs', 30000)
