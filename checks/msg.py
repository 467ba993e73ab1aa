"""HTTP/1 message heads: the compiled parser, summarised over message templates with a symbolic byte, against a
reference grammar."""
from core import *
from spec import *
from text import *
from url import out_bytes
from reg import prop

TOKEN = set(range(0x21, 0x7f))
TCHAR = set(b"!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")
VALUE = set(range(256)) - {0, 10, 13}
PHRASE = set(range(0x20, 0x7f))
HEXD = set(b'0123456789abcdefABCDEF')
ALPHA = set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
SCHEMECH = ALPHA | set(b'0123456789+-.')
METH = {k.encode(): v for k, v in METHODS}
VERS = {k.encode(): v for k, v in VERSIONS}
SCHM = {k.encode(): v for k, v in SCHEMES}
PORTS = {'Http': 80, 'Https': 443, 'Ws': 80, 'Wss': 443, 'Ftp': 21}


class Partial(Exception):
    pass


class Bad(Exception):
    pass


class Any(Exception):
    """the specification leaves this input open"""


class Cur:
    def __init__(self, b):
        self.b, self.i = bytes(b), 0

    def peek(self):
        if self.i >= len(self.b):
            raise Partial()
        return self.b[self.i]

    def next(self):
        v = self.peek()
        self.i += 1
        return v

    def run(self, cls, empty=False):
        j = self.i
        while self.peek() in cls:
            self.i += 1
        if self.i == j and not empty:
            raise Bad()
        return self.b[j:self.i]

    def eol(self):
        v = self.next()
        if v == 13:
            if self.next() != 10:
                raise Bad()
        elif v != 10:
            raise Bad()

    def blank_lines(self):
        while self.peek() in (13, 10):
            self.eol()

    def spaces(self):
        while self.peek() == 32:
            self.i += 1

    def headers(self):
        out = []
        while True:
            if self.peek() in (13, 10):
                self.eol()
                return out
            n = self.run(TCHAR)
            self.spaces()
            if self.next() != 58:
                raise Bad()
            self.spaces()
            v = self.run(VALUE, True)
            self.eol()
            out.append((n, v))


def pct(b):
    out, i = [], 0
    while i < len(b):
        if b[i] == 37:
            if i + 2 >= len(b) or b[i + 1] not in HEXD or b[i + 2] not in HEXD:
                raise Bad()
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    b = bytes(out)
    try:
        b.decode('utf-8')
    except UnicodeDecodeError:
        raise Bad()
    return b


def port_of(b):
    """port digits as Rust's u16 parser reads them"""
    d = b[1:] if b[:1] == b'+' and len(b) > 1 else b
    if not d or any(c not in b'0123456789' for c in d) or int(d) > 65535:
        raise Bad()
    return int(d)


def ref_url(b):
    """{scheme, username, password, domain, port, path, query} of a URL in absolute or origin form"""
    if not b:
        raise Bad()
    u = dict(scheme=None, username=None, password=None, domain=None, port=None, path=b'/', query=None)
    if b[0] in ALPHA:
        k = b.find(b'://')
        sch = b[:k] if k >= 0 else b''
        if k < 0 or any(c not in SCHEMECH for c in sch):
            raise Bad()
        u['scheme'] = SCHM.get(sch, 'Extension')
        rest = b[k + 3:]
        if any(c not in TOKEN for c in rest):
            raise Bad()
        cut = min([rest.find(c) for c in (b'/', b'?') if c in rest] or [len(rest)])
        auth, tail = rest[:cut], rest[cut:]
        if auth.count(b'@') > 1:
            raise Bad()
        if b'@' in auth:
            ui, auth = auth.split(b'@')
            if ui.count(b':') != 1:
                raise Bad()
            us, pw = ui.split(b':')
            u['username'], u['password'] = pct(us), pct(pw)
        if auth.count(b':') > 1:
            raise Bad()
        host, sep, port = auth.partition(b':')
        u['domain'] = pct(host)
        if sep:
            u['port'] = port_of(pct(port))
    elif b[0] == 47:
        if any(c not in TOKEN for c in b):
            raise Bad()
        tail = b
    else:
        raise Bad()
    if tail:
        p, sep, q = tail.partition(b'?')
        u['path'] = pct(p) if p else b'/'
        if sep:
            u['query'] = pct(q)
    if u['port'] is None:
        u['port'] = PORTS.get(u['scheme'], 0)
    return u


def by_host(u, h):
    p = h.split(b':')
    if len(p) > 2:
        raise Bad()
    u['domain'] = p[0]
    u['port'] = port_of(p[1]) if len(p) == 2 else 80


def ref_request(b):
    c = Cur(b)
    c.blank_lines()
    m = METH.get(c.run(TOKEN))
    if m is None:
        raise Bad()
    c.spaces()
    t = c.run(TOKEN)
    c.spaces()
    v = VERS.get(c.run(TOKEN))
    if v is None:
        raise Bad()
    c.eol()
    h = c.headers()
    if m == 'Connect':
        u = dict(scheme=None, username=None, password=None, domain=None, port=None, path=b'/', query=None)
        by_host(u, t)
    else:
        u = ref_url(t)
        if u['domain'] is None:
            for n, val in h:
                if n.lower() == b'host':
                    try:
                        val.decode('utf-8')
                    except UnicodeDecodeError:
                        raise Any()
                    by_host(u, val)
                    break
        if u['scheme'] is None:
            u['scheme'] = 'Http'
    return dict(used=c.i, method=m, version=v, headers=h, url=u)


def ref_response(b):
    c = Cur(b)
    c.blank_lines()
    v = VERS.get(c.run(TOKEN))
    if v is None:
        raise Bad()
    c.spaces()
    s = c.run(TOKEN)
    if len(s) != 3 or any(x not in b'0123456789' for x in s) or s[0] == 48:
        raise Bad()
    c.spaces()
    c.run(PHRASE, True)
    c.eol()
    h = c.headers()
    return dict(used=c.i, status=int(s), version=v, headers=h)


# ------------------------------------------------------------------ the analysed side
EXACT = dict(merge=False, cap=6000, retcap=6000, unroll=700, unroll_buf=True, exact_buf=True, lossy_id=True)


def template(m, parts):
    """byte terms of a message: constants and symbolic bytes"""
    out = []
    for p in parts:
        out += [K(b) for b in p] if isinstance(p, bytes) else [p]
    return out


def run_on(m, rep, f, bs, given=None, **kw):
    """run a parser method (self, buffer) on a buffer holding bs; -> ai, exits, self place"""
    def setup(ai, st):
        st.s[('in',)] = Vec(Agg(None, 0, bs), ZERO, K(len(bs)), (), m.u8)
    o = dict(EXACT)
    o.update(kw)
    return run(m, rep, f, [None, Ref(('in',))] if given is None else given, setup=setup, **o)


def const_bytes_of(ai, s, v):
    """constant bytes of a string / vector / slice value, or None"""
    v = deref(ai, s, v)
    full = isinstance(v, Vec) and isinstance(v.c, Agg) and s.val(v.n) == len(v.c.f)
    k = None if full else const_of(ai, s, v)
    if k is not None:
        return k
    if isinstance(v, Vec) and isinstance(v.c, Agg):
        n, p = s.val(v.n), s.val(v.p)
        if n is None or p is None or p + 0 > n:
            return None
        r = [ai.elem(s, v.c, K(i), ai.mir.u8) for i in range(p, n)]
    else:
        r = out_bytes(ai, s, v)
    if r is None or any(not isinstance(x, T) or s.val(x) is None for x in r):
        return None
    return bytes(s.val(x) for x in r)


def opt(ai, s, v, g):
    v = deref(ai, s, v)
    n = variants_of(ai, s, v)
    if n == ['None']:
        return None
    if n == ['Some']:
        x = inner(v) if isinstance(v, Agg) else None
        return ('?',) if x is None else g(x)
    return ('?',)


def text_of(ai, s, v):
    k = const_bytes_of(ai, s, v)
    return ('?', repr(v)[:60]) if k is None else k


def num_of(ai, s, v):
    x = scalar(ai, s, v)
    k = s.val(x) if isinstance(x, T) else None
    return ('?', repr(v)[:60]) if k is None else k


def name_of(ai, s, v):
    """HeaderName / HeaderValue content"""
    v = deref(ai, s, v)
    return text_of(ai, s, inner(v)) if isinstance(v, Agg) else ('?', repr(v)[:60])


def headers_of(ai, s, hm):
    v = deref(ai, s, fld(ai, s, hm, 'headers'))
    if not isinstance(v, Vec) or not isinstance(v.c, Agg):
        return ('?', repr(v)[:80])
    n = s.val(v.n)
    out = []
    for e in v.c.f[:n]:
        e = deref(ai, s, e)
        out.append((name_of(ai, s, e.f[0]), name_of(ai, s, e.f[1])))
    return out


def variant_is(ai, s, v):
    n = variants_of(ai, s, deref(ai, s, v))
    return n[0] if n and len(n) == 1 else ('?', n)


def url_of(ai, s, u):
    sch = variant_is(ai, s, fld(ai, s, u, 'scheme'))
    t = lambda x: text_of(ai, s, x)
    return dict(scheme=None if sch == 'None' else sch, username=opt(ai, s, fld(ai, s, u, 'username'), t),
                password=opt(ai, s, fld(ai, s, u, 'password'), t), domain=opt(ai, s, fld(ai, s, u, 'domain'), t),
                port=opt(ai, s, fld(ai, s, u, 'port'), lambda x: num_of(ai, s, x)), path=t(fld(ai, s, u, 'path')),
                query=opt(ai, s, fld(ai, s, u, 'query'), t))


def head_of(ai, s, me, resp):
    p = fld(ai, s, me, 'parts')
    d = dict(version=variant_is(ai, s, fld(ai, s, p, 'version')), headers=headers_of(ai, s, fld(ai, s, p, 'header')))
    if resp:
        d['status'] = num_of(ai, s, fld(ai, s, p, 'status'))
    else:
        d['method'] = variant_is(ai, s, fld(ai, s, p, 'method'))
        d['url'] = url_of(ai, s, fld(ai, s, p, 'url'))
    return d


def errname(m, v):
    """'Partial' or another error's name path"""
    x, out = inner(v), []
    while isinstance(x, Agg) and variant(m, x):
        out.append(variant(m, x))
        x = inner(x)
    return '.'.join(out)


def fold_headers(h):
    """a later field of the same name replaces the value"""
    out = []
    for n, v in h:
        for i, (a, _) in enumerate(out):
            if a.lower() == n.lower():
                out[i] = (a, v)
                break
        else:
            out.append((n, v))
    return out


def verdict(ref, data):
    try:
        return 'ok', ref(data)
    except Partial:
        return 'partial', None
    except Bad:
        return 'bad', None
    except Any:
        return 'any', None


PICK = {0, 8, 9, 10, 11, 13, 31, 32, 33, 34, 37, 43, 44, 45, 46, 47, 48, 57, 58, 59, 63, 64, 65, 70, 71, 90, 91, 95, 97, 102, 103, 122, 123, 125, 126, 127, 128, 195, 255}


def picks(d):
    """representatives of a byte domain: its interval ends and the bytes that mean something in a grammar"""
    out = set()
    for a, b in d:
        out |= {a, b} | {x for x in PICK if a <= x <= b}
    return sorted(out)


class Only:
    """forwards the obligations of some groups"""

    def __init__(self, rep, groups):
        self.rep, self.groups = rep, groups

    def __getattr__(self, k):
        return getattr(self.rep, k)

    def ob(self, key, ok, msg=''):
        if key.rsplit('/', 1)[1] in self.groups:
            self.rep.ob(key, ok, msg)
        return ok


def compare(m, rep, key, f, ref, parts, resp):
    """summarise f on the template and compare every exit, for every value of its symbolic bytes, with the reference"""
    bs = template(m, parts)
    syms = [b for b in bs if not isk(b)]
    ai, ex = run_on(m, rep, f, bs)
    rep.ob(f'{key}/returns', bool(ex), 'no path returns')
    covered = set()
    me = Ref(('d', arg(m, f, 0)))
    for s, v in ex:
        s.touch()
        rep.count('paths')
        doms = [list(D.it(s.dom(b))) if len(syms) < 2 else picks(s.dom(b)) for b in syms]
        for vals in itertools.product(*doms):
            t = s
            if syms:
                t = s.copy()
                if not all(t.refine(b, D.const(x)) for b, x in zip(syms, vals)):
                    continue
                t.touch()
                if not consistent(t, 1):
                    continue
            covered.add(vals)
            rep.count('inputs')
            data = bytes(b.args[0] if isk(b) else vals[syms.index(b)] for b in bs)
            k, r = verdict(ref, data)
            if k == 'any':
                continue
            where = f'{data!r}'
            pf = t.val(fld(ai, t, me, 'partial'))
            if is_err(m, v):
                en = errname(m, v)
                if k == 'ok':
                    rep.ob(f'{key}/accepted', False, f'a well-formed message is refused ({en}): {where}')
                elif k == 'partial':
                    rep.ob(f'{key}/incomplete', en == 'Http.Partial', f'an incomplete message is refused with {en}: {where}')
                else:
                    rep.ob(f'{key}/malformed', en != 'Http.Partial', f'a malformed message is reported as incomplete: {where}')
                rep.ob(f'{key}/flag', pf == 1, f'the object does not say partial after {en}: {where}')
                continue
            if not rep.ob(f'{key}/value', is_ok(m, v), f'{v!r}: {where}'):
                continue
            if k != 'ok':
                rep.ob(f'{key}/refused', False, f'{"an incomplete" if k == "partial" else "a malformed"} message is accepted: {where}')
                continue
            rep.ob(f'{key}/flag', pf == 0, f'the object says partial after success: {where}')
            rep.ob(f'{key}/consumed', num_of(ai, t, inner(v)) == r['used'], f'{num_of(ai, t, inner(v))} bytes consumed, specified {r["used"]}: {where}')
            rest = ai.read(t, ('in',), ())
            rep.ob(f'{key}/rest', isinstance(rest, Vec) and t.val(rest.p) == r['used'], f'the buffer is left at another position: {where}')
            h = head_of(ai, t, me, resp)
            for q, w in h.items():
                want = fold_headers(r[q]) if q == 'headers' else r[q]
                rep.ob(f'{key}/{q}', w == want, f'{q} is {w!r}, specified {want!r}: {where}')
    return ai, ex, covered, syms


REQUESTS = [
    b'GET /a?b HTTP/1.1\r\nHost: x:81\r\nA:b \r\n\r\nZ',
    b'POST http://u:p@h:8/%41?q=1 HTTP/1.0\nK : v\n\n',
    b'CONNECT h:1 HTTP/1.1\r\n\r\n',
    b'\r\n\nHEAD / HTTP/2\r\nB:1\r\nb:2\r\n\r\n',
    b'PUT /:@ HTTP/3\r\nhOST:h\r\nX:\r\n\r\n',
]
RESPONSES = [
    b'HTTP/1.1 200 OK\r\nA:b\r\n\r\nZ',
    b'HTTP/1.0 404\r\n\r\n',
    b'\r\n\nHTTP/2 599 x y\nSet:\r\nset: q\n\r\nHT',
]


def heads(m):
    return [('request', one(m, r'Request::<algorithm::buf::BinaryMut>::parse_buffer'), ref_request, REQUESTS, False),
            ('response', one(m, r'Response::<algorithm::buf::BinaryMut>::parse_buffer'), ref_response, RESPONSES, True)]


def sweep(m, rep, prefixes, mutate, insert, pairs=0):
    """templates cut at every position, with every byte replaced, and with a byte inserted at every position"""
    b, b2 = var(('b', 0), m.u8), var(('b', 1), m.u8)
    for nm, f, ref, ts, resp in heads(m):
        for k, t in enumerate(ts):
            compare(m, rep, nm, f, ref, [t], resp)
            rep.count('templates')
            for i in range(len(t)):
                if prefixes:
                    compare(m, rep, nm, f, ref, [t[:i]], resp)
                if prefixes and i:
                    compare(m, rep, nm, f, ref, [t[:i - 1], b], resp)
                if mutate:
                    compare(m, rep, nm, f, ref, [t[:i], b, t[i + 1:]], resp)
                if insert:
                    compare(m, rep, nm, f, ref, [t[:i], b, t[i:]], resp)
                if pairs and i % pairs == 0 and i + 1 < len(t):
                    compare(m, rep, nm, f, ref, [t[:i], b, b2, t[i + 2:]], resp)


@prop('C05')
def c05(m, rep):
    """Byte-exact abstract summaries of the request and response parsers on message templates cut at every position (the
    last byte symbolic or not) and with one symbolic byte at every position, compared with a reference grammar: an input
    that is a proper prefix of a message is reported incomplete, anything else never is."""
    sweep(m, Only(rep, {'returns', 'incomplete', 'malformed', 'refused', 'value', 'accepted'}), True, True, False)
    rep.floor('inputs', 40000)


@prop('C06')
def c06(m, rep):
    """The same summaries: after success the object says complete, the returned count is the length of the head and the
    buffer stands right behind it; after any error it says partial."""
    sweep(m, Only(rep, {'returns', 'flag', 'consumed', 'rest', 'value'}), True, True, False)
    rep.floor('inputs', 40000)


@prop('C07')
def c07(m, rep):
    """The same summaries with a symbolic byte in place of and between the bytes of each template: acceptance, method,
    target, version, status and header fields equal those of the reference grammar for every value of the byte."""
    sweep(m, Only(rep, {'returns', 'value', 'accepted', 'refused', 'version', 'headers', 'method', 'url', 'status'}), False, True, True,
          pairs=1 if rep.tier == 'thorough' else 9)
    rep.floor('inputs', 60000)


# ------------------------------------------------------------------ URLs
URLS = [
    b'http://us:pw@ho.st:8080/p/a?q=1&r=2',
    b'https://h/%41%2f',
    b'wss://h?x@y:z/?',
    b'ftp://h:21',
    b'x-y.z+1://h@/',
    b'/a:b@c/d?e?f',
    b'ws://h/a?%e4%bd%a0',
    b'http://a:b@h',
    b'http://h:65535?',
    b'h',
]


def url_compare(m, rep, key, f, parts, wrap=lambda m, bs: Vec(Agg(None, 0, bs), ZERO, K(len(bs)), (), m.u8)):
    bs = template(m, parts)
    syms = [b for b in bs if not isk(b)]
    ai, ex = run(m, rep, f, [wrap(m, bs)], **EXACT)
    rep.ob(f'{key}/returns', bool(ex), 'no path returns')
    for s, v in ex:
        s.touch()
        rep.count('paths')
        doms = [list(D.it(s.dom(b))) if len(syms) < 2 else picks(s.dom(b)) for b in syms]
        for vals in itertools.product(*doms):
            t = s.copy()
            if not all(t.refine(b, D.const(x)) for b, x in zip(syms, vals)):
                continue
            t.touch()
            if not consistent(t, 1):
                continue
            rep.count('inputs')
            data = bytes(b.args[0] if isk(b) else vals[syms.index(b)] for b in bs)
            k, r = verdict(ref_url, data)
            if is_err(m, v):
                rep.ob(f'{key}/accepted', k != 'ok', f'a well-formed URL is refused: {data!r}')
                continue
            if not rep.ob(f'{key}/refused', k == 'ok', f'a malformed URL is accepted: {data!r}'):
                continue
            h = url_of(ai, t, inner(v))
            for q, w in h.items():
                rep.ob(f'{key}/{q}', w == r[q], f'{q} is {w!r}, specified {r[q]!r}: {data!r}')


@prop('C25')
def c25(m, rep):
    """Byte-exact abstract summaries of Url::parse on URL templates with one symbolic byte (thorough: two adjacent ones) in
    place of and between the bytes of each: acceptance and every component equal those of a reference splitter."""
    f = one(m, r'url::url::Url::parse$')
    b, b2 = var(('b', 0), m.u8), var(('b', 1), m.u8)
    for t in URLS:
        url_compare(m, rep, 'parse', f, [t])
        rep.count('templates')
        for i in range(len(t)):
            url_compare(m, rep, 'parse', f, [t[:i]])
            url_compare(m, rep, 'parse', f, [t[:i], b, t[i + 1:]])
            url_compare(m, rep, 'parse', f, [t[:i], b, t[i:]])
            if i % (1 if rep.tier == 'thorough' else 6) == 0 and b'%e4' not in t:
                url_compare(m, rep, 'parse', f, [t[:i], b, b2, t[i + 2:]])
        url_compare(m, rep, 'parse', f, [t, b])
    rep.floor('inputs', 60000)
    ts = b'http://h:81/a'
    for nm, rx, ty in (('from_str', r'url::url::Url as .*FromStr>::from_str$', 's'), ('try_from(&str)', r'Url as .*TryFrom<&.*str>>::try_from$', 's'),
                       ('try_from(&[u8])', r'Url as .*TryFrom<&.*\[u8\]>>::try_from$', 's'), ('try_from(String)', r'Url as .*TryFrom<.*String>>::try_from$', 'v')):
        g = one(m, rx)
        for i in range(len(ts)):
            for p in ([ts[:i], b, ts[i + 1:]],):
                kw = {} if ty == 'v' else dict(wrap=lambda m, bs: SRef(Agg(None, 0, bs), ZERO, K(len(bs)), None, m.u8))
                url_compare(m, rep, nm, g, p, **kw)
