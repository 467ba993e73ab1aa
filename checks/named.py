"""Named constants: what a name of the API denotes."""
import re
from core import *
from spec import *
from reg import prop
from text import REASONS

REGISTRY = dict(NO_ERROR=0, PROTOCOL_ERROR=1, INTERNAL_ERROR=2, FLOW_CONTROL_ERROR=3, SETTINGS_TIMEOUT=4, STREAM_CLOSED=5, FRAME_SIZE_ERROR=6,
                REFUSED_STREAM=7, CANCEL=8, COMPRESSION_ERROR=9, CONNECT_ERROR=10, ENHANCE_YOUR_CALM=11, INADEQUATE_SECURITY=12, HTTP_1_1_REQUIRED=13)
CODES = {re.sub(r'[^A-Z0-9]+', '_', v.upper().replace("'", '')): k for k, v in REASONS.items()}
CODES['IM_A_TEAPOT'] = CODES.get('IM_A_TEAPOT', 418)


def named(m, rx):
    """(name, value) of every associated constant of the type whose path matches rx"""
    ai = AI(m)
    for c in m.consts:
        g = re.search(rx + r'::([A-Z][A-Z0-9_]*)$', c['name'])
        if g:
            i = c['init']
            yield g[1], m._const({'ty': c['ty'], 'a': i if 'hex' in i else i.get('a')} | ({'z': 1} if i.get('z') else {}))


def num(m, v):
    st, ai = St(m), AI(m)
    x = scalar(ai, st, v) if isinstance(v, Agg) else v
    return st.val(x) if isinstance(x, T) else None


def text(v):
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, SRef) and isinstance(v.c, T) and v.c.op == 'bytes':
        return v.c.args[0][v.s.args[0]:v.e.args[0]]
    return None


def reasons(m, rep):
    n = 0
    for k, v in named(m, r'frame::reason::Reason'):
        if k in REGISTRY:
            n += 1
            rep.ob(f'Reason/{k}', num(m, v) == REGISTRY[k], f'{k} is {num(m, v)}, registered {REGISTRY[k]}')
    rep.count('named error codes', n)
    rep.floor('named error codes', 14)


def statuses(m, rep):
    n = 0
    for k, v in named(m, r'http::status::StatusCode'):
        if k in CODES:
            n += 1
            rep.ob(f'StatusCode/{k}', num(m, v) == CODES[k], f'{k} is {num(m, v)}, registered {CODES[k]}')
    rep.count('named status codes', n)
    rep.floor('named status codes', 55)


def names(m, rep):
    n = 0
    for k, v in named(m, r'http::name::HeaderName'):
        w = text(v)
        if w is None:
            continue
        n += 1
        rep.ob(f'HeaderName/{k}', w.lower() == k.lower().replace('_', '-').encode(), f'{k} is written {w!r}')
    rep.count('named headers', n)
    rep.floor('named headers', 75)


def methods(m, rep):
    n = 0
    for k, v in named(m, r'http::method::Method'):
        w = text(v)
        if w is not None and k[:1] == 'S':
            n += 1
            rep.ob(f'Method/{k}', w == k[1:].encode(), f'{k} is {w!r}')
        elif isinstance(v, Agg) and not v.f:
            n += 1
            rep.ob(f'Method/{k}', variant(m, v).upper() == k, f'{k} is {variant(m, v)}')
    for k, v in named(m, r'http::version::Version'):
        w = text(v)
        want = {'HTTP10': 'Http10', 'HTTP11': 'Http11', 'HTTP2': 'Http2', 'HTTP3': 'Http3', 'SHTTP10': b'HTTP/1.0', 'SHTTP11': b'HTTP/1.1', 'SHTTP2': b'HTTP/2', 'SHTTP3': b'HTTP/3'}.get(k)
        if want is None:
            continue
        n += 1
        got = w if isinstance(want, bytes) else variant(m, v)
        rep.ob(f'Version/{k}', got == want, f'{k} is {got!r}')
    rep.count('named methods and versions', n)
    rep.floor('named methods and versions', 18)


def h2limits(m, rep):
    want = {'HTTP2_MAGIC': b'PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n', 'MAIGC_LEN': 24, 'MAX_WINDOW_SIZE': (1 << 31) - 1, 'MAX_INITIAL_WINDOW_SIZE': (1 << 31) - 1,
            'DEFAULT_SETTINGS_HEADER_TABLE_SIZE': 4096, 'DEFAULT_INITIAL_WINDOW_SIZE': 65535, 'DEFAULT_MAX_FRAME_SIZE': 16384, 'MAX_MAX_FRAME_SIZE': (1 << 24) - 1}
    n = 0
    for k, v in named(m, r'http::http2'):
        if k in want:
            n += 1
            got = text(v) if isinstance(want[k], bytes) else num(m, v)
            rep.ob(f'http2/{k}', got == want[k], f'{k} is {got!r}, RFC 9113 says {want[k]!r}')
    rep.count('protocol limits', n)
    rep.floor('protocol limits', 8)
    bits = {'END_STREAM': 1, 'ACK': 1, 'END_HEADERS': 4, 'PADDED': 8, 'PRIORITY': 0x20}
    for k, v in named(m, r'frame::flag::Flag'):
        if k in bits:
            rep.ob(f'Flag/{k}', num(m, v) == bits[k], f'{k} is {num(m, v)}')
            rep.count('flag bits')
    rep.floor('flag bits', 5)


@prop('C38')
def c38(m, rep):
    """The evaluated value of every public named constant, compared with what the registry (IANA, RFC 9110, RFC 9113) assigns to its name."""
    reasons(m, rep)
    statuses(m, rep)
    names(m, rep)
    methods(m, rep)
    h2limits(m, rep)
