"""Readers of untrusted octets return: every loop has a component that moves one way on every trip round it."""
from core import *
from spec import *
from reg import prop
from ai import blkno
import total


def parts(st, v, loc, out, depth=0):
    """integer components of a stored value"""
    if isinstance(v, T):
        out[loc] = v
    elif isinstance(v, Agg):
        if v.var is not None and isinstance(v.ty, int) and st.mir.is_enum(v.ty):
            out[loc + ('v',)] = K(v.var)
        if depth < 6 and len(v.f) < 24:
            for i, x in enumerate(v.f):
                parts(st, x, loc + (('f', v.var, i),), out, depth + 1)
    elif isinstance(v, SRef):
        out[loc + ('s',)] = v.s
        out[loc + ('e',)] = v.e
        out[loc + ('d',)] = sub(v.e, v.s)
    elif isinstance(v, Vec):
        out[loc + ('p',)] = v.p
        out[loc + ('n',)] = v.n
        out[loc + ('d',)] = sub(v.n, v.p)
    elif isinstance(v, Ref) and isinstance(v.base, tuple) and v.base[0] == 'el':
        out[loc + ('i',)] = v.base[2]


def components(st):
    out = {}
    for k, v in st.s.items():
        parts(st, v, (k,), out)
    return {k: v for k, v in out.items() if v.ty is None or st.mir.bits(v.ty) is not None}


def positions(st, fr):
    """what is remembered at a loop head: buffer and slice positions, and the numbers in the function's own aggregates"""
    return [(k, v) for k, v in components(st).items() if k[-1] in ('p', 's', 'i') and not isk(v) or len(k) > 1 and k[-1] != 'v' and k[0][0] == fr.id]


def everything(st, fr):
    """for state machines over plain numbers: these as well"""
    return [(k, v) for k, v in components(st).items() if isk(v) and k[0][0] == fr.id or k[-1] in ('p', 's', 'i') or len(k) > 1 and k[0][0] == fr.id]


class Loops:
    def __init__(self, m):
        self.m = m
        self.res = {}

    def __call__(self, ai, fr, node, heads, backs, final):
        if not final:
            return
        hc = [components(h) for h in heads]
        pairs = []
        for b in backs:
            c = components(b)
            h = {k: v for k, v in hc[0].items() if not isk(v) and all(x.get(k) == v for x in hc[1:])}
            h.update({k[3]: v for k, v in b.g.items() if isinstance(k, tuple) and k[:3] == ('was', fr.id, node)})
            pairs.append({k: (b, sub(c[k], v)) for k, v in h.items() if k in c})
        # lexicographic: a component that never moves back and moves on some trips settles those trips
        found = []
        left = pairs
        while left:
            best = None
            for loc in sorted(set.intersection(*[set(p) for p in left]), key=str):
                for sgn in (1, -1):
                    ds = [(p[loc][0], scale(p[loc][1], sgn)) for p in left]
                    if all(d.args[0] >= 0 for _, d in ds if isk(d)) and any(not isk(d) or d.args[0] for _, d in ds):
                        bs = [b.lb(d, 3) for b, d in ds]
                        if min(bs) >= 0 and max(bs) >= 1:
                            n = [p for p, x in zip(left, bs) if x < 1]
                            if best is None or len(n) < len(best[0]):
                                best = n, loc
                if best is not None and not best[0]:
                    break
            if best is None:
                break
            left = best[0]
            found.append(best[1])
        sp = ai.mir.span(fr.body.blocks[blkno(node)]['sp'])
        self.res[(fr.id, str(node))] = (fr.inst['path'], sp, not left, [g.inst['path'] for g in reversed(fr.chain())])


def ends(m, rep, nm, rx, keep=positions, **kw):
    w = Loops(m)
    total.total(m, rep, nm, rx, watch=w, keep=keep, **kw)
    bad = {}
    for fn, sp, found, ch in w.res.values():
        rep.count('loops')
        bad.setdefault((fn, sp), [])
        if not found:
            bad[fn, sp].append(ch)
    for (fn, sp), chs in sorted(bad.items()):
        rep.ob(f'{nm}: {fn}: loop', not chs, f'{sp}: nothing moves one way on every trip round the loop; reached through {" > ".join(chs[0]) if chs else ""}')


@prop('C04')
def c04(m, rep):
    E = [
        ('Request::parse_buffer', r'request::Request::<.*>::parse_buffer'),
        ('Response::parse_buffer', r'response::Response::<.*>::parse_buffer'),
        ('Helper::parse_header', r'helper::Helper::parse_header::'),
        ('Helper::parse_chunk_data', r'helper::Helper::parse_chunk_data'),
        ('Url::parse', r'url::url::Url::parse$'),
        ('Url::url_decode', r'url::url::Url::url_decode$'),
        ('Frame::parse', r'frame::frame::Frame::<.*>::parse', dict(hooks=[total.decoded])),
        ('Decoder::decode', total.DEC, dict(hooks=[total.HUF] + total.TABLE, cap=8, retcap=8)),
        ('HuffmanDecoder::decode', total.HUF, dict(constkey=lambda inst: 'huffman' in inst['path'], keep=everything)),
        ('read_dataframe', r'DataFrame::read_dataframe::'),
        ('read_dataframe_with_limit', r'DataFrame::read_dataframe_with_limit::'),
        ('OwnedMessage::from_dataframes', r'OwnedMessage.*from_dataframes'),
        ('Message::from_dataframes', r'::Message.*from_dataframes'),
    ]
    par(rep, [lambda rep, e=e: ends(m, rep, *e[:2], **(e[2] if len(e) > 2 else {})) for e in E])
