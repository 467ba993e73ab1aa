"""Readers of untrusted octets never panic."""
import re
from core import *
from spec import *
from reg import prop


def havoc(m, rxs):
    """summaries that know nothing: the call may return any value of its type and leave any value behind its &mut arguments"""
    out = {}
    for inst in [i for rx in rxs for i in m.find(rx) if 'body' in i and '{closure' not in i['name']]:
        tys = [inst['body']['locals'][i + 1] for i in range(inst['body']['args'])]

        def h(ai, st, fr, blk, i, vals, dty, tys=tys):
            return ai.unknown_call(st, fr, blk, i, vals, tys, dty)
        out[inst['id']] = h
    return out


def decoded(m):
    """summary of the header block decoder: any outcome, and the buffer has moved forward by some amount"""
    import models
    h0 = havoc(m, [DEC])

    def h(ai, st, fr, blk, i, vals, dty):
        r, b = models.buf(ai, st, vals[1])
        out = h0[i['id']](ai, st, fr, blk, i, vals, dty)
        if b is not None:
            for s, _ in out:
                p = var((fr.id, blk, 'decoded'), m.usize)
                ai.forget(s, p)
                s.assume(ge0(sub(b.n, p)), 1)
                s.assume(ge0(sub(p, b.p)), 1)
                models.setv(ai, s, r, Vec(b.c, p, b.n, b.log, b.ety))
        return out
    return {k: h for k in h0}


def total(m, rep, nm, rx, hooks=(), setup=None, given=(), beyond=None, watch=None, **kw):
    """beyond: sums that only overflow with more data than fits in memory"""
    inst = one(m, rx)
    kw.setdefault('budget', 600)
    hk = havoc(m, [h for h in hooks if isinstance(h, str)])
    for h in hooks:
        if not isinstance(h, str):
            hk.update(h(m))
    ai, ex = run(m, rep, inst, given=given, setup=setup, merge=True, hooks=hk, on_back=watch, **kw)
    rep.count('entries')
    rep.count('exits', len(ex))
    rep.ob(f'{nm}: returns', len(ex) > 0, 'no path of the reader returns')
    if watch:
        return
    for (fn, kind, span), s in sorted(ai.sites.items(), key=str):
        rep.count('panic_sites')
        rep.count('site_visits', s.n)
        fails = [d for d in s.fails if not (beyond and kind == 'overflow Add' and re.search(beyond, d[0]))]
        if len(fails) < len(s.fails):
            rep.count('memory_bounded_sites')
        d = fails[0] if fails else ('', [])
        rep.ob(f'{nm}: {fn}: {kind}', not fails, f'{span}: may fail: {d[0]}; reached through {" > ".join(d[1])}')


DEC = r'decoder::Decoder::decode::'
HUF = r'huffman::HuffmanDecoder::decode$'
TABLE = [r'header_index::HeaderIndex::get_from_index$', r'header_index::HeaderIndex::add_header$', r'header_index::HeaderIndex::update_table_size$', r'header_index::HeaderIndex::set_max_table_size$']


def jobs(m, entries):
    return [lambda rep, e=e: total(m, rep, *e[:2], **(e[2] if len(e) > 2 else {})) for e in entries]


@prop('C01')
def c01(m, rep):
    par(rep, jobs(m, [
        ('Request::parse_buffer', r'request::Request::<.*>::parse_buffer'),
        ('Request::parse', r'request::Request::<.*>::parse$'),
        ('Response::parse_buffer', r'response::Response::<.*>::parse_buffer'),
        ('Response::parse', r'response::Response::<.*>::parse$'),
        ('Helper::parse_header', r'helper::Helper::parse_header::'),
        ('Helper::parse_chunk_data', r'helper::Helper::parse_chunk_data'),
        ('Url::parse', r'url::url::Url::parse$'),
        ('Url::url_decode', r'url::url::Url::url_decode$'),
    ]))


@prop('C02')
def c02(m, rep):
    par(rep, jobs(m, [
        ('FrameHeader::parse', r'frame::FrameHeader::parse'),
        ('Frame::parse', r'frame::frame::Frame::<.*>::parse', dict(hooks=[decoded])),
        ('Decoder::decode', DEC, dict(hooks=[HUF] + TABLE, cap=8, retcap=8)),
        ('HeaderIndex::get_from_index', TABLE[0]),
        ('HuffmanDecoder::decode', HUF, dict(constkey=lambda inst: 'huffman' in inst['path'])),
    ]))


@prop('C03')
def c03(m, rep):
    par(rep, jobs(m, [
        ('read_dataframe', r'DataFrame::read_dataframe::'),
        ('read_dataframe_with_limit', r'DataFrame::read_dataframe_with_limit::'),
        ('read_header', r'frame_header::read_header'),
        ('OwnedMessage::from_dataframes', r'OwnedMessage.*from_dataframes', dict(beyond=r'^\(v\d+\+len\(elem\(')),
        ('Message::from_dataframes', r'::Message.*from_dataframes', dict(beyond=r'^\(v\d+\+len\(elem\(')),
    ]))
