"""Models of external (std / algorithm crate) functions."""
import re
import dom as D
from term import *
from mir import Agg, Ref, SRef, Fn, Vec, UNIT

REG = []
MAXLEN = (1 << 63) - 1


def model(rx):
    def deco(f):
        REG.append((re.compile(rx), f))
        return f
    return deco


def resolve(ai, inst):
    if inst['local']:
        return None
    p = inst['path']
    for r, f in REG:
        if r.search(p):
            return f
    return None


# ---------------------------------------------------------------- helpers
def some(ai, dty, v):
    return Agg(dty, ai.mir.variant_named(dty, 'Some'), [v])


def none(ai, dty):
    return Agg(dty, ai.mir.variant_named(dty, 'None'), [])


def ok(ai, dty, v):
    return Agg(dty, ai.mir.variant_named(dty, 'Ok'), [v])


def err(ai, dty, v=None, st=None, fr=None, blk=None):
    ety = ai.mir.fields(dty, ai.mir.variant_named(dty, 'Err'))[0][1]
    if v is None:
        v = ai.fresh(st, fr, blk, 'err', ety)
    return Agg(dty, ai.mir.variant_named(dty, 'Err'), [v])


def oktype(ai, dty, name='Ok'):
    return ai.mir.fields(dty, ai.mir.variant_named(dty, name))[0][1]


def split(st, cond):
    """-> (state where cond holds or None, state where it fails or None)"""
    v = st.val(cond)
    if v == 1:
        return st, None
    if v == 0:
        return None, st
    a, b = st.copy(), st
    a = a if a.assume(cond, 1) else None
    b = b if b.assume(cond, 0) else None
    return a, b


def fresh_vec(ai, st, fr, blk, tag, ety=None, lo=0, hi=MAXLEN):
    c = ai.fresh(st, fr, blk, (tag, 'c'), None)
    n = ai.fresh(st, fr, blk, (tag, 'n'), ai.mir.usize, count=True)
    st.refine(n, ((lo, hi),))
    return Vec(c, ZERO, n, (), ety or ai.mir.u8)


def vec_of_slice(s):
    c = s.c
    if s.src is not None:
        if isinstance(c, Agg) and isk(s.s) and isk(s.e):
            return Vec(Agg(None, 0, c.f[s.s.args[0]:s.e.args[0]]), ZERO, s.len, tuple(s.src), s.ety)
        return Vec(mk('bytes', (b'',)), ZERO, s.len, tuple(s.src), s.ety)
    if isinstance(c, T):
        if c.op == 'bytes' and isk(s.s) and isk(s.e):
            c = mk('bytes', (bytes(c.args[0][s.s.args[0]:s.e.args[0]]),))
        elif not (isk(s.s) and s.s.args[0] == 0):
            c = mk('sub', (c, s.s))
    elif isk(s.s) and isk(s.e):
        c = Agg(None, 0, c.f[s.s.args[0]:s.e.args[0]])
    else:
        c = var(('aggsub', repr(s)), None)
    return Vec(c, ZERO, s.len, (), s.ety)


def deref_all(ai, st, v):
    """follow references to the place holding an owned sequence; -> (Ref, value)"""
    n = 0
    while n < 8:
        n += 1
        if isinstance(v, Ref):
            x = ai.read(st, v.base, v.path)
            if isinstance(x, (Ref, SRef)) or (isinstance(x, T) and x.ty is not None and ai.mir.tk(x.ty) in ('ref', 'ptr')):
                if isinstance(x, T):
                    v = Ref(('d', x), ())
                    continue
                v = x
                continue
            return v, x
        if isinstance(v, T) and v.ty is not None and ai.mir.tk(v.ty) in ('ref', 'ptr'):
            tt = ai.mir.tk(ai.mir.to(v.ty))
            if tt in ('slice', 'str'):
                return None, ai.as_slice(st, v)
            v = Ref(('d', v), ())
            continue
        return None, v
    return None, v


def buf(ai, st, v):
    """-> (Ref, Vec) for a byte buffer argument, or (None, None)"""
    r, x = deref_all(ai, st, v)
    if isinstance(x, Vec):
        return r, x
    if isinstance(x, T) and x.ty is not None and ai.seqlike(x.ty):
        return r, ai.as_vec(x)
    if isinstance(x, T) and r is not None and x.ty is not None and ai.mir.tk(x.ty) == 'dyn' and 'BtMut' in ai.mir.name(x.ty):
        return r, Vec(x, ZERO, mk('len', (x,)), (), ai.mir.u8)
    return None, None


def rbuf(ai, st, v):
    """like buf, for readers: also a place holding a slice that is consumed from the front"""
    n = 0
    while isinstance(v, Ref) and n < 8:
        n += 1
        x = ai.read(st, v.base, v.path)
        if isinstance(x, SRef) and (x.src is None or isinstance(x.c, Agg)):
            return v, Vec(x.c, x.s, x.e, (), x.ety)
        if not isinstance(x, Ref):
            break
        v = x
    return buf(ai, st, v)


def setv(ai, st, r, v):
    if isinstance(v, Vec) and not v.log and isinstance(ai.read(st, r.base, r.path), SRef):
        v = SRef(v.c, v.p, v.n, None, v.ety)
    ai.write(st, r.base, r.path, v)


@model(r"std::convert::From<std::string::String> for std::borrow::Cow<'.*, str>>::from$|std::convert::From<std::vec::Vec<.*>> for std::borrow::Cow<.*>>::from$")
def m_cow_owned(ai, st, fr, blk, inst, vals, dty):
    return [(st, Agg(dty, ai.mir.variant_named(dty, 'Owned'), [vals[0]]))]


@model(r"std::convert::From<&(str|\[.*\])> for std::borrow::Cow<.*>>::from$")
def m_cow_borrowed(ai, st, fr, blk, inst, vals, dty):
    return [(st, Agg(dty, ai.mir.variant_named(dty, 'Borrowed'), [vals[0]]))]


def logsrc(x):
    """write log of a buffer whose whole content is that log, else None"""
    if not x.log or not (isk(x.p) and x.p.args[0] == 0):
        return None
    t = ZERO
    for it in x.log:
        if it[0] == 'u':
            t = addk(t, it[1])
        elif it[0] == 's':
            t = add(t, it[1].len)
        else:
            return None
    return x.log if t is x.n else None


def slc(ai, st, v):
    """argument as slice"""
    if isinstance(v, SRef):
        return v
    r, x = deref_all(ai, st, v)
    if isinstance(x, SRef):
        return x
    if isinstance(x, Vec):
        return SRef(x.c, x.p, x.n, (r.base, r.path) if r else None, x.ety, logsrc(x))
    if r is not None:
        return ai.as_slice(st, r)
    return ai.as_slice(st, v)


def be(ai, st, c, p, n):
    t = ZERO
    for i in range(n):
        e = ai.elem(st, c, addk(p, i), ai.mir.u8)
        t = add(t, scale(e, 1 << (8 * (n - 1 - i))))
    return t


# ---------------------------------------------------------------- Bt
@model(r'algorithm::buf::Bt>?::remaining$')
def m_rem(ai, st, fr, blk, inst, vals, dty):
    r, b = buf(ai, st, vals[0])
    if b is None:
        s = slc(ai, st, vals[0])
        return [(st, s.len)] if s is not None else None
    return [(st, sub(b.n, b.p))]


@model(r'algorithm::buf::Bt>?::has_remaining$')
def m_hasrem(ai, st, fr, blk, inst, vals, dty):
    r, b = buf(ai, st, vals[0])
    if b is None:
        return None
    return [(st, ge0(addk(sub(b.n, b.p), -1)))]


@model(r'algorithm::buf::Bt>?::chunk$|algorithm::buf::Binary(Mut|Ref)?(::<.*>)?::as_slice$|<algorithm::buf::Binary(Mut|Ref)?.* as std::convert::AsRef<\[u8\]>>::as_ref$'
       r'|<algorithm::buf::Binary(Mut|Ref)?.* as std::ops::Deref>::deref$|<algorithm::buf::Binary(Mut|Ref)?.* as std::borrow::Borrow')
def m_chunk(ai, st, fr, blk, inst, vals, dty):
    r, b = buf(ai, st, vals[0])
    if b is None:
        return None
    return [(st, SRef(b.c, b.p, b.n, None, b.ety, logsrc(b)))]


def advance(ai, st, r, b, n):
    setv(ai, st, r, Vec(b.c, add(b.p, n), b.n, b.log, b.ety))


@model(r'algorithm::buf::Bt>?::(advance|advance_chunk)$')
def m_adv(ai, st, fr, blk, inst, vals, dty):
    r, b = rbuf(ai, st, vals[0])
    if b is None or r is None:
        return None
    n = ai.int_(vals[1], fr)
    c = le(n, sub(b.n, b.p))
    ai.site(fr, 'buffer advance', st.val(c) == 1, st, f'{show(n)} <= {show(sub(b.n, b.p))}')
    if not st.assume(c, 1):
        return []
    advance(ai, st, r, b, n)
    ai.event('consume', st, fr, blk, r, b, n)
    if inst['path'].endswith('advance_chunk'):
        return [(st, SRef(b.c, b.p, add(b.p, n), None, b.ety))]
    return [(st, UNIT)]


@model(r'algorithm::buf::Bt>?::advance_all$')
def m_advall(ai, st, fr, blk, inst, vals, dty):
    r, b = rbuf(ai, st, vals[0])
    if b is None:
        return None
    setv(ai, st, r, Vec(b.c, b.n, b.n, b.log, b.ety))
    ai.event('consume', st, fr, blk, r, b, sub(b.n, b.p))
    return [(st, UNIT)]


GET = re.compile(r'::(try_)?get_(u|i)(8|16|32|64|128)(_le)?$')


@model(r'algorithm::buf::Bt>?::(try_)?get_(u|i)(8|16|32|64|128)$')
def m_get(ai, st, fr, blk, inst, vals, dty):
    r, b = rbuf(ai, st, vals[0])
    if b is None or r is None:
        return None
    g = GET.search(inst['path'])
    n = int(g.group(3)) // 8
    c = ge0(addk(sub(b.n, b.p), -n))
    v = be(ai, st, b.c, b.p, n)
    if g.group(2) == 'i':
        v = mk('wrap', (v, 8 * n, True))
    if g.group(1):
        a, z = split(st, c)
        out = []
        if a:
            advance(ai, a, r, b, K(n))
            ai.event('consume', a, fr, blk, r, b, K(n))
            out.append((a, ok(ai, dty, v)))
        if z:
            out.append((z, err(ai, dty, None, z, fr, blk)))
        return out
    ai.site(fr, 'buffer get', st.val(c) == 1, st, f'{show(sub(b.n, b.p))} >= {n}')
    if not st.assume(c, 1):
        return []
    advance(ai, st, r, b, K(n))
    ai.event('consume', st, fr, blk, r, b, K(n))
    return [(st, v)]


@model(r'algorithm::buf::Bt>?::(peek|get_next)$')
def m_peek(ai, st, fr, blk, inst, vals, dty):
    r, b = rbuf(ai, st, vals[0])
    if b is None:
        return None
    a, z = split(st, ge0(addk(sub(b.n, b.p), -1)))
    out = []
    if a:
        e = ai.elem(a, b.c, b.p, ai.mir.u8)
        if inst['path'].endswith('get_next'):
            advance(ai, a, r, b, ONE)
            ai.event('consume', a, fr, blk, r, b, ONE)
        out.append((a, some(ai, dty, e)))
    if z:
        out.append((z, none(ai, dty)))
    return out


@model(r'algorithm::buf::Bt>?::copy_to_slice$')
def m_cts(ai, st, fr, blk, inst, vals, dty):
    r, b = rbuf(ai, st, vals[0])
    s = slc(ai, st, vals[1])
    if b is None or s is None:
        return None
    c = le(s.len, sub(b.n, b.p))
    ai.site(fr, 'buffer copy_to_slice', st.val(c) == 1, st, show(c))
    if not st.assume(c, 1):
        return []
    # filled slice
    n = s.len
    if s.loc is not None:
        if isk(n) and n.args[0] <= 64:
            cur = ai.read(st, *s.loc)
            if isk(s.s) and not isinstance(cur, Vec):
                f = None
                if isinstance(cur, Agg):
                    f = list(cur.f)
                elif isinstance(cur, T) and cur.op in ('bytes', 'carr') and len(cur.args[0]) <= 64:
                    f = [K(x) for x in cur.args[0]]
                if f is not None:
                    for i in range(n.args[0]):
                        f[s.s.args[0] + i] = ai.elem(st, b.c, addk(b.p, i), ai.mir.u8)
                    ai.write(st, s.loc[0], s.loc[1], Agg(getattr(cur, 'ty', None), 0, f))
                else:
                    ai.havoc_content(st, s.loc)
            else:
                ai.havoc_content(st, s.loc)
        else:
            ai.havoc_content(st, s.loc)
    advance(ai, st, r, b, n)
    ai.event('consume', st, fr, blk, r, b, n)
    return [(st, n)]


# ---------------------------------------------------------------- BtMut
def extend(ai, st, c, n0, item):
    """exact content c (n0 elements) followed by a logged item, or a fresh symbol"""
    n0 = st.val(n0)
    if n0 is not None and len(c.f) >= n0:
        f = list(c.f[:n0])
        if item[0] == 'u' and item[1] == 1:
            return Agg(None, 0, f + [item[2]])
        if item[0] == 'u':
            return Agg(None, 0, f + be_bytes(ai, st, item[2], item[1]))
        if item[0] == 's':
            k = st.val(item[1].len)
            if k is not None and k + len(f) <= 800:
                if item[1].src is not None and not isinstance(item[1].c, Agg):
                    import spec
                    r = spec.emitted(ai, st, item[1].src)
                    if r is None or any(not isinstance(x, T) for x in r):
                        return None
                    return Agg(None, 0, f + r)
                return Agg(None, 0, f + [ai.elem(st, item[1].c, addk(item[1].s, i), ai.mir.u8) for i in range(k)])
    return None


def log(ai, st, r, b, item, n):
    if ai.exact_buf and isinstance(b.c, Agg):
        c = extend(ai, st, b.c, b.n, item)
        if c is not None:
            setv(ai, st, r, Vec(c, b.p, K(len(c.f)), b.log + (item,), b.ety))
            return
        b = Vec(var(('lostc', id(b), repr(item)[:40]), None), b.p, b.n, b.log, b.ety)
    setv(ai, st, r, Vec(b.c, b.p, add(b.n, n), b.log + (item,), b.ety))


def find_put_slice(ai, st, v):
    """local BtMut::put_slice implementation of the struct a writer reference points to -> (inst, Ref, Agg)"""
    r, x = deref_all(ai, st, v)
    ty = x.ty if isinstance(x, (Agg, T)) and isinstance(x.ty, int) else None
    if r is None or ty is None or ai.mir.tk(ty) != 'adt':
        return None, r, x
    p = ai.mir.path(ty)
    for i in ai.mir.I.values():
        if i['local'] and 'body' in i and i['path'].endswith('algorithm::buf::BtMut>::put_slice') and ('<' + p) in i['name']:
            return i, r, x
    return None, r, x


def inner_writer(ai, st, r, x):
    """the one field of a writer wrapper that is itself a writer reference"""
    fs = ai.mir.fields(x.ty, 0) or []
    out = []
    for i, (n, t) in enumerate(fs):
        to = ai.mir.to(t)
        if to is not None and 'BtMut' in ai.mir.name(to):
            out.append(ai.read(st, r.base, r.path + (('f', None, i, t),)))
    return out[0] if len(out) == 1 else None


@model(r'algorithm::buf::BtMut>?::put_(u|i)(8|16|32|64|128)$')
def m_put(ai, st, fr, blk, inst, vals, dty):
    n = int(re.search(r'(\d+)$', inst['path']).group(1)) // 8
    r, b = buf(ai, st, vals[0])
    v = ai.int_(vals[1], fr)
    if b is None:
        ps, _, _ = find_put_slice(ai, st, vals[0])
        if ps is None:
            return None
        parts = be_bytes(ai, st, v, n)
        s = SRef(Agg(None, 0, parts), ZERO, K(n), None, ai.mir.u8)
        return ai.call(st, fr, (blk, 'ps'), ps, [vals[0], s], dty)
    log(ai, st, r, b, ('u', n, v), K(n))
    ai.event('write', st, fr, blk, r, b, ('u', n, v))
    return [(st, K(n))]


def be_bytes(ai, st, v, n):
    out = []
    for i in range(n):
        sh = 8 * (n - 1 - i)
        x = ai.shr(st, v, sh) if sh else v
        if x is None:
            x = mk('shr', (v, K(sh)))
        y = ai.bitand(st, x, 255)
        if y is None:
            y = mk('and', (x, K(255)))
        out.append(y)
    return out


@model(r'algorithm::buf::BtMut>?::(put_slice|inner_put_slice)$|std::io::Write>?::(write|write_all)$|std::vec::Vec::<T, A>::extend_from_slice$|std::string::String::push_str$'
       r'|algorithm::buf::BinaryMut::put_slice$|std::io::impls::<impl std::io::Write for')
def m_putslice(ai, st, fr, blk, inst, vals, dty):
    r, b = buf(ai, st, vals[0])
    s = slc(ai, st, vals[1]) if len(vals) > 1 else None
    if b is None and s is not None:
        ps, wr, wx = find_put_slice(ai, st, vals[0])
        if inst['path'].endswith('inner_put_slice'):
            w = inner_writer(ai, st, wr, wx) if wr is not None and isinstance(wx, (Agg, T)) and isinstance(wx.ty, int) else None
            return m_putslice(ai, st, fr, (blk, 'in'), dict(inst, path='algorithm::buf::BtMut::put_slice'), [w, s], dty) if w is not None else None
        if ps is not None and inst['path'].endswith('put_slice'):
            return ai.call(st, fr, (blk, 'ps'), ps, [vals[0], s], dty)
    if b is None or s is None or r is None:
        return None
    item = ('s', s)
    if ai.exact_buf and isinstance(b.c, Agg):
        log(ai, st, r, b, item, s.len)
    elif s.src is not None:
        setv(ai, st, r, Vec(b.c, b.p, add(b.n, s.len), b.log + s.src, b.ety))
    elif isinstance(s.c, Agg) and isk(s.s) and isk(s.e):
        items = tuple(('u', 1, x) for x in s.c.f[s.s.args[0]:s.e.args[0]])
        setv(ai, st, r, Vec(b.c, b.p, add(b.n, s.len), b.log + items, b.ety))
    else:
        log(ai, st, r, b, item, s.len)
    ai.event('write', st, fr, blk, r, b, item)
    p = inst['path']
    if 'io::Write' in p or 'Write for' in p:
        if p.endswith('write_all'):
            return [(st, ok(ai, dty, UNIT))]
        return [(st, ok(ai, dty, s.len))]
    if p.endswith('extend_from_slice') or p.endswith('push_str'):
        return [(st, UNIT)]
    return [(st, s.len)]


def exact(b):
    """items of a sequence whose content is known element by element"""
    if isinstance(b.c, Agg) and b.c.ty == 'seq' and isk(b.p) and b.p.args[0] == 0 and isk(b.n) and b.n.args[0] == len(b.c.f):
        return b.c.f
    return None


@model(r'std::vec::Vec::<T, A>::push$|std::string::String::push$|VecDeque::<T, A>::push_(back|front)$|std::vec::Vec::<T, A>::push_mut$')
def m_push(ai, st, fr, blk, inst, vals, dty):
    r, b = buf(ai, st, vals[0])
    if b is None or r is None:
        return None
    if inst['path'].endswith('String::push'):
        v = ai.int_(vals[1], fr)
        d = st.dom(v)
        if d and d[-1][1] < 128:
            log(ai, st, r, b, ('u', 1, v), ONE)
        else:
            n = ai.fresh(st, fr, blk, 'chlen', ai.mir.usize, count=True)
            st.refine(n, ((1, 4),))
            log(ai, st, r, b, ('*',), n)
        return [(st, UNIT)]
    item = ('u', 1, vals[1]) if isinstance(vals[1], T) and b.ety == ai.mir.u8 else ('p', vals[1])
    front = inst['path'].endswith('front')
    sq = exact(b)
    if sq is not None and b.ety != ai.mir.u8 and len(sq) < 400:
        c = Agg('seq', 0, ((vals[1],) + sq) if front else (sq + (vals[1],)))
        setv(ai, st, r, Vec(c, ZERO, K(len(c.f)), (b.log + ((item if not front else ('f', vals[1])),)) if len(b.log) < 40 else (('*',),), b.ety))
    elif front or b.ety != ai.mir.u8:
        c = ai.fresh(st, fr, blk, 'pushc', None)
        setv(ai, st, r, Vec(c, b.p, addk(b.n, 1), (b.log + ((item if not front else ('f', vals[1])),)) if len(b.log) < 40 else (('*',),), b.ety))
    else:
        log(ai, st, r, b, item, ONE)
    ai.event('push', st, fr, blk, r, b, vals[1])
    return [(st, UNIT)]


@model(r'VecDeque::<T, A>::pop_(back|front)$|std::vec::Vec::<T, A>::pop$|std::string::String::pop$')
def m_pop(ai, st, fr, blk, inst, vals, dty):
    r, b = buf(ai, st, vals[0])
    if b is None or r is None:
        return None
    sq = exact(b)
    if sq:
        fr_ = inst['path'].endswith('front')
        e, rest = (sq[0], sq[1:]) if fr_ else (sq[-1], sq[:-1])
        setv(ai, st, r, Vec(Agg('seq', 0, rest), ZERO, K(len(rest)), b.log + (('pop',),) if len(b.log) < 40 else (('*',),), b.ety))
        ai.event('pop', st, fr, blk, r, b, e)
        return [(st, some(ai, dty, e))]
    a, z = split(st, ge0(addk(sub(b.n, b.p), -1)))
    out = []
    if a:
        c = ai.fresh(a, fr, blk, 'popc', None)
        e = ai.fresh(a, fr, blk, 'pope', oktype(ai, dty, 'Some'))
        setv(ai, a, r, Vec(c, b.p, addk(b.n, -1), b.log + (('pop',),) if len(b.log) < 40 else (('*',),), b.ety))
        ai.event('pop', a, fr, blk, r, b, e)
        out.append((a, some(ai, dty, e)))
    if z:
        out.append((z, none(ai, dty)))
    return out


def items(b):
    """elements of a sequence known element by element (whatever the element type), or None"""
    if isinstance(b.c, Agg) and isk(b.p) and isk(b.n) and len(b.c.f) >= b.n.args[0] >= b.p.args[0]:
        return b.c.f[b.p.args[0]:b.n.args[0]]
    return None


def setitems(ai, st, r, b, f):
    setv(ai, st, r, Vec(Agg('seq' if b.ety != ai.mir.u8 else None, 0, tuple(f)), ZERO, K(len(f)), b.log + (('*',),), b.ety))


@model(r'(std::vec::Vec::<T, A>|VecDeque::<T, A>)::(remove|swap_remove|insert)$')
def m_vremove(ai, st, fr, blk, inst, vals, dty):
    r, b = buf(ai, st, vals[0])
    if b is None or r is None:
        return None
    op = inst['path'].rsplit('::', 1)[1]
    deque = 'VecDeque' in inst['path']
    i = ai.int_(vals[1], fr)
    n = sub(b.n, b.p)
    c = le(i, n) if op == 'insert' else lt(i, n)
    out = []
    if deque and op == 'remove':
        st, z = split(st, c)
        if z:
            out.append((z, none(ai, dty)))
        if st is None:
            return out
    else:
        ai.site(fr, 'index', st.val(c) == 1, st, show(c))
        if not st.assume(c, 1):
            return []
    f = items(b)
    vs = None
    if f is not None:
        d = st.dom(i)
        if d and D.size(d) <= 64:
            vs = list(D.it(d))
    wrap = (lambda e: some(ai, dty, e)) if deque and op == 'remove' else (lambda e: e)
    if vs is None:
        cc = ai.fresh(st, fr, blk, 'vrm', None)
        setv(ai, st, r, Vec(cc, b.p, addk(b.n, 1 if op == 'insert' else -1), (('*',),), b.ety))
        if op == 'insert':
            return out + [(st, UNIT)]
        et = oktype(ai, dty, 'Some') if deque else dty
        e = ai.fresh(st, fr, blk, 'vre', et)
        return out + [(st, wrap(e))]
    for x in vs:
        if not 0 <= x <= len(f) - (op != 'insert'):
            continue
        t = st.copy() if len(vs) > 1 else st
        if not isk(i) and not t.refine(i, D.const(x)):
            continue
        g = list(f)
        if op == 'insert':
            g.insert(x, vals[2])
            e = UNIT
        elif op == 'swap_remove':
            e, last = g[x], g.pop()
            if x < len(g):
                g[x] = last
            e = wrap(e)
        else:
            e = wrap(g.pop(x))
        setitems(ai, t, r, b, g)
        out.append((t, e))
    return out


@model(r'std::vec::Vec::<T, A>::(len)$|std::string::String::len$|VecDeque::<T, A>::len$|algorithm::buf::Binary(Mut|Ref)?(::<.*>)?::len$|'
       r'std::slice::<impl \[T\]>::len$|std::str::<impl str>::len$|core::slice::<impl \[T\]>::len$|core::str::<impl str>::len$')
def m_len(ai, st, fr, blk, inst, vals, dty):
    s = slc(ai, st, vals[0])
    if s is None:
        return None
    return [(st, s.len)]


@model(r'std::vec::Vec::<T, A>::is_empty$|String::is_empty$|VecDeque::<T, A>::is_empty$|algorithm::buf::Binary(Mut|Ref)?(::<.*>)?::is_empty$|'
       r'::<impl \[T\]>::is_empty$|::<impl str>::is_empty$')
def m_empty(ai, st, fr, blk, inst, vals, dty):
    s = slc(ai, st, vals[0])
    if s is None:
        return None
    return [(st, eq(s.len, ZERO))]


@model(r'std::vec::Vec::<T>::(new|with_capacity)$|std::string::String::(new|with_capacity)$|VecDeque::<T>::(new|with_capacity)$|'
       r'algorithm::buf::BinaryMut::(new|with_capacity)$|<algorithm::buf::Binary(Mut)? as std::default::Default>::default$|'
       r'<std::(vec::Vec<T>|string::String|collections::VecDeque<T>) as std::default::Default>::default$|algorithm::buf::Binary::new$')
def m_new(ai, st, fr, blk, inst, vals, dty):
    e = ai.seqlike(dty)
    if e is None:
        return None
    if inst['path'].endswith('with_capacity'):
        ai.event('alloc', st, fr, blk, None, None, vals[0])
    return [(st, Vec(empty(ai, e[0]) or var(('newc', fr.id, blk), None), ZERO, ZERO, (), e[0]))]


def empty(ai, ety):
    """content of an empty sequence, when contents are tracked element by element"""
    if ety != ai.mir.u8:
        return Agg('seq', 0, ())
    return Agg(None, 0, ()) if ai.exact_buf else None


@model(r'(std::vec::Vec::<T, A>|VecDeque::<T, A>)::append$')
def m_append(ai, st, fr, blk, inst, vals, dty):
    r, b = buf(ai, st, vals[0])
    r2, b2 = buf(ai, st, vals[1])
    if b is None or r is None or b2 is None or r2 is None:
        return None
    s = slc(ai, st, vals[1])
    if b.ety != ai.mir.u8:
        x, y = exact(b), exact(b2)
        if x is None or y is None:
            return None
        setv(ai, st, r, Vec(Agg('seq', 0, x + y), ZERO, K(len(x) + len(y)), b.log + tuple(('p', e) for e in y), b.ety))
    else:
        log(ai, st, r, b, ('s', SRef(s.c, s.s, s.e, None, s.ety, s.src)), s.len)
    setv(ai, st, r2, Vec(empty(ai, b2.ety) or ai.fresh(st, fr, blk, 'app', None), ZERO, ZERO, (), b2.ety))
    return [(st, UNIT)]


@model(r'std::vec::from_elem$')
def m_from_elem(ai, st, fr, blk, inst, vals, dty):
    n = ai.int_(vals[1], fr)
    e = ai.seqlike(dty)
    ai.event('alloc', st, fr, blk, None, None, n)
    return [(st, Vec(var(('rep', fr.id, blk), None), ZERO, n, (), e[0] if e else None))]


@model(r'(Vec::<T, A>|String|BinaryMut|VecDeque::<T, A>)::(reserve|reserve_exact|shrink_to_fit)$')
def m_reserve(ai, st, fr, blk, inst, vals, dty):
    if len(vals) > 1:
        ai.event('alloc', st, fr, blk, None, None, vals[1])
    return [(st, UNIT)]


@model(r'(std::vec::Vec::<T, A>|std::string::String|VecDeque::<T, A>)::clear$|algorithm::buf::BinaryMut::clear$')
def m_clear(ai, st, fr, blk, inst, vals, dty):
    r, b = buf(ai, st, vals[0])
    if b is None or r is None:
        return None
    c = empty(ai, b.ety) or ai.fresh(st, fr, blk, 'clr', None)
    setv(ai, st, r, Vec(c, ZERO, ZERO, (), b.ety))
    return [(st, UNIT)]


@model(r'(std::vec::Vec::<T, A>|std::string::String|VecDeque::<T, A>)::truncate$')
def m_trunc(ai, st, fr, blk, inst, vals, dty):
    r, b = buf(ai, st, vals[0])
    n = ai.int_(vals[1], fr)
    if b is None or r is None:
        return None
    a, z = split(st, le(n, sub(b.n, b.p)))
    out = []
    if a:
        f = items(b)
        if f is not None and a.val(n) is not None:
            setitems(ai, a, r, b, f[:a.val(n)])
            return [(a, UNIT)] + ([(z, UNIT)] if z else [])
        c = ai.fresh(a, fr, blk, 'trc', None)
        setv(ai, a, r, Vec(b.c, b.p, add(b.p, n), b.log + (('*',),), b.ety))
        out.append((a, UNIT))
    if z:
        out.append((z, UNIT))
    return out


@model(r'std::vec::Vec::<T, A>::(as_slice|as_mut_slice)$|<std::vec::Vec<T, A> as std::(ops::Deref|ops::DerefMut|convert::AsRef<\[T\]>|borrow::Borrow<\[T\]>)>::|'
       r'<std::string::String as std::ops::Deref(Mut)?>::deref|std::string::String::(as_str|as_bytes)$|<std::string::String as std::(convert::AsRef|borrow::Borrow)|'
       r'::<impl str>::(as_bytes|as_ref|as_str)$|::<impl std::borrow::Borrow<.*> for .*>::borrow$|<(str|\[T\]) as std::convert::AsRef<.*>>::as_ref$|'
       r'::<impl std::convert::AsRef<.*> for (str|\[T\])>::as_ref$|std::array::<impl .*AsRef<.*for \[T; N\]>::as_ref$|::<impl \[T; N\]>::as_slice$')
def m_asslice(ai, st, fr, blk, inst, vals, dty):
    s = slc(ai, st, vals[0])
    if s is None:
        return None
    mut = ai.mir.tk(dty) == 'ref' and ai.mir.types[dty].get('mut')
    return [(st, s if mut else SRef(s.c, s.s, s.e, None, s.ety, s.src))]


@model(r'std::str::from_utf8$|core::str::converts::from_utf8$|std::string::String::from_utf8$|core::str::<impl str>::from_utf8$|std::str::<impl str>::from_utf8$')
def m_utf8(ai, st, fr, blk, inst, vals, dty):
    v = vals[0]
    if isinstance(v, T) and not (v.ty is not None and ai.seqlike(v.ty)):
        v = slc(ai, st, v) or v
    if isinstance(v, Ref):
        v = slc(ai, st, v)
    w = v
    if isinstance(v, Vec):
        w = SRef(v.c, v.p, v.n, None, v.ety) if not v.log or isinstance(v.c, Agg) else None
    if isinstance(w, SRef):
        k = const_bytes(w)
        if (k is not None and all(x < 128 for x in k)) or (k is None and ascii_slice(ai, st, w)):
            return [(st, ok(ai, dty, v))]
        r = utf8_split(ai, st, w)
        if r is not None:
            return [(t, ok(ai, dty, v) if good else err(ai, dty, None, t, fr, blk)) for t, good in r]
    a, b = st.copy(), st
    return [(a, ok(ai, dty, v)), (b, err(ai, dty, None, b, fr, blk))]


def utf8_split(ai, st, s):
    """[(state, valid?)] when the bytes are determined by at most one symbolic byte"""
    n = st.val(s.len)
    if n is None or n > 200:
        return None
    es = [ai.elem(st, s.c, addk(s.s, i), ai.mir.u8) for i in range(n)]
    if not all(isinstance(e, T) for e in es):
        return None
    un = [e for e in es if st.val(e) is None]
    leaves = set()
    for e in un:
        leaves |= set(tleaves(e))
    def valid(t):
        try:
            bytes(t.val(e) for e in es).decode('utf-8')
            return True
        except UnicodeDecodeError:
            return False
    if not leaves:
        return [(st, valid(st))] if not un else None
    leaves = sorted(leaves, key=lambda t: t.id)
    sizes = [D.size(st.dom(x)) for x in leaves]
    if len(leaves) > 2 or (len(leaves) == 2 and sizes[0] * sizes[1] > 1024) or max(sizes) > 256:
        return None

    def part(t, xs):
        """{frozenset of (value tuple) -> valid}: list of (assignments as domains, valid)"""
        if not xs:
            return None if any(t.val(e) is None for e in es) else valid(t)
        groups = {}
        for b in D.it(t.dom(xs[0])):
            u = t.copy()
            if not u.refine(xs[0], D.const(b)):
                continue
            u.touch()
            r = part(u, xs[1:])
            if r is None:
                return None
            groups.setdefault(r, []).append(b)
        return tuple(sorted(((tuple(vs), r) for r, vs in groups.items()), key=repr))
    r = part(st, leaves)
    if r is None:
        return None
    out = []
    for vs, q in r:
        t = st.copy()
        if not t.refine(leaves[0], D.of(list(vs))):
            continue
        if isinstance(q, bool):
            out.append((t, q))
            continue
        for ws, g in q:
            u = t.copy()
            if u.refine(leaves[1], D.of(list(ws))):
                out.append((u, g))
    return out


def tleaves(t):
    if t.op == 'k' or t.op in ('carr', 'bytes'):
        return []
    if t.op == 'lin':
        return [y for a, _ in t.args[1] for y in tleaves(a)]
    if t.op in ('and', 'or', 'xor', 'shr', 'shl', 'wrap', 'tbl'):
        return [y for a in t.args if isinstance(a, T) for y in tleaves(a)]
    return [t]


@model(r'from_utf8_unchecked$')
def m_utf8u(ai, st, fr, blk, inst, vals, dty):
    v = vals[0]
    if isinstance(v, (Ref, T)) and not (isinstance(v, T) and v.ty is not None and ai.seqlike(v.ty)):
        v = slc(ai, st, v) or v
    ai.event('utf8_unchecked', st, fr, blk, None, None, v)
    return [(st, v)]


@model(r'String::from_utf8_lossy$')
def m_lossy(ai, st, fr, blk, inst, vals, dty):
    """the identity on ASCII content (and, with lossy_id, on everything: the caller compares the bytes handed over)"""
    s = slc(ai, st, vals[0])
    if s is None:
        return None
    if not getattr(ai, 'lossy_id', False):
        k = const_bytes(s)
        if k is not None:
            if any(x > 127 for x in k):
                return None
        elif not ascii_slice(ai, st, s):
            return None
    if s.loc is not None and isinstance(s.loc, tuple):
        # keep the content alive independently of the place it was read from
        s = SRef(s.c, s.s, s.e, None, s.ety, s.src)
    return [(st, Agg(dty, ai.mir.variant_named(dty, 'Borrowed'), [s]))]


def ascii_slice(ai, st, s):
    if s.src is not None:
        for it in s.src:
            if it[0] == 'u':
                if it[1] != 1:
                    return False
                d = st.dom(it[2])
                if not d or d[0][0] < 0 or d[-1][1] > 127:
                    return False
            elif it[0] == 's':
                if not ascii_slice(ai, st, it[1]):
                    return False
            else:
                return False
        return True
    k = const_bytes(s)
    if k is not None:
        return all(x < 128 for x in k)
    n = st.val(s.len)
    if n is None or n > 64:
        return False
    for i in range(n):
        d = st.dom(ai.elem(st, s.c, addk(s.s, i), ai.mir.u8))
        if not d or d[-1][1] > 127:
            return False
    return True


@model(r'::<impl \[T\]>::(to_vec|to_owned|into_vec)$|::<impl std::borrow::ToOwned for (str|\[T\])>::to_owned$|<std::string::String as std::convert::From<&(mut )?str>>::from$|'
       r'::<impl std::string::ToString for (str|std::string::String)>::to_string$|std::str::<impl str>::to_owned$|<algorithm::buf::Binary(Mut|Ref)?.* as std::convert::From<&.*>>::from$|'
       r'<std::vec::Vec<.*> as std::convert::From<&.*>>::from$|algorithm::buf::Binary::(copy_from_slice|from_static)$|::<impl std::convert::From<&str> for .*Vec')
def m_tovec(ai, st, fr, blk, inst, vals, dty):
    s = slc(ai, st, vals[0])
    if s is None:
        return None
    v = vec_of_slice(s)
    return [(st, v)]


@model(r'<algorithm::buf::Binary(Mut)? as std::convert::From<std::(vec::Vec<u8>|string::String)>>::from$|algorithm::buf::BinaryMut::(freeze|into_slice_all)$|std::string::String::into_bytes$|'
       r'<std::vec::Vec<u8> as std::convert::From<std::string::String>>::from$|<algorithm::buf::Binary(Mut)? as std::convert::From<algorithm::buf::Binary(Mut)?>>::from$|'
       r'std::convert::<impl std::convert::From<.*String> for .*Vec<u8>>::from$|algorithm::buf::Binary::into_slice$|algorithm::buf::Bt>?::into_binary$')
def m_conv(ai, st, fr, blk, inst, vals, dty):
    v = vals[0]
    if isinstance(v, Ref):
        r, b = buf(ai, st, v)
        if b is None:
            return None
        if inst['path'].endswith('into_slice_all') and r is not None:
            setv(ai, st, r, Vec(b.c, b.n, b.n, b.log, b.ety))
        v = b
    if isinstance(v, T):
        v = ai.as_vec(v)
    if not isinstance(v, Vec):
        return None
    return [(st, v)]


@model(r'^std::clone::impls::|as std::clone::Clone>::clone$|std::array::<impl std::clone::Clone')
def m_clone(ai, st, fr, blk, inst, vals, dty):
    if 'body' in inst and not re.search(r'<std::(vec|string|sync|collections|slice|str)|algorithm|impls', inst['path']):
        return None
    v = vals[0]
    if isinstance(v, Ref):
        return [(st, ai.read(st, v.base, v.path))]
    if isinstance(v, T) and v.ty is not None and ai.mir.to(v.ty) is not None:
        return [(st, ai.base_value(st, ('d', v)))]
    return None


@model(r'<T as std::borrow::ToOwned>::to_owned$')
def m_owned(ai, st, fr, blk, inst, vals, dty):
    t = next((x for x in inst.get('targs') or [] if isinstance(x, int)), None)
    path = ai.mir.path(t) if t is not None and ai.mir.tk(t) == 'adt' else None
    if path:
        f = next((i for i in ai.mir.I.values() if i['local'] and 'body' in i and i['name'].endswith(f'{path} as std::clone::Clone>::clone')), None)
        if f is not None:
            return ai.call(st, fr, blk, f, vals[:1], dty)
    return m_clone(ai, st, fr, blk, {'path': 'impls'}, vals, dty)


@model(r'::tuple::<impl std::cmp::PartialEq for \(.*\)>::(eq|ne)$')
def m_tupeq(ai, st, fr, blk, inst, vals, dty):
    _, a = deref_all(ai, st, vals[0])
    _, b = deref_all(ai, st, vals[1])
    ts = [t for t in inst.get('targs') or [] if isinstance(t, int)]
    if not all(ai.mir.tk(t) in ('int', 'uint', 'bool', 'char') for t in ts):
        return None
    ne = inst['path'].endswith('::ne')
    out, cur = [], st
    for i, t in enumerate(ts):
        x, y = ai.proj(a, ('f', None, i), t), ai.proj(b, ('f', None, i), t)
        if not isinstance(x, T) or not isinstance(y, T):
            return None
        s, d = split(cur, eq(x, y))
        if d:
            out.append((d, K(int(ne))))
        if s is None:
            return out
        cur = s
    return out + [(cur, K(int(not ne)))]


@model(r'std::clone::Clone::clone$')
def m_clone2(ai, st, fr, blk, inst, vals, dty):
    return None


# ---------------------------------------------------------------- indexing
def rng_of(ai, st, v, ln):
    """-> (lo, hi) terms for a range value over a sequence of length ln, or None"""
    if isinstance(v, T) and v.ty is not None and ai.mir.tk(v.ty) == 'adt':
        p = ai.mir.path(v.ty)
        fs = ai.mir.fields(v.ty, 0)
        f = [ai.proj(v, ('f', None, i), t) for i, (_, t) in enumerate(fs)]
        v = Agg(v.ty, 0, f)
    if isinstance(v, Agg):
        p = ai.mir.path(v.ty) if isinstance(v.ty, int) else ''
        if p.endswith('RangeFull'):
            return ZERO, ln
        if p.endswith('RangeFrom'):
            return v.f[0], ln
        if p.endswith('RangeTo'):
            return ZERO, v.f[0]
        if p.endswith('RangeInclusive'):
            return v.f[0], addk(v.f[1], 1)
        if p.endswith('RangeToInclusive'):
            return ZERO, addk(v.f[0], 1)
        if p.endswith('Range'):
            return v.f[0], v.f[1]
    return None


@model(r'std::ops::Index(Mut)?<I>>::index(_mut)?$|::<impl std::ops::Index(Mut)?<I> for (\[T\]|str|\[T; N\])>::index(_mut)?$|<std::string::String as std::ops::Index|'
       r'<algorithm::buf::Binary(Mut|Ref)?.* as std::ops::Index|<std::collections::VecDeque<T, A> as std::ops::Index')
def m_index(ai, st, fr, blk, inst, vals, dty):
    return seq_picks(ai, st, vals, lambda u, w: m_index1(ai, u, fr, blk, inst, w, dty))


def seq_picks(ai, st, vals, f):
    """exact mode: element access of a known sequence of records, one state per possible index"""
    i = vals[1]
    if ai.exact_buf and isinstance(i, T) and not isk(i) and st.val(i) is None:
        s = slc(ai, st, vals[0])
        if s is not None and isinstance(s.c, Agg) and s.ety != ai.mir.u8 and isk(s.s) and isk(s.len):
            d = st.dom(i)
            if d and D.size(D.inter(d, D.rng(0, s.len.args[0] - 1))) <= 160:
                out = []
                for k in range(s.len.args[0]):
                    if D.has(d, k):
                        u = st.copy()
                        if u.refine(i, D.const(k)) and u.assume(eq(i, K(k)), 1):
                            out += f(u, [vals[0], K(k)] + list(vals[2:])) or []
                u = st.copy()
                if u.assume(le(s.len, i), 1):
                    out += f(u, vals) or []
                return out
    return f(st, vals)


def known_values(st, t, hi):
    """one state per value 0..hi the term can have; None when there are too many"""
    v = st.val(t)
    if v is not None:
        return [(st, K(v))]
    d = D.inter(st.dom(t), D.rng(0, hi))
    if not d or D.size(d) > 160:
        return None
    out = []
    for k in D.it(d):
        u = st.copy()
        if u.refine(t, D.const(k)) and u.assume(eq(t, K(k)), 1):
            u.touch()
            out.append((u, K(k)))
    return out


def m_index1(ai, st, fr, blk, inst, vals, dty):
    s = slc(ai, st, vals[0])
    if s is None:
        return None
    i = vals[1]
    mut = ai.mir.tk(dty) == 'ref' and ai.mir.types[dty].get('mut')
    loc = s.loc if mut else None
    if isinstance(i, T) and not (i.ty is not None and ai.mir.tk(i.ty) == 'adt'):
        c = lt(i, s.len)
        ok_ = st.val(c) == 1 and st.ge(i)
        ai.site(fr, 'index', ok_, st, f'{show(i)} < {show(s.len)}')
        if not st.assume(c, 1) or not st.addlin(i):
            return []
        return [(st, Ref(('el', s.c, add(s.s, i), s.ety, loc)))]
    r = rng_of(ai, st, i, s.len)
    if r is None:
        return None
    a, b = r
    isstr = ai.mir.tk(dty) == 'ref' and ai.mir.tk(ai.mir.to(dty)) == 'str'
    c1, c2 = le(a, b), le(b, s.len)
    ok1, ok2 = st.val(c1) == 1, st.val(c2) == 1
    ai.site(fr, 'slice range', ok1 and ok2 and not isstr, st,
            ' '.join([] if ok1 else [show(c1)]) + ' ' + ('' if ok2 else show(c2)) + (' char boundary' if isstr else ''))
    if not (st.assume(c1, 1) and st.assume(c2, 1)):
        return []
    if ai.exact_buf and isinstance(s.c, Agg) and isk(s.len) and isk(s.s) and not (isk(a) and isk(b)):
        out = []
        for u, x in known_values(st, a, s.len.args[0]) or []:
            for w, y in known_values(u, b, s.len.args[0]) or []:
                out.append((w, SRef(s.c, add(s.s, x), add(s.s, y), loc, s.ety)))
        if out:
            return out
    return [(st, SRef(s.c, add(s.s, a), add(s.s, b), loc, s.ety))]


@model(r'::<impl \[T\]>::get(_mut)?$|::<impl str>::get$|VecDeque::<T, A>::get(_mut)?$')
def m_sget(ai, st, fr, blk, inst, vals, dty):
    return seq_picks(ai, st, vals, lambda u, w: m_sget1(ai, u, fr, blk, inst, w, dty))


def m_sget1(ai, st, fr, blk, inst, vals, dty):
    s = slc(ai, st, vals[0])
    if s is None:
        return None
    i = vals[1]
    mut = inst['path'].endswith('_mut')
    if isinstance(i, T) and not (i.ty is not None and ai.mir.tk(i.ty) == 'adt'):
        a, z = split(st, lt(i, s.len))
        out = []
        if a:
            out.append((a, some(ai, dty, Ref(('el', s.c, add(s.s, i), s.ety, s.loc if mut else None)))))
        if z:
            out.append((z, none(ai, dty)))
        return out
    r = rng_of(ai, st, i, s.len)
    if r is None:
        return None
    lo, hi = r
    a, z = split(st, le(hi, s.len))
    out = []
    if a:
        a, z2 = split(a, le(lo, hi))
        if z2:
            out.append((z2, none(ai, dty)))
        if a:
            out.append((a, some(ai, dty, SRef(s.c, add(s.s, lo), add(s.s, hi), s.loc if mut else None, s.ety))))
    if z:
        out.append((z, none(ai, dty)))
    return out


@model(r'::<impl \[T\]>::(first|last)(_mut)?$|VecDeque::<T, A>::(front|back)$')
def m_first(ai, st, fr, blk, inst, vals, dty):
    s = slc(ai, st, vals[0])
    if s is None:
        return None
    a, z = split(st, ge0(addk(s.len, -1)))
    out = []
    p = inst['path']
    if a:
        i = s.s if re.search(r'(first|front)(_mut)?$', p) else addk(s.e, -1)
        out.append((a, some(ai, dty, Ref(('el', s.c, i, s.ety, s.loc if p.endswith('_mut') else None)))))
    if z:
        out.append((z, none(ai, dty)))
    return out


@model(r'::<impl \[T\]>::split_at(_mut)?$|::<impl str>::split_at$')
def m_splitat(ai, st, fr, blk, inst, vals, dty):
    s = slc(ai, st, vals[0])
    if s is None:
        return None
    i = ai.int_(vals[1], fr)
    c = le(i, s.len)
    ai.site(fr, 'split_at', st.val(c) == 1, st, show(c))
    if not st.assume(c, 1):
        return []
    m = add(s.s, i)
    return [(st, Agg(dty, 0, [SRef(s.c, s.s, m, s.loc, s.ety), SRef(s.c, m, s.e, s.loc, s.ety)]))]


@model(r'::<impl \[T\]>::(copy_from_slice|clone_from_slice)$')
def m_cfs(ai, st, fr, blk, inst, vals, dty):
    s, o = slc(ai, st, vals[0]), slc(ai, st, vals[1])
    if s is None or o is None:
        return None
    c = eq(s.len, o.len)
    ai.site(fr, 'copy_from_slice', st.val(c) == 1, st, show(c))
    if not st.assume(c, 1):
        return []
    if s.loc is not None:
        cur = ai.read(st, *s.loc)
        n = st.dom(s.len)
        if isk(s.s) and isk(s.len) and s.len.args[0] <= 64 and isinstance(cur, Agg):
            f = list(cur.f)
            for i in range(s.len.args[0]):
                f[s.s.args[0] + i] = ai.elem(st, o.c, addk(o.s, i), ai.mir.u8)
            ai.write(st, s.loc[0], s.loc[1], Agg(cur.ty, 0, f))
        else:
            ai.havoc_content(st, s.loc)
    return [(st, UNIT)]


# ---------------------------------------------------------------- iterators
@model(r'::<impl \[T\]>::iter(_mut)?$|VecDeque::<T, A>::iter(_mut)?$|<&\'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|'
       r'<&\'a (mut )?\[T(; N)?\] as std::iter::IntoIterator>::into_iter$|::<impl std::iter::IntoIterator for &\'a (mut )?\[T(; N)?\]>::into_iter$|'
       r'<&\'a (mut )?std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter$')
def m_iter(ai, st, fr, blk, inst, vals, dty):
    s = slc(ai, st, vals[0])
    if s is None:
        return None
    mut = 'mut' in inst['path'].split('>::')[-1] or '&\'a mut' in inst['path']
    return [(st, Agg('It', 0, [SRef(s.c, s.s, s.e, s.loc if mut else None, s.ety), K(1)]))]


@model(r'::<impl str>::bytes$')
def m_bytes(ai, st, fr, blk, inst, vals, dty):
    s = slc(ai, st, vals[0])
    return [(st, Agg('It', 0, [SRef(s.c, s.s, s.e, None, s.ety), K(0)]))] if s is not None else None


@model(r'<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$')
def m_vii(ai, st, fr, blk, inst, vals, dty):
    v = ai.as_vec(vals[0]) if isinstance(vals[0], (T, Vec)) else None
    if v is None:
        return None
    return [(st, Agg('It', 0, [SRef(v.c, v.p, v.n, None, v.ety), K(0)]))]


def it_of(ai, st, v):
    r, x = None, v
    n = 0
    while isinstance(x, Ref) and n < 6:
        r = x
        x = ai.read(st, x.base, x.path)
        n += 1
    if isinstance(x, Agg) and x.ty == 'It':
        return r, x
    return None, None


def item(ai, st, s, pos, byref):
    if byref.args[0]:
        return Ref(('el', s.c, pos, s.ety, s.loc))
    return ai.elem(st, s.c, pos, s.ety or ai.mir.u8)


@model(r'<std::(slice::Iter(Mut)?|vec::IntoIter|str::Bytes|collections::vec_deque::Iter(Mut)?)<.*as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$|<std::str::Bytes<.*>::next$')
def m_next(ai, st, fr, blk, inst, vals, dty):
    r, x = it_of(ai, st, vals[0])
    if x is None:
        return None
    s, br = x.f
    a, z = split(st, ge0(addk(s.len, -1)))
    out = []
    if a:
        if inst['path'].endswith('back'):
            e = item(ai, a, s, addk(s.e, -1), br)
            ns = SRef(s.c, s.s, addk(s.e, -1), s.loc, s.ety)
        else:
            e = item(ai, a, s, s.s, br)
            ns = SRef(s.c, addk(s.s, 1), s.e, s.loc, s.ety)
        ai.write(a, r.base, r.path, Agg('It', 0, [ns, br]))
        out.append((a, some(ai, dty, e)))
    if z:
        out.append((z, none(ai, dty)))
    return out


@model(r'<std::(slice::Iter|str::Bytes|str::Chars|collections::vec_deque::Iter)<.*as std::clone::Clone>::clone$')
def m_iterclone(ai, st, fr, blk, inst, vals, dty):
    v = vals[0]
    if isinstance(v, Ref):
        v = ai.read(st, v.base, v.path)
    return [(st, v)] if isinstance(v, Agg) and v.ty == 'It' else None


@model(r'<std::(slice::Iter(Mut)?|vec::IntoIter|str::Bytes)<.*as std::iter::(Iterator|ExactSizeIterator)>::(len|count)$')
def m_itlen(ai, st, fr, blk, inst, vals, dty):
    r, x = it_of(ai, st, vals[0])
    if x is None and isinstance(vals[0], Agg) and vals[0].ty == 'It':
        x = vals[0]
    return [(st, x.f[0].len)] if x is not None else None


def clo_call(ai, st, fr, blk, f, args, dty):
    """call a closure value / fn item"""
    m = ai.mir
    self_ = f
    x = f
    if isinstance(x, Ref):
        x = ai.read(st, x.base, x.path)
    if isinstance(x, Fn):
        return ai.call(st, fr, blk, m.I[x.inst], args, dty) if x.inst in m.I else None
    if isinstance(x, Agg) and isinstance(x.ty, int) and m.tk(x.ty) == 'closure':
        iid = m.types[x.ty].get('inst')
        if iid in m.I and 'body' in m.I[iid]:
            inst = m.I[iid]
            b = ai.body(inst)
            sty = b.locals[1]
            if m.tk(sty) == 'ref':
                if not isinstance(f, Ref):
                    base = ('h', fr.id, repr(blk), 'clo')
                    st.s[base] = f
                    f = Ref(base)
            else:
                f = x
            return ai.call(st, fr, blk, inst, [f] + list(args), dty)
    return None


ITOPS = 'all|any|position|find|find_map|for_each|fold|try_fold|try_for_each|rposition|rfind|rfold|nth|last|nth_back|advance_by'


def exits_of(ai, st, v, ty):
    """a value of a Try type -> [(state, carried value or None)]: None when it leaves early"""
    m = ai.mir
    nm = {'Option': 'Some', 'Result': 'Ok', 'ControlFlow': 'Continue'}.get((m.path(ty) or '').rsplit('::', 1)[-1])
    if nm is None:
        return None
    k = m.variant_named(ty, nm)
    if isinstance(v, Agg):
        return [(st, (v.f[0] if v.f else UNIT) if v.var == k else None)]
    out = []
    a, z = split(st, eq(mk('discr', (v,)), K(m.discr_of(ty, k))))
    if a:
        fs = m.fields(ty, k)
        out.append((a, ai.sym(ai.proj(v, ('f', k, 0), fs[0][1]), fs[0][1]) if fs else UNIT))
    if z:
        out.append((z, None))
    return out


def drive(ai, st, fr, blk, r, x, op, f, acc, dty):
    """run an iterator operation element by element over a sequence of known length; None when it cannot be done"""
    s, br = x.f
    n = st.val(s.len)
    if n is None or n > (16 if ai.merge else 300):
        return None
    m = ai.mir
    back = op[0] == 'r' and op != 'return'
    base = op[1:] if back else op
    out, work = [], [(st, acc)]

    def leave(t, k, v):
        if r is not None:
            a, z = (s.s, addk(s.e, -k)) if back else (addk(s.s, k), s.e)
            ai.write(t, r.base, r.path, Agg('It', 0, [SRef(s.c, a, z, s.loc, s.ety), br]))
        out.append((t, v))
    for k in range(n):
        nxt = []
        if len(work) + len(out) > 400:
            return None
        for t, acc in work:
            pos = addk(s.e, -1 - k) if back else addk(s.s, k)
            e = item(ai, t, s, pos, br)
            b = (blk, 'c', k)
            if base == 'find':
                ref = ('h', fr.id, repr(b), 'fi')
                t.s[ref] = e
                res = clo_call(ai, t, fr, b, f, [Ref(ref)], m.boolt)
            elif base in ('fold', 'try_fold'):
                rty = dty if base == 'fold' else dty
                res = clo_call(ai, t, fr, b, f, [acc, e], rty)
            else:
                res = clo_call(ai, t, fr, b, f, [e], m.boolt if base in ('all', 'any', 'position') else dty)
            if res is None:
                return None
            for u, v in res:
                if base in ('all', 'any', 'position', 'find'):
                    if not isinstance(v, T):
                        return None
                    y, z = split(u, v)
                    stop, go = (z, y) if base == 'all' else (y, z)
                    if stop:
                        leave(stop, k + 1, ZERO if base == 'all' else ONE if base == 'any' else some(ai, dty, (K(n - 1 - k) if back else K(k)) if base == 'position' else e))
                    if go:
                        nxt.append((go, acc))
                elif base == 'fold':
                    nxt.append((u, v))
                elif base == 'for_each':
                    nxt.append((u, acc))
                elif base == 'find_map':
                    q = exits_of(ai, u, v, dty)
                    if q is None:
                        return None
                    for w, c in q:
                        if c is None:
                            nxt.append((w, acc))
                        else:
                            leave(w, k + 1, some(ai, dty, c))
                else:
                    q = exits_of(ai, u, v, dty)
                    if q is None:
                        return None
                    for w, c in q:
                        if c is None:
                            leave(w, k + 1, v)
                        else:
                            nxt.append((w, c))
        work = nxt
    for t, acc in work:
        if base in ('all', 'any'):
            v = ONE if base == 'all' else ZERO
        elif base in ('position', 'find', 'find_map'):
            v = none(ai, dty)
        elif base == 'fold':
            v = acc
        elif base == 'for_each':
            v = UNIT
        else:
            nm = {'Option': 'Some', 'Result': 'Ok', 'ControlFlow': 'Continue'}[m.path(dty).rsplit('::', 1)[-1]]
            v = Agg(dty, m.variant_named(dty, nm), [acc])
        leave(t, n, v)
    return out


@model(r'<std::(slice::Iter(Mut)?|vec::IntoIter|str::Bytes|collections::vec_deque::Iter(Mut)?)<.*as std::iter::(DoubleEnded|ExactSize)?Iterator>::(' + ITOPS + r')$')
def m_allany(ai, st, fr, blk, inst, vals, dty):
    r, x = it_of(ai, st, vals[0])
    if x is None and isinstance(vals[0], Agg) and vals[0].ty == 'It':
        x = vals[0]
    if x is None:
        return None
    op = inst['path'].rsplit('::', 1)[1]
    if op in ('nth', 'nth_back', 'advance_by', 'last'):
        return m_nth(ai, st, r, x, op, vals, dty)
    fold = 'fold' in op
    got = drive(ai, st.copy(), fr, blk, r, x, 'for_each' if op == 'for_each' else op, vals[2] if fold else vals[1], vals[1] if fold else UNIT, dty)
    if got is not None:
        return got
    if op not in ('all', 'any', 'position', 'find', 'for_each', 'fold'):
        return None
    s, br = x.f
    i = ai.fresh(st, fr, blk, 'it', ai.mir.usize)
    a, z = split(st, ge0(addk(s.len, -1)))
    out = []

    def at(t, k):
        if r is not None:
            ai.write(t, r.base, r.path, Agg('It', 0, [SRef(s.c, k, s.e, s.loc, s.ety), br]))
        return t
    if a:
        st2 = a
        if st2.addlin(sub(i, s.s)) and st2.addlin(addk(sub(s.e, i), -1)):
            e = item(ai, st2, s, i, br)
            if op == 'fold':
                acc = ai.fresh(st2, fr, blk, 'acc', dty)
                res = clo_call(ai, st2, fr, (blk, 'c'), vals[2], [acc, e], dty)
            else:
                a0 = e
                if op == 'find':
                    base = ('h', fr.id, repr(blk), 'fi')
                    st2.s[base] = e
                    a0 = Ref(base)
                res = clo_call(ai, st2, fr, (blk, 'c'), vals[1], [a0], ai.mir.boolt)
            if res is None:
                return None
            for s2, v in res:
                ret = ai.fresh(s2, fr, blk, 'ret', dty)
                if op in ('all', 'any'):
                    # the outcome is decided by (some) element
                    s3 = at(s2.copy(), addk(i, 1))
                    out.append((s3, K(0 if op == 'all' else 1)))
                    out.append((at(s2, s.e), K(1 if op == 'all' else 0)))
                elif op == 'position':
                    s3 = s2.copy()
                    if isinstance(v, T) and s3.assume(v, 1):
                        out.append((at(s3, addk(i, 1)), some(ai, dty, sub(i, s.s))))
                    out.append((at(s2, s.e), none(ai, dty)))
                elif op == 'find':
                    s3 = s2.copy()
                    if isinstance(v, T) and s3.assume(v, 1):
                        out.append((at(s3, addk(i, 1)), some(ai, dty, e)))
                    out.append((at(s2, s.e), none(ai, dty)))
                else:
                    out.append((s2, ret))
    if z:
        if op in ('all', 'any'):
            out.append((z, K(1 if op == 'all' else 0)))
        elif op in ('position', 'find'):
            out.append((z, none(ai, dty)))
        elif op == 'fold':
            out.append((z, vals[1]))
        else:
            out.append((z, UNIT))
    return out


def m_nth(ai, st, r, x, op, vals, dty):
    s, br = x.f
    k = ai.int_(vals[1], None) if op != 'last' else None
    out = []
    if op == 'last':
        a, z = split(st, ge0(addk(s.len, -1)))
        if a:
            out.append((a, some(ai, dty, item(ai, a, s, addk(s.e, -1), br))))
        if z:
            out.append((z, none(ai, dty)))
        return out
    if op == 'advance_by' or k is None or r is None:
        return None
    a, z = split(st, ge0(addk(sub(s.len, k), -1)))
    for t, hit in ((a, True), (z, False)):
        if t is None:
            continue
        if not hit:
            ns, v = SRef(s.c, s.e, s.e, s.loc, s.ety), none(ai, dty)
        elif op == 'nth':
            v = some(ai, dty, item(ai, t, s, add(s.s, k), br))
            ns = SRef(s.c, addk(add(s.s, k), 1), s.e, s.loc, s.ety)
        else:
            p = addk(sub(s.e, k), -1)
            v = some(ai, dty, item(ai, t, s, p, br))
            ns = SRef(s.c, s.s, p, s.loc, s.ety)
        ai.write(t, r.base, r.path, Agg('It', 0, [ns, br]))
        out.append((t, v))
    return out


@model(r'as std::iter::Step>::forward_unchecked$|std::iter::Step>::forward$|::Step.*forward_unchecked')
def m_step(ai, st, fr, blk, inst, vals, dty):
    return [(st, add(ai.int_(vals[0], fr), ai.int_(vals[1], fr)))]


# ---------------------------------------------------------------- integers
def _tab(f):
    return mk('carr', (tuple(int(f(i)) for i in range(256)),))


CLS = {
    'is_ascii_digit': _tab(lambda c: 48 <= c <= 57), 'is_ascii_alphabetic': _tab(lambda c: 65 <= c <= 90 or 97 <= c <= 122),
    'is_ascii_alphanumeric': _tab(lambda c: 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57),
    'is_ascii_uppercase': _tab(lambda c: 65 <= c <= 90), 'is_ascii_lowercase': _tab(lambda c: 97 <= c <= 122),
    'is_ascii_hexdigit': _tab(lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102), 'is_ascii': _tab(lambda c: c < 128),
    'is_ascii_whitespace': _tab(lambda c: c in (32, 9, 10, 12, 13)), 'is_ascii_control': _tab(lambda c: c < 32 or c == 127),
    'is_ascii_graphic': _tab(lambda c: 33 <= c <= 126), 'is_ascii_punctuation': _tab(lambda c: 33 <= c <= 47 or 58 <= c <= 64 or 91 <= c <= 96 or 123 <= c <= 126),
    'to_ascii_lowercase': _tab(lambda c: c + 32 if 65 <= c <= 90 else c), 'to_ascii_uppercase': _tab(lambda c: c - 32 if 97 <= c <= 122 else c),
}


@model(r'<impl (u8|char)>::(is_ascii\w*|to_ascii_(upper|lower)case)$')
def m_ascii(ai, st, fr, blk, inst, vals, dty):
    nm = inst['path'].rsplit('::', 1)[1]
    tb = CLS.get(nm)
    v = vals[0]
    if isinstance(v, Ref):
        v = ai.read(st, v.base, v.path)
    elif isinstance(v, T) and v.ty is not None and ai.mir.tk(v.ty) == 'ref':
        v = ai.base_value(st, ('d', v))
    v = ai.int_(v, fr)
    if tb is None:
        return None
    if isk(v):
        n = v.args[0]
        return [(st, K(tb.args[0][n]) if n < 256 else (v if nm.startswith('to') else ZERO))]
    a, z = split(st, le(v, K(255)))
    out = []
    if a:
        out.append((a, mk('tbl', (tb, v))))
    if z:
        out.append((z, v if nm.startswith('to') else ZERO))
    return out


@model(r'<impl u8>::eq_ignore_ascii_case$')
def m_eqic(ai, st, fr, blk, inst, vals, dty):
    l = CLS['to_ascii_lowercase']
    v = []
    for x in vals:
        if isinstance(x, Ref):
            x = ai.read(st, x.base, x.path)
        elif isinstance(x, T) and x.ty is not None and ai.mir.tk(x.ty) == 'ref':
            x = ai.base_value(st, ('d', x))
        v.append(K(l.args[0][x.args[0]]) if isk(x) else mk('tbl', (l, x)))
    return [(st, eq(v[0], v[1]))]


INT = re.compile(r'<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>::(\w+)$')


@model(r'<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|isize)>::(checked|saturating|wrapping|overflowing)_(add|sub|mul)$')
def m_chk(ai, st, fr, blk, inst, vals, dty):
    g = INT.search(inst['path'])
    ty = ai.body_ty = None
    kind, op = g.group(2).split('_')
    a, b = ai.int_(vals[0], fr), ai.int_(vals[1], fr)
    r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else ai.binop(st, fr, 'Mul', a, b, None)
    from mir import BITS
    n = BITS[g.group(1).capitalize() if g.group(1) not in ('usize', 'isize') else g.group(1).capitalize()]
    sg = g.group(1)[0] == 'i'
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, mask(n))
    cl, ch = ge0(addk(r, -lo)), ge0(addk(neg(r), hi))
    out = []
    x, z = split(st, cl)
    if z:
        if kind == 'checked':
            out.append((z, none(ai, dty)))
        elif kind == 'saturating':
            out.append((z, K(lo)))
        elif kind == 'wrapping':
            out.append((z, mk('wrap', (r, n, sg))))
        else:
            out.append((z, Agg(dty, 0, [mk('wrap', (r, n, sg)), ONE])))
    if x:
        y, z = split(x, ch)
        if z:
            if kind == 'checked':
                out.append((z, none(ai, dty)))
            elif kind == 'saturating':
                out.append((z, K(hi)))
            elif kind == 'wrapping':
                out.append((z, mk('wrap', (r, n, sg))))
            else:
                out.append((z, Agg(dty, 0, [mk('wrap', (r, n, sg)), ONE])))
        if y:
            out.append((y, some(ai, dty, r) if kind == 'checked' else r if kind != 'overflowing' else Agg(dty, 0, [r, ZERO])))
    return out


@model(r'<std::num::Wrapping<(u8|u16|u32|usize)> as std::ops::(Sub|Add)>::(sub|add)$')
def m_wrapping(ai, st, fr, blk, inst, vals, dty):
    g = re.search(r'Wrapping<(\w+)> as std::ops::(Sub|Add)', inst['path'])
    from mir import BITS
    n = BITS[g.group(1).capitalize()]
    a, b = [v.f[0] if isinstance(v, Agg) else ai.proj(v, ('f', None, 0), None) for v in vals]
    r = add(a, b) if g.group(2) == 'Add' else sub(a, b)
    d = st.dom(r)
    if not (d and d[0][0] >= 0 and d[-1][1] <= mask(n)):
        r = mk('wrap', (r, n, False))
        if isk(r.args[0]):
            r = K(wrap(r.args[0].args[0], n, False))
    return [(st, Agg(dty, 0, [r]))]


@model(r'<impl (u8|u16|u32|u64|u128|usize)>::to_be_bytes$')
def m_tobe(ai, st, fr, blk, inst, vals, dty):
    n = ai.mir.types[dty]['len']
    return [(st, Agg(dty, 0, be_bytes(ai, st, ai.int_(vals[0], fr), n)))]


@model(r'<impl (u8|u16|u32|u64|u128|usize)>::to_(le|ne)_bytes$')
def m_tole(ai, st, fr, blk, inst, vals, dty):
    n = ai.mir.types[dty]['len']
    return [(st, Agg(dty, 0, be_bytes(ai, st, ai.int_(vals[0], fr), n)[::-1]))]


@model(r'<impl (u8|u16|u32|u64|u128|usize)>::from_(be|le|ne)_bytes$')
def m_frombe(ai, st, fr, blk, inst, vals, dty):
    v = vals[0]
    g = re.search(r'<impl (\w+)>::from_(\w\w)', inst['path'])
    from mir import BITS
    n = BITS[g.group(1).capitalize()] // 8
    bs = []
    for i in range(n):
        bs.append(ai.elem(st, v, K(i), ai.mir.u8) if not isinstance(v, SRef) else ai.elem(st, v.c, addk(v.s, i), ai.mir.u8))
    if g.group(2) != 'be':
        bs = bs[::-1]
    t = ZERO
    for i, b in enumerate(bs):
        t = add(t, scale(b, 1 << (8 * (n - 1 - i))))
    return [(st, t)]


@model(r'std::convert::num::<impl std::convert::TryFrom<\w+> for \w+>::try_from$|std::convert::num::ptr_try_from_impls::<impl std::convert::TryFrom<\w+> for \w+>::try_from$')
def m_tryfrom(ai, st, fr, blk, inst, vals, dty):
    r = ai.mir.trange(oktype(ai, dty))
    v = ai.int_(vals[0], fr)
    x, z = split(st, ge0(addk(v, -r[0][0])))
    out = []
    if z:
        out.append((z, err(ai, dty, None, z, fr, blk)))
    if x:
        y, z = split(x, ge0(addk(neg(v), r[-1][1])))
        if y:
            out.append((y, ok(ai, dty, v)))
        if z:
            out.append((z, err(ai, dty, None, z, fr, blk)))
    return out


@model(r'std::convert::num::<impl std::convert::From<\w+> for \w+>::from$')
def m_numfrom(ai, st, fr, blk, inst, vals, dty):
    if isinstance(vals[0], T):
        return [(st, vals[0])]
    return None


@model(r'std::cmp::(Ord::)?(min|max)$|std::cmp::Ord>?::(min|max)$|std::cmp::impls::<impl std::cmp::Ord for \w+>::(min|max)$')
def m_minmax(ai, st, fr, blk, inst, vals, dty):
    if ai.mir.bits(dty) is None:
        return None
    a, b = ai.int_(vals[0], fr), ai.int_(vals[1], fr)
    x, z = split(st, le(a, b))
    mn = inst['path'].endswith('min')
    out = []
    if x:
        out.append((x, a if mn else b))
    if z:
        out.append((z, b if mn else a))
    return out


@model(r'<impl (usize|isize|u\d+|i\d+)>::from_str_radix$|<impl std::str::FromStr for (usize|isize|u\d+|i\d+)>::from_str$|^<(usize|isize|u\d+|i\d+) as std::str::FromStr>::from_str$')
def m_parse(ai, st, fr, blk, inst, vals, dty):
    s = slc(ai, st, vals[0])
    n = st.val(s.len) if s is not None else None
    radix = st.val(vals[1]) if len(vals) > 1 else 10
    oty = oktype(ai, dty)
    bs = ai.mir.bits(oty)
    if n is not None and n <= 24 and radix in (10, 16) and bs:
        lo, hi = (-(1 << bs[0] - 1), (1 << bs[0] - 1) - 1) if bs[1] else (0, (1 << bs[0]) - 1)
        es = [ai.elem(st, s.c, addk(s.s, i), ai.mir.u8) for i in range(n)]
        if all(isinstance(e, T) for e in es):
            r = parse_digits(ai, st, es, radix, lo, hi, bs[1])
            if r is not None:
                return [(t, ok(ai, dty, v) if v is not None else err(ai, dty, None, t, fr, blk)) for t, v in r]
    a, b = st.copy(), st
    v = ai.fresh(a, fr, blk, 'parsed', oktype(ai, dty))
    return [(a, ok(ai, dty, v)), (b, err(ai, dty, None, b, fr, blk))]


DIGITS = {10: D.rng(48, 57), 16: D.of(list(range(48, 58)) + list(range(65, 71)) + list(range(97, 103)))}
HEXTAB = tuple(int(chr(i), 16) if chr(i) in '0123456789abcdefABCDEF' else 0 for i in range(256))


def parse_digits(ai, st, es, radix, lo, hi, signed):
    """[(state, value term or None)] of Rust's integer parsing of the bytes es"""
    unknown = sum(1 for e in es if st.val(e) is None)
    if unknown > 6:
        return None
    out = []
    if not es:
        return [(st, None)]
    work = [(st, es, 1)]
    if len(es) > 1:
        work = []
        cur = st
        for ch, sg in ((43, 1), (45, -1)):
            if sg < 0 and not signed:
                continue
            w = cur.copy()
            if w.refine(es[0], D.const(ch)):
                work.append((w, es[1:], sg))
            cur = cur.copy()
            if not cur.refine(es[0], D.diff(D.U8, D.const(ch))):
                cur = None
                break
        if cur is not None:
            work.append((cur, es, 1))
    for t, ds, sg in work:
        v = ZERO
        for e in ds:
            w = t.copy()
            if w.refine(e, D.diff(D.U8, DIGITS[radix])):
                out.append((w, None))
            if not t.refine(e, DIGITS[radix]):
                break
            d = t.val(e)
            dig = K(HEXTAB[d]) if d is not None else addk(e, -48) if radix == 10 else mk('tbl', (mk('carr', (HEXTAB,)), e))
            v = add(scale(v, radix), scale(dig, sg))
        else:
            big = ge0(addk(neg(v), hi)) if sg > 0 else ge0(addk(v, -lo))
            a, z = split(t, big)
            if a:
                open_ = [e for e in ds if a.val(e) is None]
                if len(open_) == 1 and ai.unroll_buf:
                    # one unknown digit: a path per value, so that lengths computed from it are known
                    for x in D.it(a.dom(open_[0])):
                        w = a.copy()
                        if w.refine(open_[0], D.const(x)):
                            out.append((w, v if isk(v) else K(w.val(v)) if w.val(v) is not None else v))
                else:
                    out.append((a, v))
            if z:
                out.append((z, None))
    return out


# ---------------------------------------------------------------- equality of strings / slices
@model(r'<(std::string::String|std::vec::Vec<.*>|algorithm::buf::Binary.*) as std::cmp::PartialEq.*>::(eq|ne)$|::<impl std::cmp::PartialEq(<.*>)? for (\[T\]|str|&\'?\w* ?str|\[T; N\]|&.*)>::(eq|ne)$|'
       r'std::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$|std::slice::cmp::|std::vec::partial_eq::.*::(eq|ne)$|std::string::<impl std::cmp::PartialEq.*>::(eq|ne)$|std::array::equality::|::<impl str>::eq_ignore_ascii_case$|<impl \[u8\]>::eq_ignore_ascii_case$')
def m_seqeq(ai, st, fr, blk, inst, vals, dty):
    a, b = slc(ai, st, vals[0]), slc(ai, st, vals[1])
    if a is None or b is None or 'body' in inst and 'std::cmp::impls' in inst['path']:
        return None
    ne = inst['path'].endswith('::ne')
    ic = 'ignore' in inst['path']
    ca, cb = const_bytes(a), const_bytes(b)
    if ca is not None and cb is not None:
        r = (ca.lower() == cb.lower()) if ic else ca == cb
        return [(st, K(int(r != ne)))]
    if a == b:
        return [(st, K(int(not ne)))]
    x, z = split(st, eq(a.len, b.len))
    out = []
    if x:
        t = x.copy()
        same = True
        if ca is not None:
            a, ca, b, cb = b, cb, a, ca
        if cb is not None and len(cb) <= 64:
            low = CLS['to_ascii_lowercase']
            for i, ch in enumerate(cb):
                e = ai.elem(t, a.c, addk(a.s, i), ai.mir.u8)
                if not isinstance(e, T):
                    continue
                if ic:
                    e2 = mk('tbl', (low, e)) if not isk(e) else K(low.args[0][e.args[0]])
                    c = eq(e2, K(low.args[0][ch]))
                else:
                    c = eq(e, K(ch))
                if not t.assume(c, 1):
                    same = False
                    break
        if same:
            out.append((t, K(int(not ne))))
        diffs = None
        if cb is not None and len(cb) <= 64:
            diffs = []
            for i, ch in enumerate(cb):
                e = ai.elem(x, a.c, addk(a.s, i), ai.mir.u8)
                if not isinstance(e, T):
                    diffs = None
                    break
                if ic:
                    e = mk('tbl', (low, e)) if not isk(e) else K(low.args[0][e.args[0]])
                    ch = low.args[0][ch]
                if x.val(e) is None:
                    diffs.append(eq(e, K(ch)))
                elif x.val(e) != ch:
                    diffs = 'ne'
                    break
        if diffs == 'ne':
            out.append((x, K(int(ne))))
        elif diffs is not None and len(diffs) <= 4:
            y = x
            for c in diffs:
                w = y.copy()
                if w.assume(c, 0):
                    out.append((w, K(int(ne))))
                if not y.assume(c, 1):
                    break
        elif cb is not None and len(cb) == 0 and st.val(eq(a.len, ZERO)) == 1:
            pass
        else:
            if cb is not None and len(cb) == 1 and not ic:
                e = ai.elem(x, a.c, a.s, ai.mir.u8)
                if isinstance(e, T) and x.assume(eq(e, K(cb[0])), 0):
                    out.append((x, K(int(ne))))
            elif not (cb is not None and len(cb) == 0):
                out.append((x, K(int(ne))))
    if z:
        out.append((z, K(int(ne))))
    return out


def const_bytes(s):
    if isinstance(s.c, T) and s.c.op == 'bytes' and isk(s.s) and isk(s.e):
        return s.c.args[0][s.s.args[0]:s.e.args[0]]
    if isinstance(s.c, Agg) and isk(s.s) and isk(s.e) and all(isk(x) and 0 <= x.args[0] < 256 for x in s.c.f):
        return bytes(x.args[0] for x in s.c.f)[s.s.args[0]:s.e.args[0]]
    return None


@model(r'::<impl (\[T\]|str)>::(starts_with|ends_with)$|::<impl str>::contains$')
def m_startswith(ai, st, fr, blk, inst, vals, dty):
    a = slc(ai, st, vals[0])
    b = slc(ai, st, vals[1]) if isinstance(vals[1], (SRef, Ref)) or (isinstance(vals[1], T) and vals[1].ty is not None and ai.mir.tk(vals[1].ty) == 'ref') else None
    if a is None:
        return None
    if b is None:
        return None
    cb = const_bytes(b)
    if cb is not None and len(cb) <= 8 and not inst['path'].endswith('contains'):
        out = []
        x, z = split(st, le(b.len, a.len))
        if z:
            out.append((z, ZERO))
        if x:
            at = a.s if inst['path'].endswith('starts_with') else addk(a.e, -len(cb))
            es = [ai.elem(x, a.c, addk(at, i), ai.mir.u8) for i in range(len(cb))]
            if all(isinstance(e, T) for e in es):
                for e, ch in zip(es, cb):
                    w = x.copy()
                    if w.assume(eq(e, K(ch)), 0):
                        out.append((w, ZERO))
                    if not x.assume(eq(e, K(ch)), 1):
                        break
                else:
                    out.append((x, ONE))
                return out
            out.append((x.copy(), ONE))
            out.append((x, ZERO))
        return out
    if cb is not None and inst['path'].endswith('contains') and 'str>' in inst['name'].split('::contains')[0]:
        r = find_at(ai, st, a, cb)
        if r is not None:
            return [(s, ZERO if j is None else ONE) for s, j in r]
    t = st.copy()
    out = []
    if t.assume(le(b.len, a.len), 1):
        out.append((t, ONE))
    out.append((st, ZERO))
    return out


@model(r'::<impl \[T\]>::contains$')
def m_slice_contains(ai, st, fr, blk, inst, vals, dty):
    a = slc(ai, st, vals[0])
    _, e = deref_all(ai, st, vals[1])
    n = st.val(a.len) if a is not None else None
    if n is None or n > 64 or not isinstance(e, T):
        return [(st, ai.fresh(st, fr, blk, 'ret', dty))]
    es = [ai.elem(st, a.c, addk(a.s, i), ai.mir.u8) for i in range(n)]
    if all(isinstance(x, T) and st.val(x) is not None for x in es):
        ks = {st.val(x) for x in es}
        x, z = split(st, mk('tbl', (mk('carr', (tuple(int(i in ks) for i in range(256)),)), e))) if st.val(e) is None else (None, None)
        if st.val(e) is not None:
            return [(st, K(int(st.val(e) in ks)))]
        return [(s, v) for s, v in ((x, ONE), (z, ZERO)) if s]
    out, cur = [], st
    for x in es:
        h, cur = split(cur, eq(x, e))
        if h:
            out.append((h, ONE))
        if not cur:
            return out
    return out + [(cur, ZERO)]


# ---------------------------------------------------------------- splitting strings at a constant pattern
def pattern(ai, st, v):
    if isinstance(v, T) and isk(v) and 0 <= v.args[0] < 128:
        return bytes([v.args[0]])
    if isinstance(v, (Ref, SRef)):
        s = slc(ai, st, v)
        k = const_bytes(s) if s is not None else None
        return k if k else None
    return None


def find_at(ai, st, s, pat, rev=False):
    """[(state, offset or None)] of the first (last) occurrence of pat in s; None when the length is not known"""
    n = st.val(s.len)
    if n is None or n > 80:
        return None
    out = []
    cur = st
    for j in (range(n - len(pat), -1, -1) if rev else range(n - len(pat) + 1)):
        es = [ai.elem(cur, s.c, addk(s.s, j + i), ai.mir.u8) for i in range(len(pat))]
        if not all(isinstance(e, T) for e in es):
            return None
        hit = cur.copy()
        if all(hit.assume(eq(e, K(ch)), 1) for e, ch in zip(es, pat)):
            out.append((hit, j))
        else:
            hit = None
        if len(pat) == 1:
            if not cur.assume(eq(es[0], K(pat[0])), 0):
                return out
        elif hit is not None and all(cur.val(e) is not None for e in es):
            return out
    out.append((cur, None))
    return out


def subs(s, a, b):
    return SRef(s.c, a, b, s.loc, s.ety)


def pieces(ai, st, s, pat, limit):
    done, work = [], [(st, s, ())]
    while work:
        t, r, acc = work.pop()
        if limit is not None and len(acc) + 1 >= limit:
            done.append((t, acc + (r,)))
            continue
        f = find_at(ai, t, r, pat)
        if f is None or len(done) + len(work) > 300:
            return None
        for u, j in f:
            if j is None:
                done.append((u, acc + (r,)))
            else:
                work.append((u, subs(r, addk(r.s, j + len(pat)), r.e), acc + (subs(r, r.s, addk(r.s, j)),)))
    return done


@model(r'::<impl str>::(split|splitn)$')
def m_split(ai, st, fr, blk, inst, vals, dty):
    s = slc(ai, st, vals[0])
    lim = None
    if inst['path'].endswith('splitn'):
        lim = st.val(vals[1])
    pat = pattern(ai, st, vals[-1])
    if s is None:
        return None
    return [(st, Agg('split', 0, [s, mk('bytes', (pat,)) if pat else ZERO, K(lim) if lim is not None else K(-1), ZERO]))]


@model(r'std::vec::Vec<.*> as std::iter::FromIterator<.*>>::from_iter$|std::iter::Iterator::collect$')
def m_from_iter(ai, st, fr, blk, inst, vals, dty):
    x = vals[0]
    if not (isinstance(x, Agg) and x.ty == 'split' and ai.mir.path(dty).endswith('Vec')):
        return None
    s, pt, lim, d = x.f
    pat = pt.args[0] if pt.op == 'bytes' else None
    limit = lim.args[0] if lim.args[0] >= 0 else None
    ety = ai.mir.types[dty].get('args') or [None]
    r = pieces(ai, st, s, pat, limit) if pat and d is ZERO and limit != 0 else None
    if r is not None:
        return [(t, Vec(Agg('seq', 0, acc), ZERO, K(len(acc)), (), ety[0])) for t, acc in r]
    n = ai.fresh(st, fr, blk, 'pieces', ai.mir.usize, count=True)
    st.refine(n, ((1 if d is ZERO and limit != 0 else 0, limit if limit is not None else 1 << 62),))
    return [(st, Vec(ai.fresh(st, fr, blk, 'piecesc', None), ZERO, n, (), ety[0]))]


@model(r'<std::str::(Split|SplitN)<.*as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$')
def m_splitnext(ai, st, fr, blk, inst, vals, dty):
    r, x = deref_all(ai, st, vals[0])
    if r is None or not (isinstance(x, Agg) and x.ty == 'split') or inst['path'].endswith('back'):
        return None
    s, pt, lim, d = x.f
    pat = pt.args[0] if pt.op == 'bytes' else None
    if d is ONE or lim is ZERO:
        return [(st, none(ai, dty))]
    if pat is None or not isk(lim):
        return None
    if lim.args[0] == 1:
        f = [(st, None)]
    else:
        f = find_at(ai, st, s, pat)
    if f is None:
        return None
    nl = K(lim.args[0] - 1) if lim.args[0] > 0 else lim
    out = []
    for u, j in f:
        if j is None:
            ai.write(u, r.base, r.path, Agg('split', 0, [subs(s, s.e, s.e), pt, lim, ONE]))
            out.append((u, some(ai, dty, s)))
        else:
            ai.write(u, r.base, r.path, Agg('split', 0, [subs(s, addk(s.s, j + len(pat)), s.e), pt, nl, ZERO]))
            out.append((u, some(ai, dty, subs(s, s.s, addk(s.s, j)))))
    return out


@model(r'::<impl str>::(split_once|rsplit_once|find|rfind|strip_prefix|strip_suffix)$')
def m_splitonce(ai, st, fr, blk, inst, vals, dty):
    s = slc(ai, st, vals[0])
    pat = pattern(ai, st, vals[1])
    if s is None or pat is None:
        return None
    nm = inst['path'].rsplit('::', 1)[1]
    if nm.startswith('strip'):
        return None
    f = find_at(ai, st, s, pat, rev=nm[0] == 'r')
    if f is None:
        return None
    out = []
    for u, j in f:
        if j is None:
            out.append((u, none(ai, dty)))
        elif nm.endswith('find'):
            out.append((u, some(ai, dty, K(j))))
        else:
            pt = ai.mir.fields(dty, ai.mir.variant_named(dty, 'Some'))[0][1]
            out.append((u, some(ai, dty, Agg(pt, 0, [subs(s, s.s, addk(s.s, j)), subs(s, addk(s.s, j + len(pat)), s.e)]))))
    return out


# ---------------------------------------------------------------- containers / shared state
@model(r'std::boxed::Box::<T>::new$|std::sync::Arc::<T>::new$|std::rc::Rc::<T>::new$')
def m_box(ai, st, fr, blk, inst, vals, dty):
    b = ('h', fr.id, repr(blk), 'box')
    st.s[b] = vals[0]
    return [(st, Ref(b))]


@model(r'<std::sync::Arc<T, A> as std::ops::Deref>::deref$')
def m_arcd(ai, st, fr, blk, inst, vals, dty):
    v = vals[0]
    x = ai.read(st, v.base, v.path) if isinstance(v, Ref) else ai.base_value(st, ('d', v)) if isinstance(v, T) else None
    if isinstance(x, Ref):
        return [(st, x)]
    if isinstance(x, T):
        return [(st, Ref(('arc', x, ai.mir.to(dty))))]
    return None


@model(r'std::sync::RwLock::<T>::new$|std::sync::Mutex::<T>::new$')
def m_rwnew(ai, st, fr, blk, inst, vals, dty):
    return [(st, Agg('RwLock', 0, [vals[0]]))]


@model(r'std::sync::(RwLock|Mutex)::<T>::(read|write|lock)$')
def m_rwread(ai, st, fr, blk, inst, vals, dty):
    v = vals[0]
    if isinstance(v, T):
        v = Ref(('d', v))
    if not isinstance(v, Ref):
        return None
    # assumption: locks are not poisoned (a poisoned lock needs an earlier panic)
    gty = oktype(ai, dty)
    inner = None
    a = ai.mir.types[gty].get('args') or []
    inner = next((x for x in a if isinstance(x, int)), None)
    return [(st, ok(ai, dty, Agg('Guard', 0, [Ref(v.base, v.path + (('f', None, 0, inner),))])))]


@model(r'<std::sync::(RwLockReadGuard|RwLockWriteGuard|MutexGuard)<.*> as std::ops::Deref(Mut)?>::deref')
def m_guard(ai, st, fr, blk, inst, vals, dty):
    v = vals[0]
    x = ai.read(st, v.base, v.path) if isinstance(v, Ref) else None
    if isinstance(x, Agg) and x.ty == 'Guard':
        return [(st, x.f[0])]
    return None


@model(r'lazy_static::lazy::Lazy::<T>::get$|std::sync::(LazyLock|OnceLock)::<.*>::(force|get_or_init)$')
def m_lazy(ai, st, fr, blk, inst, vals, dty):
    """value of a lazily initialised static: its initialiser analysed once, on its own"""
    f = vals[1] if len(vals) > 1 else None
    key = f.inst if isinstance(f, Fn) else None
    if key is None:
        return [(st, var(('lazy', repr(vals[0])), dty))]
    base = ('lz', key)
    if key not in ai.lazy:
        ai.lazy[key] = None
        from state import St
        s0 = St(ai.mir)
        saved = ai.events, ai.unroll
        ai.events = []
        try:
            snap = ai.snap_sites()
            res = clo_call(ai, s0, None, ('lazy', key), f, [], ai.mir.to(dty)) if False else ai.run(ai.mir.I[key], [], s0, None, ('lazy', key))
            if not ai.lazy_sites:
                ai.restore_sites(snap)
            if len(res) == 1:
                ai.lazy[key] = res[0][1]
                for k, v in res[0][0].s.items():
                    if isinstance(k, tuple) and k[0] in ('h', 'hm', 'alloc'):
                        ai.lazy_cells[k] = v
        finally:
            ai.events, ai.unroll = saved
    v = ai.lazy[key]
    if v is None or isinstance(v, T):
        return [(st, var(('lazy', key), dty))]
    return [(st, Ref(base))]


# ---- hash maps
class CMap:
    """map with known keys: constant key -> cell holding the value; kv: constant key -> cell holding the key"""
    __slots__ = ('d', 'kv')

    def __init__(self, d, kv):
        self.d, self.kv = d, kv

    def __eq__(self, o):
        return self is o or (isinstance(o, CMap) and self.d == o.d)

    def __hash__(self):
        return hash(len(self.d))

    def __repr__(self):
        return f'CMap({len(self.d)})'


def ckey(ai, st, v, depth=0):
    """constant key of a value, or None"""
    if depth > 6:
        return None
    if isinstance(v, T):
        if v.op == 'k':
            return v.args[0]
        if v.op in ('bytes', 'carr'):
            return bytes(v.args[0])
        return None
    if isinstance(v, Agg) and isinstance(v.ty, int):
        fs = [ckey(ai, st, x, depth + 1) for x in v.f]
        return None if any(x is None for x in fs) else ('A', v.var, tuple(fs))
    if isinstance(v, (SRef, Vec)):
        a, b = (v.s, v.e) if isinstance(v, SRef) else (v.p, v.n)
        if isinstance(v, Vec) and v.log:
            return ckey_log(ai, v)
        if isk(a) and isk(b):
            if a.args[0] == b.args[0]:
                return b''
            if isinstance(v.c, T) and v.c.op in ('bytes', 'carr'):
                return bytes(v.c.args[0][a.args[0]:b.args[0]])
        return None
    if isinstance(v, Ref):
        r, x = deref_all(ai, st, v)
        return ckey(ai, st, x, depth + 1) if not isinstance(x, Ref) else None
    return None


def ckey_log(ai, v):
    return None


def hmap(ai, st, v):
    """-> (Ref, map value)"""
    r, x = deref_all(ai, st, v)
    return r, x


def cmap(x):
    return x.f[0] if isinstance(x, Agg) and x.ty == 'HMap' and isinstance(x.f[0], CMap) else None


def mapterm(x):
    if isinstance(x, T):
        return x
    if isinstance(x, Agg) and x.ty == 'HMap' and isinstance(x.f[0], T):
        return x.f[0]
    return None


def keyterm(ai, st, v, depth=0):
    """stable name of a key value"""
    if isinstance(v, Ref):
        r, v = deref_all(ai, st, v)
    return repr(v)


def hm_cell(ai, st, v):
    ai.ncell += 1
    b = ('hm', ai.ncell)
    st.s[b] = v
    return b


@model(r'HashMap::<K, V(, S|, std::hash::RandomState|, S, A)?>::(new|with_capacity|with_hasher)$|HashMap<K, V, S.*> as std::default::Default>::default$|HashMap::<K, V>::new')
def m_hmnew(ai, st, fr, blk, inst, vals, dty):
    return [(st, Agg('HMap', 0, [CMap({}, None)]))]


def hm_forget(ai, st, fr, blk, r):
    t = ai.fresh(st, fr, blk, 'hmap', None)
    ai.write(st, r.base, r.path, Agg('HMap', 0, [t]))


@model(r'HashMap::<K, V, S.*>::insert$')
def m_hminsert(ai, st, fr, blk, inst, vals, dty):
    r, x = hmap(ai, st, vals[0])
    if r is None:
        return None
    cm, k = cmap(x), ckey(ai, st, vals[1])
    ai.event('mapinsert', st, fr, blk, r, vals[1], vals[2])
    if cm is None or k is None:
        hm_forget(ai, st, fr, blk, r)
        return [(st, ai.fresh(st, fr, blk, 'ret', dty))]
    hit = hm_lookup(ai, st, fr, blk, x, vals[1], inst)
    if len(hit) != 1 or hit[0][1] == '?':
        hm_forget(ai, st, fr, blk, r)
        return [(st, ai.fresh(st, fr, blk, 'ret', dty))]
    st, old = hit[0]
    d, kv = dict(cm.d), dict(cm.kv or {})
    if old is not None:
        k = next(q for q, c in d.items() if c == old)
    else:
        kv[k] = hm_cell(ai, st, vals[1])
    d[k] = hm_cell(ai, st, vals[2])
    ai.write(st, r.base, r.path, Agg('HMap', 0, [CMap(d, kv)]))
    if old is None:
        return [(st, none(ai, dty))]
    return [(st, some(ai, dty, ai.base_value(st, old)))]


def key_eq(ai, inst):
    """the crate's own equality of the map's key type"""
    t = next((a for a in inst.get('targs') or [] if isinstance(a, int)), None) if inst is not None else None
    if t is None or ai.mir.tk(t) != 'adt':
        return None
    c = getattr(ai.mir, '_keyeq', None)
    if c is None:
        c = ai.mir._keyeq = {}
    if t not in c:
        p = ai.mir.path(t)
        c[t] = next((i for i in ai.mir.I.values() if i['local'] and 'body' in i
                     and re.fullmatch(r'<(\w+::)?' + re.escape(p) + r' as std::cmp::PartialEq>::eq', i['name'])), None)
    return c[t]


def hm_lookup(ai, st, fr, blk, x, kv, inst=None):
    """-> list of (state, cell base | None (absent) | '?' (present, value unknown))"""
    cm, k = cmap(x), ckey(ai, st, kv)
    if cm is not None:
        if k is not None and k in cm.d or not cm.d:
            return [(st, cm.d.get(k))]
        f = key_eq(ai, inst)
        if f is None and k is not None:
            return [(st, None)]
        if f is not None and cm.kv and len(cm.kv) == len(cm.d) and len(cm.d) <= 200:
            key = kv
            if not isinstance(kv, (Ref, SRef)):
                base = ('h', fr.id, repr(blk), 'key')
                st.s[base] = kv
                key = Ref(base)
            memo = ai.__dict__.setdefault('keymemo', {})
            out, cur = [], [st]
            for q, c in cm.d.items():
                nxt = []
                for s in cur:
                    if k is not None and (f['id'], q, k) in memo:
                        res = [(s, memo[f['id'], q, k])]
                    else:
                        res = ai.call(s, fr, (blk, 'keq'), f, [Ref(cm.kv[q]), key], ai.mir.boolt)
                        if k is not None and len(res) == 1 and isk(res[0][1]):
                            memo[f['id'], q, k] = res[0][1]
                    for u, v in res:
                        a, b = split(u, eq(v, ONE))
                        if a:
                            out.append((a, c))
                        if b:
                            nxt.append(b)
                cur = nxt
            return out + [(s, None) for s in cur]
        t = mk('uf', ('has', repr(sorted(cm.d.values())), keyterm(ai, st, kv)), ai.mir.boolt)
    else:
        m = mapterm(x)
        t = mk('uf', ('has', m.id if m is not None else repr(x), keyterm(ai, st, kv)), ai.mir.boolt)
    a, b = split(st, eq(t, ONE))
    return ([(a, '?')] if a else []) + ([(b, None)] if b else [])


@model(r'HashMap::<K, V, S.*>::contains_key$')
def m_hmhas(ai, st, fr, blk, inst, vals, dty):
    r, x = hmap(ai, st, vals[0])
    return [(s, ZERO if c is None else ONE) for s, c in hm_lookup(ai, st, fr, blk, x, vals[1], inst)]


def hm_ref(ai, s, fr, blk, x, c, rty, kv=None):
    if c != '?':
        return Ref(c)
    cm = cmap(x)
    v = ai.fresh(s, fr, blk, 'hmv', rty)
    if cm is not None and isinstance(v, T):
        vs = [ai.base_value(s, b) for b in cm.d.values()]
        to = ai.mir.to(rty) if rty is not None else None
        if vs and all(isk(y) for y in vs) and to is not None:
            base = ('h', fr.id, repr(blk), 'hmv')
            e = ai.fresh(s, fr, blk, 'hme', to)
            s.refine(e, D.of([y.args[0] for y in vs]))
            s.s[base] = e
            return Ref(base)
    return v


@model(r'HashMap::<K, V, S.*>::(get|get_mut)$')
def m_hmget(ai, st, fr, blk, inst, vals, dty):
    r, x = hmap(ai, st, vals[0])
    out = []
    for s, c in hm_lookup(ai, st, fr, blk, x, vals[1], inst):
        out.append((s, none(ai, dty) if c is None else some(ai, dty, hm_ref(ai, s, fr, blk, x, c, oktype(ai, dty, 'Some')))))
    return out


@model(r'std::collections::HashMap<.*> as std::ops::Index<')
def m_hmidx(ai, st, fr, blk, inst, vals, dty):
    r, x = hmap(ai, st, vals[0])
    out = []
    bad = False
    for s, c in hm_lookup(ai, st, fr, blk, x, vals[1], inst):
        if c is None:
            bad = True
        else:
            out.append((s, hm_ref(ai, s, fr, blk, x, c, dty)))
    ai.site(fr, 'map index', not bad, st, 'HashMap[] on a missing key')
    return out


@model(r'HashMap::<K, V, S.*>::entry$')
def m_hmentry(ai, st, fr, blk, inst, vals, dty):
    r, x = hmap(ai, st, vals[0])
    hit = hm_lookup(ai, st, fr, blk, x, vals[1], inst) if r is not None and cmap(x) is not None and ckey(ai, st, vals[1]) is not None else []
    if len(hit) != 1 or hit[0][1] == '?':
        if r is not None:
            hm_forget(ai, st, fr, blk, r)
        return [(st, ai.fresh(st, fr, blk, 'ret', dty))]
    st, c = hit[0]
    k = next((q for q, y in cmap(x).d.items() if y == c), None) if c is not None else ckey(ai, st, vals[1])
    return [(st, Agg('HEntry', 0, [r, vals[1], k]))]


@model(r'Entry::<.*>::(and_modify|or_insert|or_default|or_insert_with)$')
def m_hmentry2(ai, st, fr, blk, inst, vals, dty):
    e = vals[0]
    if not (isinstance(e, Agg) and e.ty == 'HEntry'):
        for v in vals[1:]:
            if isinstance(v, Agg):
                for x in v.f:
                    if isinstance(x, Ref):
                        ai.havoc_arg(st, fr, blk, x, None, 'hment')
        return [(st, ai.fresh(st, fr, blk, 'ret', dty))]
    r, k, kk = e.f
    cm = cmap(ai.read(st, r.base, r.path))
    c = cm.d.get(kk)
    n = inst['path'].split('::')[-1]
    if n == 'and_modify':
        if c is None:
            return [(st, e)]
        # values are shared between map versions only along one path: copy before writing
        b = hm_cell(ai, st, ai.base_value(st, c))
        d = dict(cm.d)
        d[kk] = b
        ai.write(st, r.base, r.path, Agg('HMap', 0, [CMap(d, cm.kv)]))
        res = clo_call(ai, st, fr, (blk, 'am'), vals[1], [Ref(b)], None)
        return None if res is None else [(s, e) for s, _ in res]
    if c is None:
        if n != 'or_insert':
            hm_forget(ai, st, fr, blk, r)
            return [(st, ai.fresh(st, fr, blk, 'ret', dty))]
        c = hm_cell(ai, st, vals[1])
        d, kv = dict(cm.d), dict(cm.kv or {})
        d[kk] = c
        kv[kk] = hm_cell(ai, st, k)
        ai.write(st, r.base, r.path, Agg('HMap', 0, [CMap(d, kv)]))
    return [(st, Ref(c))]


@model(r'HashMap::<K, V, S.*>::(remove|remove_entry|clear)$')
def m_hmremove(ai, st, fr, blk, inst, vals, dty):
    r, x = hmap(ai, st, vals[0])
    if r is None:
        return None
    ai.event('mapremove', st, fr, blk, r, x, vals[1] if len(vals) > 1 else None)
    if inst['path'].endswith('clear'):
        ai.write(st, r.base, r.path, Agg('HMap', 0, [CMap({}, None)]))
        return [(st, UNIT)]
    hm_forget(ai, st, fr, blk, r)
    return [(st, ai.fresh(st, fr, blk, 'ret', dty))]


@model(r'HashMap::<K, V, S.*>::(len|is_empty)$')
def m_hmlen(ai, st, fr, blk, inst, vals, dty):
    r, x = hmap(ai, st, vals[0])
    cm = cmap(x)
    if cm is not None:
        n = len(cm.d)
        return [(st, K(n if inst['path'].endswith('len') else int(n == 0)))]
    return [(st, ai.fresh(st, fr, blk, 'ret', dty))]


SAFE_PANICS = re.compile(r'HashMap|Vec::<T|String::|VecDeque::<T|::to_string|format|Hash|RandomState|Lazy|to_(upper|lower)case|repeat|join|concat')


@model(r'^(core|std)::panicking::|std::rt::|begin_panic|panic_fmt|option::(unwrap|expect)_failed|result::unwrap_failed|panic_display|assert_failed|unreachable_display|slice_.*fail|panic_nounwind')
def m_panic(ai, st, fr, blk, inst, vals, dty):
    ai.site(fr, 'panic ' + inst['path'].split('::')[-1], False, st, 'reachable panic')
    return []


@model(r'std::hint::unreachable_unchecked|precondition_check$|std::intrinsics::(abort|unreachable)')
def m_unreach(ai, st, fr, blk, inst, vals, dty):
    return [] if 'precondition' not in inst['path'] else [(st, UNIT)]


@model(r'^std::mem::(size_of|align_of)|^std::intrinsics::(size_of|min_align_of)')
def m_size(ai, st, fr, blk, inst, vals, dty):
    for a in inst.get('targs') or []:
        if isinstance(a, dict):
            a = a.get('ty')
        if isinstance(a, int) and ai.mir.size(a) is not None:
            return [(st, K(ai.mir.size(a)))]
    return None


@model(r'std::num::NonZero::<T>::(new|get)$')
def m_nonzero(ai, st, fr, blk, inst, vals, dty):
    v = vals[0]
    if inst['path'].endswith('get'):
        if isinstance(v, Agg):
            x = v
            while isinstance(x, Agg) and x.f:
                x = x.f[0]
            return [(st, x)] if isinstance(x, T) else None
        if isinstance(v, T):
            t = mk('uf', ('nz', v), dty)
            st.refine(t, D.diff(ai.mir.trange(dty), D.const(0)))
            return [(st, t)]
        return None
    x = ai.int_(v, fr)
    a, z = split(st, eq(x, ZERO))
    out = []
    if a:
        out.append((a, none(ai, dty)))
    if z:
        out.append((z, some(ai, dty, Agg(oktype(ai, dty, 'Some'), 0, [x]))))
    return out


@model(r'std::ops::(Fn|FnMut|FnOnce)>?::call(_mut|_once)?$')
def m_fncall(ai, st, fr, blk, inst, vals, dty):
    args = list(vals[1].f) if isinstance(vals[1], Agg) else [vals[1]]
    return clo_call(ai, st, fr, (blk, 'fc'), vals[0], args, dty)


# ---------------------------------------------------------------- formatting
@model(r'fmt::rt::Argument.*::new_\w+$')
def m_fmtarg(ai, st, fr, blk, inst, vals, dty):
    kind = inst['path'].rsplit('new_', 1)[1]
    tys = [t for t in inst.get('targs') or [] if isinstance(t, int)]
    return [(st, Agg('fmtarg', None, [mk('bytes', (kind.encode(),)), vals[0], K(tys[0]) if tys else K(-1)]))]


@model(r'std::fmt::Arguments.*::(new|from_str|from_str_nonconst|new_const)$')
def m_fmtargs(ai, st, fr, blk, inst, vals, dty):
    t = slc(ai, st, vals[0]) if isinstance(vals[0], (SRef, Ref)) else None
    if t is None:
        return None
    k = const_bytes(SRef(t.c, ZERO if not isk(t.s) else t.s, t.e)) if True else None
    if k is None:
        return None
    if inst['path'].endswith('::new'):
        a = vals[1]
        _, a = deref_all(ai, st, a)
        items = None
        if isinstance(a, SRef) and isinstance(a.c, Agg):
            items = a.c.f
        elif isinstance(a, Agg):
            items = a.f
        if items is None or not all(isinstance(x, Agg) and x.ty == 'fmtarg' for x in items):
            return None
        return [(st, Agg('fmtargs', None, [mk('bytes', (k,))] + list(items)))]
    n = len(k)
    return [(st, Agg('fmtargs', None, [mk('bytes', (b'\x80' + n.to_bytes(2, 'little') + k + b'\0',))]))]


def fmt_pieces(t):
    """template bytes -> list of literal bytes / (arg index, plain?)"""
    out, i, nxt = [], 0, 0
    while i < len(t):
        n = t[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(t[i:i + n])
            i += n
        elif n == 0x80:
            k = int.from_bytes(t[i:i + 2], 'little')
            out.append(t[i + 2:i + 2 + k])
            i += 2 + k
        elif n == 0xC0:
            out.append((nxt, True))
            nxt += 1
        elif n > 0xC0:
            if n & 1:
                i += 4
            if n & 2:
                i += 2
            if n & 4:
                i += 2
            if n & 8:
                nxt = int.from_bytes(t[i:i + 2], 'little')
                i += 2
            out.append((nxt, not n & 7))
            nxt += 1
        else:
            return None
    return None


def fmt_num(ai, st, kind, v):
    """text of an integer as a slice"""
    w = st.val(v)
    if w is not None:
        txt = {'display': '%d', 'lower_hex': '%x', 'upper_hex': '%X'}.get(kind)
        if txt is not None and w >= 0 or kind == 'display':
            k = (txt % w).encode()
            return SRef(mk('bytes', (k,)), ZERO, K(len(k)), None, ai.mir.u8)
    c = mk('fmtnum', (kind, v))
    n = mk('len', (c,))
    st.refine(n, ((1, 40),))
    return SRef(c, ZERO, n, None, ai.mir.u8)


def fmt_put(ai, st, out, s):
    r, b = buf(ai, st, out)
    if b is None or r is None:
        return False
    if s.src is not None and not (ai.exact_buf and isinstance(b.c, Agg)):
        setv(ai, st, r, Vec(b.c, b.p, add(b.n, s.len), b.log + tuple(s.src), b.ety))
    else:
        log(ai, st, r, b, ('s', s), s.len)
    return True


def fmt_lost(ai, st, fr, blk, out):
    r, b = buf(ai, st, out)
    if b is not None and r is not None:
        v = fresh_vec(ai, st, fr, blk, 'fmtlost')
        setv(ai, st, r, Vec(b.c, b.p, add(b.n, v.n), b.log + (('s', SRef(v.c, ZERO, v.n, None, ai.mir.u8)),), b.ety))


def fmt_one(ai, st, fr, blk, kind, x, ty, out):
    """append the rendering of the value x refers to; -> [state]"""
    m = ai.mir
    while m.tk(ty) == 'ref':
        ty = m.to(ty)
        if m.tk(ty) not in ('str', 'slice'):
            if isinstance(x, Ref):
                y = ai.read(st, x.base, x.path)
                if isinstance(y, (Ref, SRef)) or (isinstance(y, T) and y.ty is not None and m.tk(y.ty) == 'ref'):
                    x = y
    _, v = deref_all(ai, st, x)
    name = m.name(ty)
    if kind in ('display', 'lower_hex', 'upper_hex'):
        if isinstance(v, T) and m.bits(ty) is not None and v.op not in ('bytes',):
            if fmt_put(ai, st, out, fmt_num(ai, st, kind, ai.int_(v, fr))):
                return [st]
        if kind == 'display':
            s = None
            if name in ('str', 'std::string::String') or isinstance(v, (SRef, Vec)):
                s = slc(ai, st, x)
            elif re.match(r"std::borrow::Cow<.*str>", name):
                vv = v
                if isinstance(vv, Agg) and vv.f and isinstance(vv.f[0], (SRef, Vec)):
                    y = vv.f[0]
                    s = y if isinstance(y, SRef) else SRef(y.c, y.p, y.n, None, y.ety, logsrc(y))
            if s is not None and fmt_put(ai, st, out, s):
                return [st]
            f = [i for i in m.I.values() if i['local'] and 'body' in i and i['name'] in (f'<{name} as std::fmt::Display>::fmt', f'<webparse::{name} as std::fmt::Display>::fmt')]
            if len(f) == 1 and isinstance(x, Ref):
                res = ai.call(st, fr, (blk, 'fmt'), f[0], [x, out], f[0]['body']['locals'][0])
                if res is not None:
                    return [s for s, _ in res]
    fmt_lost(ai, st, fr, blk, out)
    return [st]


def fmt_render(ai, st, fr, blk, a, out):
    """append formatted arguments to the buffer `out` refers to; -> [state]"""
    ps = fmt_pieces(a.f[0].args[0]) if isinstance(a, Agg) and a.ty == 'fmtargs' else None
    if ps is None:
        fmt_lost(ai, st, fr, blk, out)
        return [st]
    sts = [st]
    for i, p in enumerate(ps):
        nxt = []
        for s in sts:
            if isinstance(p, bytes):
                fmt_put(ai, s, out, SRef(mk('bytes', (p,)), ZERO, K(len(p)), None, ai.mir.u8))
                nxt.append(s)
            else:
                k, plain = p
                arg = a.f[1 + k] if 1 + k < len(a.f) else None
                if arg is None or not plain:
                    fmt_lost(ai, s, fr, (blk, i), out)
                    nxt.append(s)
                else:
                    nxt += fmt_one(ai, s, fr, (blk, i), arg.f[0].args[0].decode(), arg.f[1], arg.f[2].args[0], out)
        sts = nxt
    return sts


def fmt_cell(ai, st, fr, blk):
    base = ('h', fr.id, repr(blk), 'fmtbuf')
    st.s[base] = Vec(mk('bytes', (b'',)), ZERO, ZERO, (), ai.mir.u8)
    return base


@model(r'std::fmt::Formatter.*::(write_str|write_fmt|write_char)$|std::fmt::Write>?::write_(str|fmt|char)$|<(str|std::string::String) as std::fmt::Display>::fmt$|'
       r'std::fmt::num::.*Display for .*>::fmt$|<.* as std::fmt::(Display|LowerHex)>::fmt$')
def m_fmt(ai, st, fr, blk, inst, vals, dty):
    ai.event('fmt', st, fr, blk, vals[0], None, vals[1])
    p = inst['path']
    okv = lambda s: ok(ai, dty, UNIT) if ai.mir.is_enum(dty) else ai.fresh(s, fr, blk, 'ret', dty)
    if p.endswith('write_str'):
        s = slc(ai, st, vals[1])
        if s is not None and fmt_put(ai, st, vals[0], s):
            return [(st, okv(st))]
    elif p.endswith('write_fmt'):
        return [(s, okv(s)) for s in fmt_render(ai, st, fr, blk, vals[1], vals[0])]
    elif p.endswith('::fmt') and 'body' not in inst:
        ty = inst['targs'][0] if inst.get('targs') and isinstance(inst['targs'][0], int) else None
        if ty is None:
            x = vals[0]
            _, v = deref_all(ai, st, x)
            s = slc(ai, st, x) if isinstance(v, (SRef, Vec)) else None
            if s is not None and fmt_put(ai, st, vals[1], s):
                return [(st, okv(st))]
            if isinstance(v, T) and v.ty is not None and ai.mir.bits(v.ty) is not None and fmt_put(ai, st, vals[1], fmt_num(ai, st, 'display', v)):
                return [(st, okv(st))]
            fmt_lost(ai, st, fr, blk, vals[1])
            return [(st, okv(st))]
        kind = 'lower_hex' if 'LowerHex' in p else 'display'
        return [(s, okv(s)) for s in fmt_one(ai, st, fr, blk, kind, vals[0], ty, vals[1])]
    fmt_lost(ai, st, fr, blk, vals[0])
    return [(st, okv(st))]


@model(r'std::fmt::format$')
def m_format(ai, st, fr, blk, inst, vals, dty):
    if not (isinstance(vals[0], Agg) and vals[0].ty == 'fmtargs'):
        return [(st, fresh_vec(ai, st, fr, blk, 'str'))]
    base = fmt_cell(ai, st, fr, blk)
    return [(s, s.s[base]) for s in fmt_render(ai, st, fr, blk, vals[0], Ref(base))]


@model(r'std::hint::must_use$')
def m_mustuse(ai, st, fr, blk, inst, vals, dty):
    return [(st, vals[0])]


@model(r'as std::string::ToString>::to_string$|::<impl str>::(to_uppercase|to_lowercase|to_ascii_uppercase|to_ascii_lowercase|replace|repeat)$')
def m_tostring(ai, st, fr, blk, inst, vals, dty):
    p = inst['path']
    s = slc(ai, st, vals[0]) if vals and re.search(r'^<(str|std::string::String|&.*str) as |case$', inst['name']) else None
    if s is None and 'ToString' in p and isinstance(vals[0], Ref):
        _, v = deref_all(ai, st, vals[0])
        if isinstance(v, Agg) and isinstance(v.ty, int) and re.match(r'std::borrow::Cow<.*str>', ai.mir.name(v.ty)) and v.f and isinstance(v.f[0], (SRef, Vec)):
            y = v.f[0]
            s = y if isinstance(y, SRef) else SRef(y.c, y.p, y.n, None, y.ety, logsrc(y))
        elif isinstance(v, T) and v.ty is not None and ai.mir.bits(v.ty) is not None:
            s = fmt_num(ai, st, 'display', v)
        elif isinstance(v, (Agg, T)) and isinstance(v.ty, int):
            base = fmt_cell(ai, st, fr, blk)
            return [(x, x.s[base]) for x in fmt_one(ai, st, fr, blk, 'display', vals[0], v.ty, Ref(base))]
    if s is not None and 'ToString' in p:
        return [(st, vec_of_slice(s))]
    if s is not None and p.endswith('case'):
        k = const_bytes(s)
        if k is not None and all(x < 128 for x in k):
            k = k.upper() if 'upper' in p else k.lower()
            return [(st, vec_of_slice(SRef(mk('bytes', (k,)), ZERO, K(len(k)))))]
    if inst['path'].endswith('case') and 'ascii' in inst['path']:
        s = slc(ai, st, vals[0])
        if s is not None:
            v = fresh_vec(ai, st, fr, blk, 'case')
            return [(st, Vec(v.c, ZERO, s.len, (), ai.mir.u8))]
    return [(st, fresh_vec(ai, st, fr, blk, 'str'))]


@model(r'^log::')
def m_log(ai, st, fr, blk, inst, vals, dty):
    return [(st, ai.fresh(st, fr, blk, 'ret', dty))]


@model(r'std::convert::AsRef.*as_ref$|std::borrow::Borrow.*borrow$|std::ops::Deref>::deref$')
def m_asref(ai, st, fr, blk, inst, vals, dty):
    if 'body' in inst:
        return None
    s = slc(ai, st, vals[0]) if ai.mir.tk(dty) == 'ref' and ai.mir.tk(ai.mir.to(dty)) in ('slice', 'str') else None
    return [(st, s)] if s is not None else None


@model(r'std::io::Error::new|std::alloc|impl std::io::Error>::new$')
def m_ioerr(ai, st, fr, blk, inst, vals, dty):
    return [(st, ai.fresh(st, fr, blk, 'ret', dty))]
