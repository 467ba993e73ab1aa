"""Header names, values and the header map."""
from core import *
from spec import *
from text import *
from msg import *
from ser import *
from reg import prop


def lower(b):
    return bytes(x + 32 if 65 <= x <= 90 else x for x in b)


def hash_hooks(m):
    """calls into a Hasher are logged in the hasher's place"""
    import models
    hooks = {}

    def logged(width):
        def h(ai, st, fr, blk, inst, vals, dty):
            x, state = (vals[1], vals[0]) if 'Hasher>::write' in inst['name'] else (vals[0], vals[1])
            r, buf = models.buf(ai, st, state)
            if buf is None:
                return None
            _, v = models.deref_all(ai, st, x)
            s = models.slc(ai, st, x) if not isinstance(v, T) or v.op == 'bytes' else None
            if s is not None:
                models.log(ai, st, r, buf, ('s', s), s.len)
            elif isinstance(v, T):
                models.log(ai, st, r, buf, ('u', 1, v) if st.dom(v) and st.dom(v)[-1][1] < 256 else ('u', 8, v), K(width or 8))
            else:
                return None
            return [(st, UNIT)]
        return h
    for i in m.I.values():
        n = i['name']
        if 'IdHasher' not in n:
            continue
        if 'Hasher>::write' in n:
            w = re.search(r'write_u(\d+)', n)
            hooks[i['id']] = logged(int(w[1]) // 8 if w else None)
        elif 'Hash' in n and n.split('::<webparse')[0].endswith('::hash') and not i['local'] and 'body' not in i:
            hooks[i['id']] = logged(None)
    return hooks


@prop('C08')
def c08(m, rep):
    """Abstract summaries of header-name comparison and hashing: with an arbitrary byte at each position against every byte, two
    names are equal exactly when they agree up to the case of ASCII letters, in every comparison offered; the byte sequence a
    name feeds its hasher is the same for names that are equal and for both ways a name is stored."""
    t = type_named(m, r'name::HeaderName$')
    vt = type_named(m, r'value::HeaderValue$')
    b = var(('b', 0), m.u8)
    fs = [('name=name', one(m, r'<webparse::http::name::HeaderName as std::cmp::PartialEq>::eq$'), 'n', 'n'),
          ('name=bytes', one(m, r'HeaderName as std::cmp::PartialEq<&.*\[u8\]>>::eq$'), 'n', 's'),
          ('name=str', one(m, r'HeaderName as std::cmp::PartialEq<&.*str>>::eq$'), 'n', 's'),
          ('bytes=name', one(m, r'name::<impl std::cmp::PartialEq<webparse::http::name::HeaderName> for &.*\[u8\]>::eq$'), 's', 'n')]

    def eqs(key, f, ka, kb, pa, pb, stand, fold=lower, ty=t):
        def setup(ai, st):
            for nm, k, p, sd in (('a', ka, pa, stand & 1), ('b', kb, pb, stand & 2)):
                if k in 'nv':
                    st.s[(nm,)] = name_val(m, ty, p, bool(sd))
                else:
                    st.s[(nm,)] = mkslice(m, p)
        opts = dict(EXACT)
        args = [Ref(('a',)) if ka in 'nvs' else None, Ref(('b',)) if kb in 'nvs' else None]
        if ka == 'S':
            args[0] = mkslice(m, pa)
        if kb == 'S':
            args[1] = mkslice(m, pb)
        ai, ex = run(m, rep, f, args, setup=setup, **opts)
        n = 0
        syms = {x: set(range(256)) for x in syms_of(pa, pb)}
        for s, v, env in each(ai, ex, syms):
            n += 1
            rep.count('inputs')
            x, y = fill(pa, env), fill(pb, env)
            w = fold(x) == fold(y)
            rep.ob(key, isinstance(v, T) and s.val(v) == int(w), f'{x!r} and {y!r}: {v!r}, specified {w}')
        rep.ob(f'{key}/returns', n == 256 ** len(syms), f'{pa!r} {pb!r}: {n} inputs return')
    for key, f, ka, kb in fs:
        for c in range(128):
            eqs(key, f, ka, kb, [b, b'x'], [bytes([c]), b'x'], 0)
        for pa, pb in (([b'Host', b], [b'hOST']), ([b'a'], [b'A', b]), ([b], [b'']), ([b''], [b'']), ([b'q', b, b'Z'], [b'Q-z']), ([b'Cookie', b], [b'cookies'])):
            for sd in range(4):
                eqs(key, f, ka, kb, pa, pb, sd)
    # values compare by their bytes
    same = lambda x: x
    fv = [('value=value', one(m, r'<webparse::http::value::HeaderValue as std::cmp::PartialEq>::eq$'), 'v', 'v'),
          ('value=str', one(m, r'HeaderValue as std::cmp::PartialEq<&.*str>>::eq$'), 'v', 's'),
          ('value=bytes', one(m, r'HeaderValue as std::cmp::PartialEq<\[u8\]>>::eq$'), 'v', 'S'),
          ('bytes=value', one(m, r'value::<impl std::cmp::PartialEq<webparse::http::value::HeaderValue> for \[u8\]>::eq$'), 'S', 'v'),
          ('str=value', one(m, r'value::<impl std::cmp::PartialEq<webparse::http::value::HeaderValue> for &.*str>::eq$'), 's', 'v')]
    for key, f, ka, kb in fv:
        for pa, pb in (([b'a', b], [b'aB']), ([b'a'], [b'a', b]), ([b], [b'']), ([b''], [b'']), ([b, b'c'], [b'\xffc']), ([b'x', b, b'z'], [b'x\x00z'])):
            for sd in range(4):
                eqs(key, f, ka, kb, pa, pb, sd, same, vt)
    # hashing
    hooks = hash_hooks(m)
    for key, f, ty, fold in (('name hash', one(m, r'name::HeaderName as std::hash::Hash>::hash::'), t, lower), ('value hash', one(m, r'value::HeaderValue as std::hash::Hash>::hash::'), vt, same)):
        for parts in ([b], [b, b'x'], [b'A-', b, b'z'], [b'']):
            logs = {}
            for sd in (False, True):
                def setup(ai, st):
                    st.s[('a',)] = name_val(m, ty, parts, sd)
                    st.s[('out',)] = Vec(Agg(None, 0, []), ZERO, ZERO, (), m.u8)
                ai, ex = run(m, rep, f, [Ref(('a',)), Ref(('out',))], setup=setup, hooks=hooks, **EXACT)
                for s, v, env in each(ai, ex, {x: set(range(256)) for x in syms_of(parts)}):
                    o = const_bytes_of(ai, s, ai.read(s, ('out',), ()))
                    x = fill(parts, env)
                    if not rep.ob(f'{key}/determined', o is not None, f'{x!r}: what is hashed is not determined'):
                        continue
                    logs.setdefault(x, set()).add(o)
            rep.ob(f'{key}/returns', len(logs) == 256 ** len(syms_of(parts)), f'{len(logs)} values hash')
            classes = {}
            for x, o in logs.items():
                classes.setdefault(fold(x), set()).update(o)
            for x, o in classes.items():
                rep.ob(f'{key}/agrees', len(o) == 1, f'equal {"names" if fold is lower else "values"} {x!r} feed the hasher different bytes {sorted(o)[:3]}')
            rep.count('hashed', len(logs))
    # what was stored is what comes back
    for nm, rx in (('name bytes', r'name::HeaderName::as_bytes$'), ('value bytes', r'value::HeaderValue::as_bytes$')):
        f = one(m, rx)
        ty = t if 'name' in nm else vt
        for parts in ([b], [b'a', b, b'Z'], [b'']):
            for sd in (False, True):
                def check(ai, s, v, env):
                    rep.ob(nm, const_bytes_of(ai, s, v) == fill(parts, env), f'{fill(parts, env)!r}: {v!r}')
                write(m, rep, nm, f, name_val(m, ty, parts, sd), {x: set(range(256)) for x in syms_of(parts)}, check, True)
    rep.floor('inputs', 100000)


# ------------------------------------------------------------------ numbers in header values
DIG = set(b'0123456789')


def ref_num(b, signed):
    d = b[1:] if signed and b[:1] == b'-' else b
    if not d or any(c not in DIG for c in d):
        raise Bad()
    v = int(b)
    if not (-(1 << 63) <= v < 1 << 63 if signed else 0 <= v < 1 << 64):
        raise Bad()
    if v == -(1 << 63):
        raise Any()
    return v


NUMS = [b'', b'0', b'7', b'-', b'-0', b'-15', b'007', b'18446744073709551615', b'18446744073709551616', b'9223372036854775807', b'9223372036854775808',
        b'-9223372036854775807', b'-9223372036854775808', b'-9223372036854775809', b'99999999999999999999', b'1 ', b' 1', b'1.0', b'0x1']


@prop('C34')
def c34(m, rep):
    """Abstract summaries of the numeric conversions of header values on digit templates at and around the limits with an
    arbitrary byte in place of or before each byte: a value converts exactly when it is a decimal number in range and then to
    that number; numbers are written as their decimal digits."""
    b = var(('b', 0), m.u8)
    vt = type_named(m, r'value::HeaderValue$')
    for nm, rx, signed in (('usize', r'<&.*HeaderValue as std::convert::TryInto<usize>>::try_into$', False), ('isize', r'<&.*HeaderValue as std::convert::TryInto<isize>>::try_into$', True)):
        f = one(m, rx)

        def conv(parts, stand):
            def check(ai, s, v, env):
                x = fill(parts, env)
                k, r = verdict(lambda y: ref_num(y, signed), x)
                if k == 'any' or stand and x[:1] == b'+':
                    return
                if k == 'ok':
                    rep.ob(f'{nm}/value', is_ok(m, v) and num_of(ai, s, inner(v)) == r, f'{x!r} becomes {v!r}')
                else:
                    rep.ob(f'{nm}/refused', is_err(m, v), f'{x!r} becomes {v!r}')
            write(m, rep, nm, f, name_val(m, vt, parts, stand), {x: set(range(128)) if stand else set(range(256)) for x in syms_of(parts)}, check, True)
        for t in NUMS:
            for stand in (False, True):
                conv([t], stand)
                for i in range(len(t)):
                    conv([t[:i], b, t[i + 1:]], stand)
                    if i < 3:
                        conv([t[:i], b, t[i:]], stand)
                conv([t, b], stand)
    # the body length of a header map
    g = one(m, r'header::HeaderMap::get_body_len$')
    for parts in ([b'12'], [b'1', b], [b], [b''], [b'9223372036854775808'], [b'4294967296'], [b'x']):
        for name in (b'Content-Length', b'content-length', b'CONTENT-LENGTH', b'Content-Lengt', b'Content_Length'):
            def check(ai, s, v, env):
                x = fill(parts, env)
                k, r = verdict(lambda y: ref_num(y, True), x)
                w = r if k == 'ok' and name.lower() == b'content-length' else 0
                rep.ob('body length', num_of(ai, s, v) == w, f'{name!r}: {x!r} gives {v!r}, specified {w}')
            write(m, rep, 'body length', g, headermap(m, [(b'a', b'3'), ([name], parts), (b'X', b'5')]), {x: set(range(256)) for x in syms_of(parts)}, check, True)
    # written as digits
    for nm, rx, vals in (('from usize', r'HeaderValue as std::convert::TryFrom<usize>>::try_from$', (0, 7, 10, 99, 100, 65536, (1 << 64) - 1)),
                         ('from isize', r'HeaderValue as std::convert::TryFrom<isize>>::try_from$', (0, 9, -1, -10, 1000, (1 << 63) - 1, -(1 << 63)))):
        f = one(m, rx)
        for x in vals:
            ai, ex = run(m, rep, f, [K(x)], **EXACT)
            rep.ob(f'{nm}/returns', bool(ex), 'no path returns')
            for s, v in ex:
                rep.ob(f'{nm}/digits', is_ok(m, v) and name_of(ai, s, inner(v)) == str(x).encode(), f'{x} becomes {v!r}')
                rep.count('inputs')
        ai, ex = run(m, rep, f, merge=False)
        a = arg(m, f, 0)
        for s, v in ex:
            c = deref(ai, s, inner(deref(ai, s, inner(v)))) if is_ok(m, v) else None
            rep.ob(f'{nm}/number', isinstance(c, Vec) and [x[1].c for x in c.log if x[0] == 's'] == [mk('fmtnum', ('display', a))] or isinstance(c, Vec) and c.c == mk('fmtnum', ('display', a)),
                   f'an arbitrary number becomes {v!r}')
    rep.floor('inputs', 30000)


# ------------------------------------------------------------------ header map
def fold_eq(a, b):
    return lower(a) == lower(b)


def ref_map(op, hs, name, value=None):
    """(headers after, result)"""
    hs = list(hs)
    k = next((i for i, (n, _) in enumerate(hs) if fold_eq(n, name)), None)
    if op == 'insert':
        if k is None:
            hs.append((name, value))
        else:
            hs[k] = (hs[k][0], value)
        return hs, None
    if op == 'push':
        if k is None:
            hs.append((name, value))
        else:
            hs[k] = (hs[k][0], hs[k][1] + b';' + value)
        return hs, None
    if op == 'remove':
        return hs[:k] + hs[k + 1:] if k is not None else hs, hs[k][1] if k is not None else None
    if op == 'contains':
        return hs, k is not None
    if op in ('get', 'str'):
        return hs, hs[k][1] if k is not None else None
    if op == 'is_contains':
        return hs, k is not None and value in hs[k][1]
    if op == 'is_equal':
        return hs, k is not None and value == hs[k][1]


@prop('C31')
def c31(m, rep):
    """Abstract summaries of every header-map operation on maps of up to four fields with an arbitrary byte in the name asked
    for, against a reference list with case-insensitive names: result, fields left, their order and their spelling."""
    b = var(('b', 0), m.u8)
    H = r'header::HeaderMap::'
    maps = [[], [(b'ab', b'1')], [(b'Xb', b'0'), (b'aB', b'22'), (b'ac', b''), (b'zz', b'3')], [(b'a', b'1'), (b'abc', b'2'), (b'AB', b'x3;y')]]
    q = [b, b'B']

    def do(key, f, hs, args, op, value, rd, qn=q, muts=True, kinds=None):
        for stand in (False, True):
            def setup(ai, st):
                st.s[('me',)] = headermap(m, hs, stand)
                for i, a in enumerate(args(ai, st)):
                    st.s[('arg', i)] = a
            ai = None
            cells = []

            def setup2(ai, st):
                st.s[('me',)] = headermap(m, hs, stand)
                for i, a in enumerate(args(st)):
                    cells[i:i + 1] = [a]
            st0 = {}
            pre = args(st0)

            def setup3(ai, st):
                st.s[('me',)] = headermap(m, hs, stand)
                for k, v in st0.items():
                    st.s[k] = v
                for x in syms_of(qn):
                    st.refine(x, ((0, 127),))
            ai, ex = run(m, rep, f, [Ref(('me',))] + pre, setup=setup3, **EXACT)
            n = 0
            for s, v, env in each(ai, ex, {x: ASCII for x in syms_of(qn)}):
                n += 1
                rep.count('inputs')
                name = fill(qn, env)
                after, res = ref_map(op, hs, name, value)
                got = headers_of(ai, s, ai.read(s, ('me',), ()))
                rep.ob(f'{key}/fields', got == after, f'{op} {name!r} {value!r} on {hs!r} leaves {got!r}, specified {after!r}')
                if rd:
                    r = rd(ai, s, v)
                    rep.ob(f'{key}/result', r == res, f'{op} {name!r} {value!r} on {hs!r} gives {r!r}, specified {res!r}')
            rep.ob(f'{key}/returns', n == 128 ** len(syms_of(qn)), f'{n} inputs return')
    strarg = lambda st0: [mkslice(m, q)]

    def refarg(st0):
        st0[('q',)] = mkslice(m, q)
        return [Ref(('q',))]

    def namearg(st0):
        st0[('q',)] = name_val(m, type_named(m, r'name::HeaderName$'), q)
        return [Ref(('q',))]

    def bufarg(st0):
        st0[('q',)] = mkstr(m, q)
        return [Ref(('q',))]
    bval = lambda ai, s, v: None if not isinstance(s.val(v) if isinstance(v, T) else None, int) else bool(s.val(v))
    ov = lambda ai, s, v: opt(ai, s, v, lambda x: name_of(ai, s, x))
    ot = lambda ai, s, v: opt(ai, s, v, lambda x: text_of(ai, s, x))
    for hs in maps:
        for ty, mkarg in (('&str', refarg), ('webparse::http::name::HeaderName', namearg), ('algorithm::buf::BinaryMut', bufarg)):
            for op, fn, rd in (('contains', 'contains', bval), ('get', 'get_option_value', ov), ('str', 'get_str_value', ot), ('remove', 'remove', ov)):
                fs = [i for i in m.find(H + fn + '::<' + ty + '>$')]
                for f in fs[:1]:
                    do(f'{fn}', f, hs, mkarg, op, None, rd)
            for op, val in (('is_contains', b'2'), ('is_contains', b''), ('is_equal', b'22'), ('is_equal', b'1'), ('is_contains', b'x3;'), ('is_equal', b'x3;')):
                for f in m.find(H + op + '::<' + ty + '>$')[:1]:
                    do(op, f, hs, lambda st0: mkarg(st0) + [mkslice(m, val)], op, val, bval)
        for op in ('insert', 'push'):
            for val in (b'new', b''):
                do(op, one(m, H + op + r'::<&str, &str>$'), hs, lambda st0: [mkslice(m, q), mkslice(m, val)], op, val, None)
        do('insert', one(m, H + r'insert::<&str, std::string::String>$'), hs, lambda st0: [mkslice(m, q), mkstr(m, b'v')], 'insert', b'v', None)
    for op, fn in (('contains', 'contains'), ('get', 'get_option_value'), ('str', 'get_str_value'), ('remove', 'remove')):
        if not m.find(H + fn + '::<'):
            raise Missing(H + fn)
    # shortcuts
    for nm, header in (('get_referer', b'referer'), ('get_user_agent', b'user-agent'), ('get_cookie', b'cookie'), ('get_host', b'host')):
        f = one(m, H + nm + '$')
        for name in (header, header.upper(), header.title(), header[1:], header + b'x'):
            hs = [(b'x', b'y'), (name, b'v 1;w'), (b'q', b'')]

            def check(ai, s, v, env):
                w = b'v 1;w' if fold_eq(name, header) else None
                rep.ob(nm, ot(ai, s, v) == w, f'{hs!r} gives {ot(ai, s, v)!r}, specified {w!r}')
            write(m, rep, nm, f, headermap(m, hs), {}, check, True)
    f = one(m, H + 'get_host$')
    for hs, w in (([(b':authority', b'h.x')], b'h.x'), ([(b':authority', b'h.x:80')], b'h.x'), ([(b':authority', b'a:1'), (b'HOST', b'b:2')], b'b:2'), ([(b':authorit', b'h')], None)):
        write(m, rep, 'get_host', f, headermap(m, hs), {}, lambda ai, s, v, env: rep.ob('get_host', ot(ai, s, v) == w, f'{hs!r} gives {ot(ai, s, v)!r}, specified {w!r}'), True)
    write(m, rep, 'get_host', f, headermap(m, [(b':authority', [b'h', b, b'9'])]), {b: ASCII},
          lambda ai, s, v, env: rep.ob('get_host', ot(ai, s, v) == bytes([104, env[b], 57]).split(b':')[0], f'h{chr(env[b])!r}9 gives {ot(ai, s, v)!r}'), True)
    # counting and emptying
    for hs in maps:
        write(m, rep, 'len', one(m, H + 'len$'), headermap(m, hs), {}, lambda ai, s, v, env: rep.ob('len', num_of(ai, s, v) == len(hs), f'{hs!r}: {v!r}'), True)
        write(m, rep, 'is_empty', one(m, H + 'is_empty$'), headermap(m, hs), {}, lambda ai, s, v, env: rep.ob('is_empty', num_of(ai, s, v) == int(not hs), f'{hs!r}: {v!r}'), True)
        write(m, rep, 'clear', one(m, H + 'clear$'), headermap(m, hs), {}, lambda ai, s, v, env: rep.ob('clear', headers_of(ai, s, ai.read(s, ('me',), ())) == [], f'{hs!r} is not empty after clear'), True)
    # tokens in Connection, Transfer-Encoding and Upgrade
    for nm, header, tok in (('is_keep_alive', b'connection', b'Keep-Alive'), ('is_chunked', b'transfer-encoding', b'chunked')):
        f = one(m, H + nm + '$')
        for val in (tok, b'x, ' + tok, tok + b';q', tok[:-1], tok[1:], b'', b'close', tok[:3] + tok):
            for name in (header, header.upper(), b'x' + header):
                w = tok in val and name.lower() == header
                write(m, rep, nm, f, headermap(m, [(b'a', tok), (name, val)]), {}, lambda ai, s, v, env: rep.ob(nm, num_of(ai, s, v) == int(w), f'{name!r}: {val!r} gives {v!r}'), True)
    f = one(m, H + 'get_upgrade_protocol$')
    for conn in (b'Upgrade', b'keep-alive, Upgrade', b'Upgrad', None):
        for up in (b'websocket', b'', None):
            hs = [(b'z', b'1')] + ([(b'CONNECTION', conn)] if conn is not None else []) + ([(b'upgrade', up)] if up is not None else [])
            w = up if conn and b'Upgrade' in conn else None
            write(m, rep, 'upgrade', f, headermap(m, hs), {}, lambda ai, s, v, env: rep.ob('upgrade', ot(ai, s, v) == w, f'{hs!r} gives {ot(ai, s, v)!r}'), True)
    # substring search of values
    f = one(m, r'value::HeaderValue::contains$')
    vt = type_named(m, r'value::HeaderValue$')
    for parts, pat in (([b'a', b, b'c'], b'ac'), ([b, b'bc'], b'bc'), ([b'ab', b], b'abx'), ([b''], b'a'), ([b''], b''), ([b], b''), ([b'aab', b], b'ab'), ([b'a', b, b'a'], b'aa')):
        def setup(ai, st):
            st.s[('me',)] = name_val(m, vt, parts)
        ai, ex = run(m, rep, f, [Ref(('me',)), mkslice(m, pat)], setup=setup, **EXACT)
        for s, v, env in each(ai, ex, {x: set(range(256)) for x in syms_of(parts)}):
            rep.count('inputs')
            rep.ob('value contains', isinstance(v, T) and s.val(v) == int(pat in fill(parts, env)), f'{pat!r} in {fill(parts, env)!r}: {v!r}')
    rep.floor('inputs', 3000)
