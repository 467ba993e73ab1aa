"""Interval-set domain: tuple of disjoint, sorted, non-adjacent (lo,hi) pairs of ints."""
CAP = 140
U8 = ((0, 255),)
BOOL = ((0, 1),)
TOP = ((-(1 << 130), 1 << 130),)
BOT = ()


def norm(iv):
    iv = sorted(iv)
    out = []
    for lo, hi in iv:
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1][1] = hi
        else:
            out.append([lo, hi])
    if len(out) > CAP:
        return ((out[0][0], out[-1][1]),)
    return tuple((a, b) for a, b in out)


def const(n):
    return ((n, n),)


def rng(lo, hi):
    return ((lo, hi),) if lo <= hi else ()


def of(vals):
    return norm([(v, v) for v in vals])


def union(a, b):
    if a == b:
        return a
    if not a:
        return b
    if not b:
        return a
    return norm(list(a) + list(b))


def inter(a, b):
    if a == b:
        return a
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def compl(a, lo=-(1 << 130), hi=1 << 130):
    out = []
    cur = lo
    for l, h in a:
        if l > cur:
            out.append((cur, l - 1))
        cur = h + 1
    if cur <= hi:
        out.append((cur, hi))
    return tuple(out)


def diff(a, b):
    return inter(a, compl(b))


def sub(a, b):
    """a subset of b"""
    return inter(a, b) == a


def size(a):
    return sum(h - l + 1 for l, h in a)


def it(a):
    for l, h in a:
        yield from range(l, h + 1)


def lo(a):
    return a[0][0]


def hi(a):
    return a[-1][1]


def shift(a, c):
    return tuple((l + c, h + c) for l, h in a)


def has(a, n):
    return any(l <= n <= h for l, h in a)


def show(a):
    if a == TOP:
        return 'T'
    return '{' + ','.join(str(l) if l == h else f'{l}..{h}' for l, h in a) + '}'
