"""Value sets: finite unions of integer intervals (signed representation)."""

TOP = None
MAXP = 8
ENUM = 40


def smin(w):
    return -(1 << (w - 1)) if w > 1 else 0


def smax(w):
    return (1 << (w - 1)) - 1 if w > 1 else 1


def norm(parts):
    """Sorted, disjoint, merged; hull of the closest pieces above MAXP."""
    ps = sorted((a, b) for a, b in parts if a <= b)
    out = []
    for a, b in ps:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    while len(out) > MAXP:
        k = min(range(len(out) - 1), key=lambda i: out[i + 1][0] - out[i][1])
        out[k:k + 2] = [(out[k][0], out[k + 1][1])]
    return tuple(out)


def of(*vals):
    return norm([(v, v) for v in vals])


def rng(lo, hi):
    return ((lo, hi),)


def full(w):
    return ((smin(w), smax(w)),)


def card(a):
    return sum(h - l + 1 for l, h in a)


def enum(a):
    """List of members if few, else None."""
    if a is TOP or card(a) > ENUM:
        return None
    return [v for l, h in a for v in range(l, h + 1)]


def single(a):
    if a is not TOP and len(a) == 1 and a[0][0] == a[0][1]:
        return a[0][0]
    return None


def lo(a):
    return a[0][0]


def hi(a):
    return a[-1][1]


def has(a, v):
    return a is TOP or any(l <= v <= h for l, h in a)


def meets(a, b):
    """Do the sets intersect?  TOP meets everything non-empty."""
    if a is TOP or b is TOP:
        return True
    return bool(inter(a, b))


def inter(a, b):
    if a is TOP:
        return b
    if b is TOP:
        return a
    r = []
    for l, h in a:
        for m, n in b:
            x, y = max(l, m), min(h, n)
            if x <= y:
                r.append((x, y))
    return norm(r)


def union(a, b):
    if a is TOP or b is TOP:
        return TOP
    return norm(list(a) + list(b))


def subset(a, b):
    if b is TOP:
        return True
    if a is TOP:
        return False
    return all(any(m <= l and h <= n for m, n in b) for l, h in a)


def minus(a, v):
    r = []
    for l, h in a:
        if l <= v <= h:
            r += [(l, v - 1), (v + 1, h)]
        else:
            r.append((l, h))
    return norm(r)


def wrapi(l, h, w):
    """Interval of Z reduced to the signed representation of width w."""
    m = 1 << w
    if h - l + 1 >= m:
        return [(smin(w), smax(w))]
    base = smin(w)
    k = (l - base) // m
    l -= k * m
    h -= k * m
    if h <= smax(w):
        return [(l, h)]
    return [(l, smax(w)), (smin(w), h - m)]


def wrap(parts, w):
    r = []
    for l, h in parts:
        r += wrapi(l, h, w)
    return norm(r)


def uns(a, w):
    """Pieces in unsigned representation."""
    if w <= 1:
        return [(l & 1, h & 1) if l == h else (0, 1) for l, h in a]
    m = 1 << w
    r = []
    for l, h in a:
        if h < 0:
            r.append((l + m, h + m))
        elif l >= 0:
            r.append((l, h))
        else:
            r += [(0, h), (l + m, m - 1)]
    return list(norm(r))


def full_if_top(a, w):
    return full(w) if a is TOP else a


def binop(op, a, b, w):
    if a is TOP and b is TOP:
        return TOP
    if op in ("add", "sub", "mul"):
        if a is TOP or b is TOP:
            return TOP
        r = []
        for l, h in a:
            for m, n in b:
                if op == "add":
                    r.append((l + m, h + n))
                elif op == "sub":
                    r.append((l - n, h - m))
                else:
                    c = [l * m, l * n, h * m, h * n]
                    r.append((min(c), max(c)))
        return wrap(r, w)
    if op in ("and", "or", "xor"):
        if w == 1:
            for x, y in ((a, b), (b, a)):
                if op == "and" and single(x) == 0:
                    return of(0)
                if op == "or" and single(x) in (1, -1):
                    return of(1)
        if op == "and" and a is not TOP and b is not TOP:
            for x, y in ((a, b), (b, a)):
                c = single(x)
                if c is not None and enum(y) is None:
                    c &= (1 << w) - 1
                    r = []
                    for l, h in uns(y, w):
                        n = (l ^ h).bit_length()
                        k = (l >> n << n) & c
                        low = c & ((1 << n) - 1)
                        if low and (low & (low + 1)) == 0 and low.bit_length() < n:
                            r.append((k, k | low))
                        elif low == (1 << n) - 1:
                            r.append((l & c, h & c))
                        else:
                            r.append((k, k | low))
                    return wrap(r, w)
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if x is not TOP and lo(x) >= 0:
                    m = hi(x)
                    if y is not TOP and lo(y) >= 0:
                        m = min(m, hi(y))
                        c = single(x)
                        if c is not None and (c & (c + 1)) == 0 and hi(y) <= c:
                            return y
                    if not (enum(a) and enum(b)):
                        return rng(0, m)
        ea, eb = enum(a), enum(b)
        if ea is not None and eb is not None and len(ea) * len(eb) <= 400:
            f = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[op]
            return wrap([(f(x, y), f(x, y)) for x in ea for y in eb], w)
        if op in ("or", "xor") and a is not TOP and b is not TOP and lo(a) >= 0 and lo(b) >= 0:
            m = max(hi(a), hi(b))
            return rng(max(lo(a), lo(b)) if op == "or" else 0, (1 << m.bit_length()) - 1)
        return TOP
    if a is TOP or b is TOP:
        if op == "lshr" and b is not TOP and single(b) is not None and 0 < single(b) < w:
            return rng(0, (1 << (w - single(b))) - 1)
        if op == "urem" and b is not TOP and lo(b) > 0:
            return rng(0, hi(b) - 1)
        return TOP
    if op == "shl":
        r = []
        eb = enum(b)
        if eb is None or any(not 0 <= y < w for y in eb):
            return TOP
        for y in eb:
            r += [(l << y, h << y) for l, h in a]
        return wrap(r, w)
    if op in ("lshr", "ashr"):
        eb = enum(b)
        if eb is None or any(not 0 <= y < w for y in eb):
            return TOP
        ps = uns(a, w) if op == "lshr" else a
        return wrap([(l >> y, h >> y) for l, h in ps for y in eb], w)
    if op in ("udiv", "urem"):
        pa, pb = uns(a, w), uns(b, w)
        if any(l <= 0 for l, h in pb):
            return TOP
        if op == "udiv":
            return wrap([(l // n, h // m) for l, h in pa for m, n in pb], w)
        r = []
        for l, h in pa:
            for m, n in pb:
                if m == n and l // m == h // m:
                    r.append((l % m, h % m))
                else:
                    r.append((0, min(h, n - 1)))
        return wrap(r, w)
    if op in ("sdiv", "srem"):
        if lo(a) >= 0 and lo(b) > 0:
            return binop("udiv" if op == "sdiv" else "urem", a, b, w)
        c = single(b)
        if op == "sdiv" and c is not None and c > 0:
            q = lambda x: -((-x) // c) if x < 0 else x // c
            return norm([(q(l), q(h)) for l, h in a])
        return TOP
    return TOP


def cast(op, a, w0, w1):
    if a is TOP:
        if op == "zext" and w0 < 64:
            return rng(0, (1 << w0) - 1)
        if op == "sext" and w0 < 64:
            return full(w0) if w0 > 1 else rng(-1, 0)
        return TOP
    if op == "zext":
        return norm(uns(a, w0))
    if op == "sext":
        if w0 == 1:
            return norm([(-1, -1) if v else (0, 0) for v in enum(a)])
        return a
    if op == "trunc":
        if w1 == 1:
            e = enum(a)
            return norm([(v & 1, v & 1) for v in e]) if e is not None else TOP
        return wrap(a, w1)
    return a


SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle",
        "ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule"}
NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}


def keep(pred, a, b, w):
    """Members of a that satisfy pred with some member of b (both may be TOP)."""
    a = full_if_top(a, w)
    b = full_if_top(b, w)
    if not a or not b:
        return ()
    if pred == "eq":
        return inter(a, b)
    if pred == "ne":
        c = single(b)
        return minus(a, c) if c is not None else a
    if pred[0] == "s":
        L, H = lo(b), hi(b)
        f = {"slt": (smin(w), H - 1), "sle": (smin(w), H),
             "sgt": (L + 1, smax(w)), "sge": (L, smax(w))}[pred]
        return inter(a, norm([f]))
    ub = uns(b, w)
    L, H = ub[0][0], ub[-1][1]
    M = (1 << w) - 1
    f = {"ult": (0, H - 1), "ule": (0, H), "ugt": (L + 1, M), "uge": (L, M)}[pred]
    if f[0] > f[1]:
        return ()
    r = []
    for l, h in uns(a, w):
        x, y = max(l, f[0]), min(h, f[1])
        if x <= y:
            r.append((x, y))
    return wrap(r, w)


def cmp(pred, a, b, w):
    """Possible truth values of the comparison: value set of an i1."""
    if a is TOP and b is TOP:
        return TOP
    t = keep(pred, a, b, w) != ()
    f = keep(NEG[pred], a, b, w) != ()
    if t and f:
        return TOP
    return of(1) if t else of(0)


def show(a):
    if a is TOP:
        return "anything"
    if not a:
        return "nothing"
    return ",".join(str(l) if l == h else "%d..%d" % (l, h) for l, h in a)
