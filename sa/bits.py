"""Per-bit truth tables of option terms: each result bit as a function of the same bit of at most a few symbols."""
W = 64
MASK = (1 << W) - 1


class NotBitwise(Exception):
    pass


def const(n, k):
    n &= MASK
    full = (1 << (1 << k)) - 1
    return [full if n >> b & 1 else 0 for b in range(W)]


def syms(t, out):
    if t[0] == "int": return
    if t[0] == "app" and t[1] in ("&", "|", "^", "~", "+", "%", "cast", "!", "==", "<<", ">>", "-"):
        for x in t[2:]:
            if isinstance(x, tuple) and x[0] != "str": syms(x, out)
        return
    out.add(t)


def vec(t, order):
    """64 truth tables over the symbols in order"""
    k = len(order)
    full = (1 << (1 << k)) - 1
    if t[0] == "int": return const(t[1], k)
    if t in order:
        i = order.index(t)
        m = sum(1 << r for r in range(1 << k) if r >> i & 1)
        return [m] * W
    if t[0] != "app": raise NotBitwise(t)
    op = t[1]
    if op == "cast":
        a = vec(t[2], order)
        w = int(t[3][1][1:])
        if w >= W: return a
        return a[:w] + ([a[w - 1]] * (W - w) if t[3][1][0] == "i" else [0] * (W - w))
    if op in ("&", "|", "^"):
        a, b = vec(t[2], order), vec(t[3], order)
        return [(x & y) if op == "&" else (x | y) if op == "|" else (x ^ y) for x, y in zip(a, b)]
    if op == "~": return [full & ~x for x in vec(t[2], order)]
    if op == "%" and t[3][0] == "int" and t[3][1] > 0 and t[3][1] & (t[3][1] - 1) == 0:
        a = vec(t[2], order)
        n = t[3][1].bit_length() - 1
        return a[:n] + [0] * (W - n)
    if op == "+":
        a, b = vec(t[2], order), vec(t[3], order)
        if all(x & y == 0 for x, y in zip(a, b)): return [x | y for x, y in zip(a, b)]
        raise NotBitwise(t)
    if op == "-" and len(t) == 4:
        a, b = vec(t[2], order), vec(t[3], order)
        if all(y & ~x == 0 for x, y in zip(a, b)): return [x & ~y for x, y in zip(a, b)]
        raise NotBitwise(t)
    if op == "!":
        a = vec(t[2], order)
        nz = [x for x in a if x]
        if not nz: return const(1, k)
        if len(nz) == 1: return [full & ~nz[0]] + [0] * (W - 1)
        raise NotBitwise(t)
    if op == "==" and t[3][0] == "int":
        a = vec(t[2], order)
        n = t[3][1] & MASK
        diff = [x ^ (full if n >> b & 1 else 0) for b, x in enumerate(a)]
        nz = [x for x in diff if x]
        if not nz: return const(1, k)
        if len(nz) == 1: return [full & ~nz[0]] + [0] * (W - 1)
        if any(x == full for x in nz): return const(0, k)
        raise NotBitwise(t)
    raise NotBitwise(t)


def table(t):
    s = set()
    syms(t, s)
    order = sorted(s, key=repr)
    if len(order) > 4: raise NotBitwise(t)
    return tuple(map(repr, order)), tuple(vec(t, order))
