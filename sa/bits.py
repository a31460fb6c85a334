"""Bit-level canonical form of integer terms built by shifting, masking and joining."""
from terms import *
import terms as TM


def bitvec(t, w, memo=None):
    """the w low bits of a non-negative integer term, least first: 0, 1, (atom, bit) or None where the analysis cannot tell"""
    memo = {} if memo is None else memo
    k = (t, w)
    if k not in memo:
        memo[k] = _bv(t, w, memo)
    return memo[k]


def _bv(t, w, m):
    if t.op == "int":
        n = t.args[0]
        return [n >> i & 1 for i in range(w)]
    if t.op in ("and", "or", "xor"):
        v = None
        for x in t.args:
            b = bitvec(x, w, m)
            v = b if v is None else [_bit(t.op, p, q) for p, q in zip(v, b)]
        return v
    if t.op == "shr" and t.args[1].op == "int":
        n = t.args[1].args[0]
        return bitvec(t.args[0], w + n, m)[n:]
    if t.op == "div" and t.args[1].op == "int" and t.args[1].args[0] & t.args[1].args[0] - 1 == 0 and t.args[1].args[0]:
        n = t.args[1].args[0].bit_length() - 1
        return bitvec(t.args[0], w + n, m)[n:]
    if t.op == "rem" and t.args[1].op == "int" and t.args[1].args[0] & t.args[1].args[0] - 1 == 0 and t.args[1].args[0]:
        n = t.args[1].args[0].bit_length() - 1
        return (bitvec(t.args[0], min(w, n), m) + [0] * w)[:w]
    if t.op == "trunc" and RANGES[t.args[0]][0] == 0:
        n = RANGES[t.args[0]][1].bit_length()
        return (bitvec(t.args[1], min(w, n), m) + [0] * w)[:w]
    if t.op == "lin":
        c, ps = lin_parts(t)
        v = bitvec(Int(c), w, m) if c >= 0 else None
        for x, k in ps:
            if v is None or k <= 0 or k & k - 1:
                return [None] * w
            n = k.bit_length() - 1
            b = ([0] * n + bitvec(x, max(w - n, 0), m))[:w]
            if any(p != 0 and q != 0 for p, q in zip(v, b)):
                # a carry
                i = next(i for i in range(w) if v[i] != 0 and b[i] != 0)
                v = [p or q for p, q in zip(v[:i], b)] + [None] * (w - i)
            else:
                v = [p or q for p, q in zip(v, b)]
        return v if v is not None else [None] * w
    if t.op == "discr" and DISCR.get(t.args[1]):
        vals = list(DISCR[t.args[1]])
        return [vals[0] >> i & 1 if len({x >> i & 1 for x in vals}) == 1 else (t, i) for i in range(w)]
    h, l = hi_bound(t), lo_bound(t)
    if l is None or l < 0 or h is None:
        return [None] * w
    n = h.bit_length()
    return [(t, i) if i < n else 0 for i in range(w)]


def _bit(op, a, b):
    if op == "and":
        if a == 0 or b == 0:
            return 0
        return a if b == 1 else b if a == 1 else a if a == b else None
    if op == "or":
        if a == 1 or b == 1:
            return 1
        return a if b == 0 else b if a == 0 else a if a == b else None
    if a == 0 or b == 0:
        return b if a == 0 else a
    if a is not None and a == b:
        return 0
    return None


OPS = ("and", "or", "xor", "shr", "div", "rem", "trunc", "lin")


def bitnorm(t, w=64, memo=None):
    """t with every shift/mask/join expression whose bits are known replaced by those bits"""
    memo = {} if memo is None else memo
    bm = memo.setdefault("bits", {})
    return _bn(t, w, memo, bm)


def _bn(t, w, memo, bm):
    r = memo.get(t)
    if r is not None:
        return r
    r = t
    if t.op in OPS:
        # leaves of the expression first
        h = hi_bound(t)
        b = bitvec(t, min(w, h.bit_length()), bm) if h is not None and h >= 0 else [None]
        if all(x is not None for x in b):
            b = [x if not isinstance(x, tuple) or x[0] is t else (_bn(x[0], w, memo, bm), x[1]) for x in b]
            r = join(b)
            memo[t] = r
            return r
    args, ch = [], False
    for a in t.args:
        x = _arg(a, w, memo, bm)
        ch |= x is not a
        args.append(x)
    if ch:
        r = rebuild(t.op, tuple(args), t)
    memo[t] = r
    return r


def _arg(a, w, memo, bm):
    if is_t(a):
        return _bn(a, w, memo, bm)
    if isinstance(a, tuple):
        xs = tuple(_arg(x, w, memo, bm) for x in a)
        return xs if any(x is not y for x, y in zip(xs, a)) else a
    return a


def join(b):
    """the integer with these bits"""
    b = list(b)
    while b and b[-1] == 0:
        b.pop()
    if all(x in (0, 1) for x in b if not isinstance(x, tuple)) and not any(isinstance(x, tuple) for x in b):
        return Int(sum(x << i for i, x in enumerate(b)))
    x = b[0][0] if isinstance(b[0], tuple) else None
    if x is not None and all(isinstance(y, tuple) and y[0] is x and y[1] == i for i, y in enumerate(b)):
        h = hi_bound(x)
        if h is not None and h.bit_length() <= len(b):
            return x
    r = mk("bits", *[tuple(y) if isinstance(y, tuple) else y for y in b])
    return r
