"""Hash-consed provenance terms: the abstract value domain of the analysis.

A term names where a value comes from (which input field, constant, loop element or
primitive it was computed from).  Constructors normalise, so that two spellings of the
same dataflow give the same term.  Nothing here evaluates the program.
"""
import sys
sys.setrecursionlimit(20000)

_INTERN = {}
TYP = {}          # term -> primitive type name, for range facts
VAR_TY = {}      # top-level symbolic parameter -> type
_NEXT = [0]


class T:
    __slots__ = ("op", "args", "id", "_h", "_atoms")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    key = (op,) + args
    t = _INTERN.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.id = _NEXT[0]
        _NEXT[0] += 1
        t._h = hash(("T", t.id))
        t._atoms = None
        _INTERN[key] = t
    return t


def is_t(x):
    return isinstance(x, T)


def Int(n):
    return mk("int", n)


ZERO = Int(0)
ONE = Int(1)
TRUE = ONE
FALSE = ZERO
UNIT = mk("tup")


def Str(s):
    return mk("str", s)


def Var(name):
    return mk("var", name)


def Adt(id, variant, *fields):
    # eta: rebuilding a value from all of its own projections is that value
    if fields and not (id == RESULT and variant == 1):
        f0 = fields[0]
        if f0.op == "fld" and f0.args[1] == id and f0.args[2] == variant and f0.args[3] == 0:
            b = f0.args[0]
            if all(f.op == "fld" and f.args[0] is b and f.args[1:] == (id, variant, i) for i, f in enumerate(fields)) \
                    and (len(fields) == ADT_NFIELDS.get((id, variant), -1)):
                return b
    return mk("adt", id, variant, *fields)


ADT_NFIELDS = {}   # (adt id, variant) -> number of fields
ADT_NAMES = {}     # adt id -> (short name, [variant names], [[field names]])


def Tup(*xs):
    return mk("tup", *xs)


BA_DATA = None      # (adt, variant, field) of the byte string inside ByteArray, while byte arrays are read as byte strings


def Fld(base, adt, variant, i):
    """projection i of variant `variant` of a value of ADT `adt`"""
    if BA_DATA is not None and i == BA_DATA[2] and adt == BA_DATA[0] and base.op != "adt":
        return base
    if base.op == "adt" and base.args[1] == variant:
        return base.args[2 + i]
    if base.op == "upd" and len(base.args) == 5 and base.args[1:3] == (adt, variant):
        return base.args[4] if base.args[3] == i else Fld(base.args[0], adt, variant, i)
    return mk("fld", base, adt, variant, i)


def TFld(base, i):
    if base.op == "tup":
        return base.args[i]
    if base.op == "clo":
        return base.args[2 + i]
    return mk("tfld", base, i)


OPTION = "core::option::Option"
RESULT = "core::result::Result"
CFLOW = "core::ops::control_flow::ControlFlow"


def Some(x):
    return Adt(OPTION, 1, x)


NONE = mk("adt", OPTION, 0)


def Ok(x):
    return Adt(RESULT, 0, x)


def Err(x):
    return Adt(RESULT, 1, x)


# ---------------------------------------------------------------- integers
RANGES = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1),
          "u128": (0, 2**128 - 1), "usize": (0, 2**64 - 1),
          "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
          "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1), "isize": (-2**63, 2**63 - 1),
          "bool": (0, 1), "char": (0, 0x10ffff)}


def lin_parts(t):
    """(const, ((term,coef),...)) of an integer term"""
    if t.op == "int":
        return t.args[0], ()
    if t.op == "lin":
        return t.args[0], t.args[1]
    return 0, ((t, 1),)


def mk_lin(c, parts):
    d = {}
    for t, k in parts:
        d[t] = d.get(t, 0) + k
    ps = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda p: p[0].id))
    if not ps:
        return Int(c)
    if c == 0 and len(ps) == 1 and ps[0][1] == 1:
        return ps[0][0]
    return mk("lin", c, ps)


def add(a, b):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    return mk_lin(ca + cb, pa + pb)


def scale(a, k):
    c, p = lin_parts(a)
    return mk_lin(c * k, tuple((t, n * k) for t, n in p))


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if a.op == "int":
        return scale(b, a.args[0])
    if b.op == "int":
        return scale(a, b.args[0])
    if b.id < a.id:
        a, b = b, a
    return mk("mul", a, b)


def div(a, b):
    if b.op == "int" and b.args[0] == 1:
        return a
    if a.op == "int" and b.op == "int" and b.args[0]:
        q = abs(a.args[0]) // abs(b.args[0])
        return Int(q if (a.args[0] >= 0) == (b.args[0] > 0) else -q)
    return mk("div", a, b)


def rem(a, b):
    if a.op == "int" and b.op == "int" and b.args[0]:
        r = abs(a.args[0]) % abs(b.args[0])
        return Int(r if a.args[0] >= 0 else -r)
    if b.op == "int" and b.args[0] > 1 and (b.args[0] & (b.args[0] - 1)) == 0 and lo_bound(a) is not None and lo_bound(a) >= 0:
        return bitop("and", a, Int(b.args[0] - 1))
    return mk("rem", a, b)


def tlen_is(t):
    return t.op == "len"


def lit_items(t):
    """a literal sequence of integers"""
    return t.op == "seq" and t.args and all(p.op == "item" and p.args[0].op == "int" for p in t.args)


def lo_bound(t):
    if t.op == "int":
        return t.args[0]
    if t.op in ("len", "popcnt"):
        return 0
    if t.op == "k":
        return 0
    if t.op == "le0" or t.op == "eq0" or t.op in BOOL_OPS:
        return 0
    if t.op == "discr" and DISCR.get(t.args[1]):
        return min(DISCR[t.args[1]])
    ty = TYP.get(t)
    if ty in RANGES:
        return RANGES[ty][0]
    if t.op == "and":
        for x in t.args:
            l = lo_bound(x)
            if l is not None and l >= 0:
                return 0
    if t.op in ("or", "xor", "min", "max", "div", "rem", "shr"):
        ls = [lo_bound(x) for x in t.args[:2]]
        if all(l is not None and l >= 0 for l in ls):
            return min(ls) if t.op in ("min",) else (max(ls) if t.op == "max" else 0)
    if t.op == "trunc":
        return RANGES[t.args[0]][0]
    if t.op == "idx" and lit_items(t.args[0]):
        return min(p.args[0].args[0] for p in t.args[0].args)
    if t.op == "idx" and t.args[0].op == "table":
        return min(p.args[0].args[0] for p in t.args[0].args[0].args)
    if t.op == "sum" and all(is_t(v) and (lo_bound(v) or -1) >= 0 or v is ZERO or (is_t(v) and lo_bound(v) == 0) for g, v in t.args[2]):
        return 0
    if t.op == "mul":
        ls = [lo_bound(x) for x in t.args]
        if all(l is not None and l >= 0 for l in ls):
            return ls[0] * ls[1]
    if t.op == "lin":
        s = t.args[0]
        for x, k in t.args[1]:
            b = lo_bound(x) if k > 0 else hi_bound(x)
            if b is None:
                return None
            s += k * b
        return s
    return None


def hi_bound(t):
    if t.op == "int":
        return t.args[0]
    if t.op == "len":
        return 2**63 - 1
    if t.op == "k":
        return 2**63 - 1
    if t.op in ("le0", "eq0") or t.op in BOOL_OPS:
        return 1
    best = None

    def use(v):
        nonlocal best
        if v is not None and (best is None or v < best):
            best = v
    ty = TYP.get(t)
    if ty in RANGES:
        use(RANGES[ty][1])
    if t.op == "and":
        for x in t.args:
            l = lo_bound(x)
            if l is not None and l >= 0:
                use(hi_bound(x))
    elif t.op in ("or", "xor"):
        hs = [hi_bound(x) for x in t.args]
        ls = [lo_bound(x) for x in t.args]
        if all(h is not None for h in hs) and all(l is not None and l >= 0 for l in ls):
            use((1 << max(h.bit_length() for h in hs)) - 1)
    elif t.op == "min":
        for x in t.args:
            use(hi_bound(x))
    elif t.op == "max":
        hs = [hi_bound(x) for x in t.args]
        if all(h is not None for h in hs):
            use(max(hs))
    elif t.op == "trunc":
        use(RANGES[t.args[0]][1])
    elif t.op == "discr" and DISCR.get(t.args[1]):
        use(max(DISCR[t.args[1]]))
    elif t.op == "idx" and lit_items(t.args[0]):
        use(max(p.args[0].args[0] for p in t.args[0].args))
    elif t.op == "idx" and t.args[0].op == "table":
        use(max(p.args[0].args[0] for p in t.args[0].args[0].args))
    elif t.op in ("div", "shr"):
        h, l = hi_bound(t.args[0]), lo_bound(t.args[0])
        if h is not None and l is not None and l >= 0:
            k = t.args[1]
            if k.op == "int" and k.args[0] > 0:
                h = h // k.args[0] if t.op == "div" else h >> k.args[0]
            use(h)
    elif t.op == "rem":
        if t.args[1].op == "int" and t.args[1].args[0] > 0:
            use(t.args[1].args[0] - 1)
    elif t.op == "mul":
        bs = [(lo_bound(x), hi_bound(x)) for x in t.args]
        if all(l is not None and l >= 0 and h is not None for l, h in bs):
            use(bs[0][1] * bs[1][1])
    elif t.op == "lin":
        s = t.args[0]
        for x, k in t.args[1]:
            b = hi_bound(x) if k > 0 else lo_bound(x)
            if b is None:
                s = None
                break
            s += k * b
        use(s)
    return best


def bitop(op, a, b):
    if a.op == "int" and b.op == "int":
        x, y = a.args[0], b.args[0]
        return Int({"and": x & y, "or": x | y, "xor": x ^ y}[op])
    if b.op == "int" and a.op != "int":
        a, b = b, a
    # a may be const now
    if a.op == "int":
        if op == "and" and a.args[0] == 0:
            return ZERO
        if op in ("or", "xor") and a.args[0] == 0:
            return b
        if op == "and" and a.args[0] > 0:
            h, l = hi_bound(b), lo_bound(b)
            if h is not None and l is not None and l >= 0:
                m = (1 << h.bit_length()) - 1       # bits above the bound are clear anyway
                if m & ~a.args[0] == 0:
                    return b
                if a.args[0] & ~m:
                    return bitop(op, Int(a.args[0] & m), b)
        if b.op == op and b.args[0].op == "int":
            return bitop(op, bitop(op, a, b.args[0]), b.args[1])
    if a is b:
        return ZERO if op == "xor" else a
    if op in ("and", "or", "xor") and a.op != "int":
        # flatten, sort (AC)
        items = []
        for x in (a, b):
            st = [x]
            while st:
                y = st.pop()
                if y.op == op:
                    st.extend(y.args)
                else:
                    items.append(y)
        c = None
        rest = []
        for y in items:
            if y.op == "int":
                c = y if c is None else bitop(op, c, y)
            else:
                rest.append(y)
        rest.sort(key=lambda z: z.id)
        if op in ("and", "or"):
            uniq = []
            for y in rest:
                if not uniq or uniq[-1] is not y:
                    uniq.append(y)
            rest = uniq
        r = rest[0]
        for y in rest[1:]:
            r = mk(op, r, y)
        if c is not None:
            r = bitop(op, c, r) if r.op != op else mk(op, c, r)
        return r
    return mk(op, a, b)


def shift(op, a, b):
    if a.op == "int" and b.op == "int" and 0 <= b.args[0] < 128:
        return Int(a.args[0] << b.args[0] if op == "shl" else a.args[0] >> b.args[0])
    if b.op == "int" and b.args[0] == 0:
        return a
    return mk(op, a, b)


def typed_shift(op, a, b, prim):
    """a shift of a value of type prim: bits beyond its width are lost"""
    r = shift(op, a, b)
    return trunc(prim, r) if op == "shl" or r.op == "int" else r


def tmin(a, b):
    if a is b:
        return a
    d = sub(a, b)
    h, l = hi_bound(d), lo_bound(d)
    if h is not None and h <= 0:
        return a
    if l is not None and l >= 0:
        return b
    return mk("min", *sorted((a, b), key=lambda z: z.id))


def tmax(a, b):
    if a is b:
        return a
    d = sub(a, b)
    h, l = hi_bound(d), lo_bound(d)
    if h is not None and h <= 0:
        return b
    if l is not None and l >= 0:
        return a
    return mk("max", *sorted((a, b), key=lambda z: z.id))


def wrap_to(ty, n):
    lo, hi = RANGES[ty]
    m = hi - lo + 1
    return (n - lo) % m + lo


def trunc(ty, t):
    """value of `t as ty` (integer)"""
    if t.op == "int":
        if ty == "char" or ty == "bool":
            return t
        return Int(wrap_to(ty, t.args[0]))
    lo, hi = RANGES[ty]
    l, h = lo_bound(t), hi_bound(t)
    if l is not None and h is not None and l >= lo and h <= hi:
        return t
    if t.op == "trunc":
        l2, h2 = RANGES[t.args[0]]
        if hi - lo <= h2 - l2:
            return trunc(ty, t.args[1])
    return mk("trunc", ty, t)


# ---------------------------------------------------------------- booleans
BOOL_OPS = {"not", "eq", "isv", "le0", "eq0", "pred", "band", "bor", "all"}


def is_bool(t):
    return t.op in BOOL_OPS or TYP.get(t) == "bool" or (t.op == "int" and t.args[0] in (0, 1))


def le0(l):
    """l <= 0"""
    if l.op == "int":
        return TRUE if l.args[0] <= 0 else FALSE
    h = hi_bound(l)
    if h is not None and h <= 0:
        return TRUE
    lo = lo_bound(l)
    if lo is not None and lo > 0:
        return FALSE
    if l.op == "lin" or l.op in ("max", "min"):
        c, ps = lin_parts(l)
        for x, k in ps:
            if x.op in ("max", "min") and len(x.args) == 2:
                rest = sub(l, scale(x, k))
                ys = [le0(add(rest, scale(y, k))) for y in x.args]
                both = (x.op == "max") == (k > 0)     # holds iff it holds for both (else: for either)
                if (FALSE if both else TRUE) in ys:
                    return FALSE if both else TRUE
                ys = [y for y in ys if y is not (TRUE if both else FALSE)]
                if len(ys) == 1:
                    return ys[0]
                if not ys:
                    return TRUE if both else FALSE
                break
    return mk("le0", l)


def eq0(l):
    if l.op == "int":
        return TRUE if l.args[0] == 0 else FALSE
    c, p = lin_parts(l)
    if p[0][1] < 0:
        l = scale(l, -1)
        c, p = lin_parts(l)
    h, lo = hi_bound(l), lo_bound(l)
    if (h is not None and h < 0) or (lo is not None and lo > 0):
        return FALSE
    # x == 0 / x == 1 where x is boolean
    if len(p) == 1 and p[0][1] == 1 and is_bool(p[0][0]):
        if c == 0:
            return Not(p[0][0])
        if c == -1:
            return p[0][0]
    if len(p) == 1 and p[0][0].op == "discr" and p[0][1] == 1:
        t = p[0][0]
        vi = DISCR.get(t.args[1], {}).get(-c)
        if vi is None:
            return FALSE if t.args[1] in DISCR else mk("eq0", l)
        return isv(t.args[0], t.args[1], vi)
    return mk("eq0", l)


DISCR = {}    # adt id -> {discr value: variant index}


def isv(t, adt, vi):
    if t.op == "adt":
        return TRUE if t.args[1] == vi else FALSE
    if t.op == "fromdiscr":
        for d, i in DISCR.get(adt, {}).items():
            if i == vi:
                return int_eq(t.args[1], Int(d))
    if len(DISCR.get(adt, {0: 0, 1: 1})) == 1:
        return TRUE
    if len(DISCR.get(adt, ())) == 2 and vi == 1:
        return Not(mk("isv", t, adt, 0))
    return mk("isv", t, adt, vi)


def Discr(t, adt):
    if t.op == "adt" and adt in DISCR:
        for d, i in DISCR[adt].items():
            if i == t.args[1]:
                return Int(d)
    return mk("discr", t, adt)


def FromDiscr(adt, x):
    """the enum value whose discriminant is x (x is known to be one)"""
    if x.op == "discr" and x.args[1] == adt:
        return x.args[0]
    if x.op == "int" and x.args[0] in DISCR.get(adt, {}):
        return mk("adt", adt, DISCR[adt][x.args[0]])
    return mk("fromdiscr", adt, x)


def Not(t):
    if t.op == "int":
        return FALSE if t.args[0] else TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "le0":
        return le0(sub(ONE, t.args[0]))
    return mk("not", t)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def int_eq(a, b):
    if a.op == "int" and is_bool(b) and b.op != "int":
        return b if a.args[0] == 1 else Not(b)
    if b.op == "int" and is_bool(a) and a.op != "int":
        return a if b.args[0] == 1 else Not(a)
    return eq0(sub(a, b))


def conj(xs):
    s = set()
    for x in xs:
        if x.op == "band":
            s.update(x.args)
        elif x is FALSE:
            return FALSE
        elif x is not TRUE:
            s.add(x)
    for x in s:
        if Not(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("band", *sorted(s, key=lambda z: z.id))


def disj(xs):
    return Not(conj([Not(x) for x in xs]))


def teq(a, b):
    """structural equality of two values of the same (non-primitive) type"""
    if a is b:
        return TRUE
    if a.op == "int" or b.op == "int" or a.op == "lin" or b.op == "lin" or is_bool(a) or is_bool(b) or TYP.get(a) in RANGES or TYP.get(b) in RANGES:
        return int_eq(a, b)
    if a.op == "adt" and b.op == "adt":
        if a.args[1] != b.args[1]:
            return FALSE
        return conj([teq(x, y) for x, y in zip(a.args[2:], b.args[2:])])
    for x, y in ((a, b), (b, a)):
        if y.op == "adt" and x.op != "adt":
            adt, v = y.args[0], y.args[1]
            nf = len(y.args) - 2
            return conj([isv(x, adt, v)] + [teq(Fld(x, adt, v, i), y.args[2 + i]) for i in range(nf)])
    if a.op == "tup" and b.op == "tup" and len(a.args) == len(b.args):
        return conj([teq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "str" and b.op == "str":
        return FALSE
    if a.op == "seq" and b.op == "seq" and all(p.op == "item" for p in a.args + b.args):
        if len(a.args) != len(b.args):
            return FALSE
        return conj([teq(x.args[0], y.args[0]) for x, y in zip(a.args, b.args)])
    if a.op == "seq" and not a.args:
        return eq0(Len(b))
    if b.op == "seq" and not b.args:
        return eq0(Len(a))
    if a.op == "str":
        a, b = b, a
    if b.id < a.id and b.op != "str":
        a, b = b, a
    return mk("eq", a, b)


# ---------------------------------------------------------------- sequences (bytes, vectors, strings)
EMPTY = mk("seq")


def item(x):
    return mk("item", x)


def Seq(*parts):
    """concatenation; a part is item(x), rep(..), or any sequence-valued term (spread)"""
    out = []
    for p in parts:
        if p.op == "seq":
            out.extend(p.args)
        elif p.op == "str" and p.args[0] == "":
            continue
        elif p.op == "repeat" and p.args[1].op == "int" and p.args[1].args[0] <= 4:
            out.extend([item(p.args[0])] * p.args[1].args[0])
        elif p.op in ("le", "be") and p.args[1].op == "un" + p.op and p.args[1].args[0] == p.args[0]:
            out.extend(seq_parts(p.args[1].args[1]))
        elif p.op in ("le", "be") and p.args[0] == 1:
            out.append(item(trunc("u8", p.args[1])))
        elif p.op in ("le", "be") and p.args[1].op == "int":
            n, v = p.args[0], p.args[1].args[0]
            bs = (v % (1 << (8 * n))).to_bytes(n, "little" if p.op == "le" else "big")
            out.extend(item(Int(b)) for b in bs)
        else:
            out.append(p)
    # merge adjacent strings, adjacent slices of the same base
    merged = []
    for p in out:
        if merged:
            q = merged[-1]
            if q.op == "str" and p.op == "str":
                merged[-1] = Str(q.args[0] + p.args[0])
                continue
            if q.op == "slice" and p.op == "slice" and q.args[0] is p.args[0] and q.args[2] is p.args[1]:
                merged[-1] = Slice(q.args[0], q.args[1], p.args[2])
                continue
        merged.append(p)
    out = merged
    if len(out) == 1 and out[0].op not in ("item", "rep"):
        return out[0]
    if any(p.op == "str" for p in out):
        # text among other parts: its bytes
        out = [q for p in out for q in ([item(Int(b)) for b in p.args[0].encode()] if p.op == "str" else [p])]
    return mk("seq", *out)


def seq_parts(t):
    if t.op == "seq":
        return t.args
    if t.op == "str" and t.args[0] == "":
        return ()
    return (t,)


def items(*xs):
    return Seq(*[item(x) for x in xs])


def Bytes(bs):
    return items(*[Int(b) for b in bs])


def part_len(p):
    if p.op == "item":
        return ONE
    return Len(p)


def fixed_len(n):
    return Int(n)


LEN_OF = {}    # op-specific: term -> Int, for opaque sequences of statically known length


def Len(t):
    if t in LEN_OF:
        return LEN_OF[t]
    if t.op == "seq":
        s = ZERO
        for p in t.args:
            s = add(s, part_len(p))
        return s
    if t.op == "str":
        return Int(len(t.args[0].encode()))
    if t.op in ("le", "be"):
        return Int(t.args[0])
    if t.op == "repeat":
        return t.args[1]
    if t.op == "slice":
        return sub(t.args[2], t.args[1])
    if t.op in ("rev", "table"):
        return Len(t.args[0])
    if t.op == "call" and t.args[0] in ("str::to_ascii_lowercase", "str::to_ascii_uppercase"):
        return Len(t.args[1])
    if t.op == "sorted":
        return Len(t.args[0])
    if t.op == "upds":       # slice update
        return Len(t.args[0])
    if t.op == "updi":
        return Len(t.args[0])
    if t.op == "rangeseq":
        return sub(t.args[1], t.args[0])
    if t.op == "digest":
        n = DIGEST_LEN.get(t.args[0])
        if n:
            return Int(n)
    if t.op == "rep":
        # rep(d, n, cases): every case same constant length -> n * that
        d, n, cases = t.args
        ls = set()
        for g, parts in cases:
            s = ZERO
            for p in parts:
                s = add(s, part_len(p))
            ls.add(s)
        if len(ls) == 1:
            l = ls.pop()
            if l.op == "int":
                return scale(n, l.args[0])
            if not has_k(l, d):
                return mul(n, l)
        return mk("sum", d, n, tuple((g, _sumlen(parts)) for g, parts in cases))
    return mk("len", t)


def _sumlen(parts):
    s = ZERO
    for p in parts:
        s = add(s, part_len(p))
    return s


DIGEST_LEN = {"sha1": 20, "ripemd160": 20, "sha256": 32, "hash160": 20, "sha256d": 32}


def Slice(t, lo, hi):
    if lo is ZERO and hi is Len(t):
        return t
    if lo is hi:
        return EMPTY
    if t.op == "slice":
        return Slice(t.args[0], add(t.args[1], lo), add(t.args[1], hi))
    if t.op == "str" and lo.op == "int" and hi.op == "int":
        return Str(t.args[0].encode()[lo.args[0]:hi.args[0]].decode("utf8", "replace"))
    if t.op == "rangeseq":
        return mk("rangeseq", add(t.args[0], lo), add(t.args[0], hi))
    if t.op == "repeat":
        return mk("repeat", t.args[0], sub(hi, lo))
    if t.op == "le" and lo.op == "int" and hi.op == "int":
        if lo is ZERO and t.args[0] > hi.args[0] and hi.args[0] in (1, 2, 4, 8):
            return Seq(mk("le", hi.args[0], trunc("u%d" % (8 * hi.args[0]), t.args[1])))
    if t.op == "seq":
        # cut at part boundaries when they align; a cut inside a spread part slices that part
        out = []
        pos = ZERO
        started = False
        for p in t.args:
            l = part_len(p)
            end = add(pos, l)
            if not started:
                if lo is pos:
                    started = True
                else:
                    d = sub(lo, end)
                    lb, hb = lo_bound(d), hi_bound(d)
                    if lb is not None and lb >= 0:
                        pos = end
                        if lo is pos:
                            started = None    # starts at the next part
                        started = False
                        continue
                    # inside this part
                    d1 = sub(lo, pos)
                    if p.op != "item" and lo_bound(d1) is not None and lo_bound(d1) >= 0 and hb is not None and hb <= 0:
                        if hi is end or _ge(hi, end):
                            out.append(Slice(p, d1, l))
                            started = True
                            pos = end
                            if hi is end:
                                return Seq(*out)
                            continue
                        if _ge(end, hi):
                            return Slice(p, d1, sub(hi, pos))
                    return mk("slice", t, lo, hi)
            if hi is end:
                out.append(p)
                return Seq(*out)
            if _ge(hi, end):
                out.append(p)
                pos = end
                continue
            if p.op != "item" and _ge(end, hi) and _ge(hi, pos):
                if hi is not pos:
                    out.append(Slice(p, ZERO, sub(hi, pos)))
                return Seq(*out)
            if hi is pos:
                return Seq(*out)
            return mk("slice", t, lo, hi)
        return mk("slice", t, lo, hi)
    return mk("slice", t, lo, hi)


def _ge(a, b):
    l = lo_bound(sub(a, b))
    return l is not None and l >= 0


def Idx(t, i):
    if t.op == "table" and i.op == "int":
        return Idx(t.args[0], i)
    if t.op == "slice":
        return Idx(t.args[0], add(t.args[1], i))
    if t.op == "rangeseq":
        return add(t.args[0], i)
    if t.op == "rev":
        return Idx(t.args[0], sub(sub(Len(t.args[0]), ONE), i))
    if t.op == "repeat":
        return t.args[0]
    if t.op == "str" and i.op == "int":
        b = t.args[0].encode()
        if 0 <= i.args[0] < len(b):
            return Int(b[i.args[0]])
    if t.op == "updi":
        if t.args[1] is i:
            return t.args[2]
        d = sub(t.args[1], i)
        if d.op == "int":
            return Idx(t.args[0], i)
    if t.op == "rep":
        # one item per iteration
        d, n, cases = t.args
        if len(cases) == 1 and len(cases[0][1]) == 1 and cases[0][1][0].op == "item":
            return subst(cases[0][1][0].args[0], {mk("k", d): i})
    if t.op == "seq":
        if len(t.args) == 1 and t.args[0].op == "rep":      # the index denotes an element, so it lies in the only part
            return Idx(t.args[0], i)
        pos = ZERO
        for p in t.args:
            l = part_len(p)
            if p.op == "item":
                if i is pos:
                    return p.args[0]
                if not _ge(i, add(pos, ONE)):
                    break
            else:
                end = add(pos, l)
                if not _ge(i, end):
                    if _ge(i, pos) and (p is t.args[-1] or _ge(end, add(i, ONE))):
                        return Idx(p, sub(i, pos))
                    break
            pos = add(pos, l)
    if t.op in ("le",) and i.op == "int":
        k = i.args[0]
        if 0 <= k < t.args[0]:
            v = t.args[1]
            return trunc("u8", shift("shr", v, Int(8 * k)))
    return mk("idx", t, i)


def MInsert(m, k, v):
    while m.op in ("minsert", "mremove") and m.args[1] is k:
        m = m.args[0]
    return mk("minsert", m, k, v)


def MRemove(m, k):
    while m.op in ("minsert", "mremove") and m.args[1] is k:
        m = m.args[0]
    return m if m.op == "emptymap" else mk("mremove", m, k)


def Rev(t):
    if t.op == "rev":
        return t.args[0]
    if t.op == "seq" and all(p.op == "item" for p in t.args):
        return Seq(*reversed(t.args))
    if t.op == "le":
        return mk("be", *t.args)
    if t.op == "be":
        return mk("le", *t.args)
    if t.op == "rep":
        # one item per iteration: reverse the source index
        d, n, cases = t.args
        if len(cases) == 1 and len(cases[0][1]) == 1 and cases[0][1][0].op == "item":
            k = mk("k", d)
            return Rep(d, n, (((), (item(subst(cases[0][1][0].args[0], {k: sub(sub(n, ONE), k)})),)),))
    return mk("rev", t)


def LeB(n, x):
    return Seq(mk("le", n, x))


def BeB(n, x):
    return Seq(mk("be", n, x))


def unle(n, b, ty=None, big=False):
    op = "unbe" if big else "unle"
    enc = "be" if big else "le"
    if b.op == enc and b.args[0] == n:
        return trunc(ty, b.args[1]) if ty else b.args[1]
    if b.op == "seq" and all(p.op == "item" and p.args[0].op == "int" for p in b.args) and len(b.args) == n:
        v = int.from_bytes(bytes(p.args[0].args[0] & 255 for p in b.args), "big" if big else "little")
        return Int(wrap_to(ty, v) if ty else v)
    if n == 1 and ty == "u8":
        return Idx(b, ZERO)
    t = mk(op, n, b, ty or "u%d" % (8 * n))
    TYP.setdefault(t, ty or "u%d" % (8 * n))
    return t


def Rep(d, n, cases):
    """n iterations, iteration index k(d); cases: ((guards, parts),...)"""
    if n is ZERO:
        return EMPTY
    if len(cases) == 1 and not cases[0][1]:
        return EMPTY
    if len(cases) == 1 and len(cases[0][1]) == 1:
        p = cases[0][1][0]
        k = mk("k", d)
        if p.op == "item":
            x = p.args[0]
            if x.op == "idx":
                xs, i = x.args
                # xs[c + k] for k in 0..n  ==  xs[c..c+n]
                c = sub(i, k)
                if not has_k(c, d) and not has_k(xs, d):
                    return Slice(xs, c, add(c, n))
                c2 = add(i, k)
                if not has_k(c2, d) and not has_k(xs, d):
                    return Rev(Slice(xs, sub(add(c2, ONE), n), add(c2, ONE)))
            if not has_k(x, d):
                return mk("repeat", x, n)
            c = sub(x, k) if x.op in ("lin", "k") else None
            if c is not None and not has_k(c, d):
                return mk("rangeseq", c, add(c, n))
    return mk("rep", d, n, cases)


def LastOf(d, n, init, v):
    if n is ZERO:
        return init
    lo = lo_bound(n)
    if lo is not None and lo >= 1:
        return subst(v, {mk("k", d): sub(n, ONE)})
    return mk("lastof", d, n, init, v)


def Mu(d, n, i, inits, bodies):
    if n is ZERO:
        return inits[i]
    return mk("mu", d, n, i, inits, bodies)


# ---------------------------------------------------------------- traversal
def children(t):
    for a in t.args:
        yield from _ch(a)


def _ch(a):
    if isinstance(a, T):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from _ch(x)


def atoms(t):
    """set of leaf-ish ops occurring: all sub-terms (frozenset), cached"""
    if t._atoms is None:
        s = {t}
        for c in children(t):
            s |= atoms(c)
        t._atoms = frozenset(s)
    return t._atoms


def has_k(t, d):
    return mk("k", d) in atoms(t)


def contains(t, sub_):
    return sub_ in atoms(t)


def has_op(t, *ops):
    return any(x.op in ops for x in atoms(t))


def rebuild(op, args, old):
    f = REBUILD.get(op)
    if f:
        t = f(*args)
    else:
        t = mk(op, *args)
    if old in TYP and t.op not in ("int",):
        TYP.setdefault(t, TYP[old])
    if old in LEN_OF and t not in LEN_OF:
        LEN_OF[t] = LEN_OF[old]
    return t


REBUILD = {
    "lin": lambda c, ps: _relin(c, ps),
    "mul": mul, "div": div, "rem": rem,
    "and": lambda a, b: bitop("and", a, b), "or": lambda a, b: bitop("or", a, b), "xor": lambda a, b: bitop("xor", a, b),
    "shl": lambda a, b: shift("shl", a, b), "shr": lambda a, b: shift("shr", a, b),
    "min": tmin, "max": tmax, "trunc": trunc,
    "le0": le0, "eq0": eq0, "not": Not, "eq": teq, "isv": isv,
    "band": lambda *xs: conj(xs),
    "discr": lambda t, adt: Discr(t, adt),
    "adt": lambda id, v, *f: Adt(id, v, *f), "fld": Fld, "tfld": TFld,
    "seq": lambda *p: Seq(*p), "slice": Slice, "idx": Idx, "rev": Rev, "len": Len,
    "le": lambda n, x: LeB(n, x), "be": lambda n, x: BeB(n, x),
    "unle": lambda n, b, ty: unle(n, b, ty), "unbe": lambda n, b, ty: unle(n, b, ty, True),
    "minsert": MInsert, "mremove": MRemove,
    "rep": Rep, "lastof": lambda d, n, i, v: LastOf(d, n, i, v), "mu": lambda d, n, i, ini, b: Mu(d, n, i, ini, b),
}


def _relin(c, ps):
    r = Int(c)
    for t, k in ps:
        r = add(r, scale(t, k))
    return r


BINDERS = {"rep", "sum", "evrep", "all", "mu", "lastof", "first"}


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    return _subst(t, m, memo, frozenset(m))


def _subst(t, m, memo, keys):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not (keys & atoms(t)):
        return t
    if t.op in BINDERS and any(a.op in ("k", "self") and a.args[0] == t.args[0] for a in keys):
        # k(d), and self(d, …), are bound here
        m2 = {a: b for a, b in m.items() if not (a.op in ("k", "self") and a.args[0] == t.args[0])}
        # count (args[1]) is outside the binder
        n = _subst(t.args[1], m, memo, keys)
        rest = tuple(_sub_arg(a, m2, {}, frozenset(m2)) for a in t.args[2:])
        r = rebuild(t.op, (t.args[0], n) + rest, t)
    else:
        r = rebuild(t.op, tuple(_sub_arg(a, m, memo, keys) for a in t.args), t)
    memo[t] = r
    return r


def _sub_arg(a, m, memo, keys):
    if isinstance(a, T):
        return _subst(a, m, memo, keys)
    if isinstance(a, tuple):
        return tuple(_sub_arg(x, m, memo, keys) for x in a)
    return a


# ---------------------------------------------------------------- printing
def short(id):
    if not isinstance(id, str):
        return str(id)
    return id.split("::")[-1] if not id.endswith("}") else "::".join(id.split("::")[-2:])


def show(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth - 1) for x in t) + ")"
        return str(t)
    if depth < 0:
        return "…"
    o, a = t.op, t.args
    s = lambda x: show(x, depth - 1)
    if o == "int":
        return str(a[0]) if abs(a[0]) < 4096 else hex(a[0])
    if o == "str":
        return repr(a[0])
    if o == "var":
        return a[0]
    if o == "adt":
        nm = ADT_NAMES.get(a[0])
        vn = short(a[0])
        if nm:
            vn = nm[0] if len(nm[1]) == 1 else nm[1][a[1]]
            if vn in ("None",):
                return vn
            fn = nm[2][a[1]]
            if a[2:] and fn and not fn[0].isdigit():
                return vn + "{" + ", ".join("%s: %s" % (n, s(x)) for n, x in zip(fn, a[2:])) + "}"
        return vn + ("(" + ", ".join(s(x) for x in a[2:]) + ")" if a[2:] else "")
    if o == "fld":
        nm = ADT_NAMES.get(a[1])
        if nm:
            f = nm[2][a[2]][a[3]]
            v = "" if len(nm[1]) == 1 else "as " + nm[1][a[2]] + "."
            return s(a[0]) + "." + v + f
        return "%s.%s:%s.%s" % (s(a[0]), short(a[1]), a[2], a[3])
    if o == "tfld":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "tup":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if o == "lin":
        r = " + ".join(("" if k == 1 else "-" if k == -1 else "%d*" % k) + s(x) for x, k in a[1])
        return "(" + r + (" %+d" % a[0] if a[0] else "") + ")"
    if o == "item":
        return s(a[0])
    if o == "seq":
        return "[" + ", ".join(s(p) if p.op == "item" else ".." + s(p) for p in a) + "]"
    if o == "slice":
        return "%s[%s..%s]" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "len":
        return "|%s|" % s(a[0])
    if o == "k":
        return "k%s" % a[0]
    if o == "le0":
        return "(%s <= 0)" % s(a[0])
    if o == "eq0":
        return "(%s == 0)" % s(a[0])
    if o == "eq":
        return "(%s == %s)" % (s(a[0]), s(a[1]))
    if o == "isv":
        nm = ADT_NAMES.get(a[1])
        return "(%s is %s)" % (s(a[0]), nm[1][a[2]] if nm else a[2])
    if o == "rep":
        return "rep[k%s<%s]{%s}" % (a[0], s(a[1]), " | ".join(
            (("%s => " % showfacts(g)) if g else "") + ", ".join(s(p) if p.op == "item" else ".." + s(p) for p in ps) for g, ps in a[2]))
    if o == "sum":
        return "sum[k%s<%s]{%s}" % (a[0], s(a[1]), " | ".join(
            (("%s => " % showfacts(g)) if g else "") + s(p) for g, p in a[2]))
    if o == "first":
        return "first%s#%d<%s>" % (a[0], t.id, s(a[1]))
    if o == "table":
        return "table#%d" % t.id
    if o == "mu":
        return "mu%s.%s#%d<%s>" % (a[0], a[2], t.id, s(a[1]))
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if o == "clo":
        return "closure(%s)" % short(a[0])
    if o == "fn":
        return "fn(%s)" % short(a[0])
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


def showfacts(g):
    return " & ".join(show(x) for x in g) if isinstance(g, tuple) else str(g)
