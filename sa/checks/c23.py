"""C23: script numbers and their bytes correspond: minimal sign-magnitude, both ways."""
import itertools
from spec import *
from common import *
import terms as TM

TECHNIQUE = "abstract interpretation of MIR over symbolic bytes, then a partition of each byte into sign classes: every path's condition and result decided per class"
EXPLANATION = ("encode_int is summarised for a number whose magnitude consists of four arbitrary bytes, positive and negative; each path's condition is decided for every "
               "combination of the classes 0, 1..127, 128, 129..255 of those bytes (a condition on one byte is decided by all values of its class), and the bytes returned are "
               "compared with the minimal sign-magnitude form.  vec_to_int is summarised for arrays of up to five arbitrary bytes and every term of its result is compared with the "
               "weight the byte has.  Booleans are compared directly.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std / byteorder used by the analyser (sa/models.py)"]
CLASSES = {"0": range(0, 1), "1..127": range(1, 128), "128": range(128, 129), "129..255": range(129, 256)}
B = [Var("byte%d" % i) for i in range(8)]


def vars_of(t):
    return {x for x in atoms(t) if x in B}


class Pointwise:
    """terms in bytes of known classes"""
    def __init__(self):
        self.memo = {}

    def at(self, t, v, n):
        k = (t, v, n)
        if k not in self.memo:
            self.memo[k] = canon(subst(t, {v: Int(n)}))
        return self.memo[k]

    def fact(self, f, cls):
        """True, False, "some" or None (unknown) over the classes of the bytes"""
        for v in list(vars_of(f)):
            if len(cls[v]) == 1:
                f = self.at(f, v, cls[v][0])
        vs = vars_of(f)
        if f is TRUE or f is FALSE:
            return f is TRUE
        if f.op == "assumed":
            return self.fact(f.args[0], cls)
        if len(vs) != 1:
            return True if bounded(self, f) else None
        v, = vs
        k = (f, v, cls[v])
        if k not in self.memo:
            r = {self.at(f, v, n) for n in cls[v]}
            self.memo[k] = True if r == {TRUE} else False if r == {FALSE} else "some" if r <= {TRUE, FALSE} else None
        return self.memo[k]

    def same(self, a, b, cls):
        """are two terms equal wherever the bytes are in their classes: True, False or None"""
        for v in vars_of(a) | vars_of(b):
            if len(cls[v]) == 1:
                a, b = self.at(a, v, cls[v][0]), self.at(b, v, cls[v][0])
        if a is b:
            return True
        vs = vars_of(a) | vars_of(b)
        if len(vs) > 1:
            # different bytes: compared where they differ most
            e = {v: Int(cls[v][0]) for v in vs}, {v: Int(cls[v][-1]) for v in vs}
            r = [(canon(subst(a, x)), canon(subst(b, x))) for x in e]
            return False if any(x.op == y.op == "int" and x is not y for x, y in r) else None
        for v in vs:
            k = (a, b, v, cls[v])
            if k not in self.memo:
                r = [(self.at(a, v, n), self.at(b, v, n)) for n in cls[v]]
                self.memo[k] = True if all(x is y for x, y in r) else False if any(x.op == y.op == "int" and x is not y for x, y in r) else None
            return self.memo[k]
        return False if a.op == b.op == "int" else None


def minimal(cls, neg):
    """the specified bytes of the magnitude byte0..byte3 in their classes: terms"""
    n = 4
    while n and cls[B[n - 1]] == CLASSES["0"]:
        n -= 1
    if n == 0:
        return []
    xs = list(B[:n])
    if cls[xs[-1]][0] >= 128:
        return xs + [Int(128 if neg else 0)]
    return xs[:-1] + [add(xs[-1], Int(128)) if neg else xs[-1]]


def listed(t):
    """the elements of a sequence of known length"""
    if t.op == "seq" and all(p.op == "item" for p in t.args):
        return [p.args[0] for p in t.args]
    return None


def encoder(ctx, f):
    w = ctx.where(f)
    P = Pointwise()
    S = Seq(*[item(b) for b in B[:4]])
    for b in B:
        TM.TYP.setdefault(b, "u8")
    m = unle(4, S, "i32")
    count = 0
    for neg in (False, True):
        x = TM.sub(ZERO, m) if neg else m
        base = [le(B[3], Int(127)), le(x, Int(-1)) if neg else le(ZERO, x)]
        a = ctx.run(f, argv={0: x}, facts=frozenset(base))
        if not a:
            continue
        ctx.no_panics("encode-total", a, allow=[lambda o: "abs" in o.kind])
        for names in itertools.product(CLASSES, repeat=4):
            if names[3] in ("128", "129..255") or neg and set(names) == {"0"}:
                continue
            cls = {b: CLASSES[n] for b, n in zip(B, names)}
            want = minimal(cls, neg)
            text = "%s number with magnitude bytes %s" % ("negative" if neg else "positive", ", ".join(names))
            met = 0
            for o in a.outcomes:
                fs = [P.fact(g, cls) for g in o.facts if m not in atoms(g) and canon(g) not in (TRUE,)]
                if False in fs:
                    continue
                unsure = None in fs or "some" in fs and None in fs
                got = listed(o.ret)
                met += 1
                if got is None:
                    ctx.unk("encode", w, "%s: yields %s" % (text, clip(show(o.ret))))
                    continue
                r = [len(got) == len(want)] if len(got) != len(want) else [P.same(g, h, cls) for g, h in zip(got, want)]
                d = "%s: yields %s, specified [%s]" % (text, clip(show(o.ret)), ", ".join(map(show, want)))
                count += 1
                if all(y is True for y in r):
                    ctx.ok("encode", w, d)
                else:
                    (ctx.bad if False in r and not unsure else ctx.unk)("encode", w, d)
            if not met:
                ctx.bad("encode", w, "%s: no path yields its bytes" % text)
    ctx.floor("classes of numbers", count, 200)


def decoder(ctx, f):
    w = ctx.where(f)
    P = Pointwise()
    count = 0
    for n in range(6):
        S = Seq(*[item(b) for b in B[:n]])
        a = ctx.run(f, argv={0: S})
        if not a:
            continue
        for o in a.I.obl.values():
            (ctx.ok if o.ok or all(bounded(P, x) for x in o.needs) else ctx.unk)("decode-total", "%s (%s)" % (o.fn, o.span), "%s: needs %s" % (o.kind, clip(o.why, 200)))
        for names in itertools.product(CLASSES, repeat=n) if n < 5 else wide(n):
            cls = {b: CLASSES[x] for b, x in zip(B, names)}
            text = "bytes %s" % ", ".join(names) if n else "no bytes"
            # does the magnitude have 31 bits
            top = cls[B[n - 1]] if n else None
            fits = n <= 4 or all(cls[B[i]] == CLASSES["0"] for i in range(4, n - 1)) and top in (CLASSES["0"], CLASSES["128"]) and cls[B[3]][-1] <= 127
            met = 0
            for o in a.outcomes:
                fs = [P.fact(g, cls) for g in o.facts if canon(g) is not TRUE]
                if False in fs:
                    continue
                unsure = None in fs
                met += 1
                count += 1
                if o.ret.op != "adt" or o.ret.args[0] != RESULT:
                    ctx.unk("decode", w, "%s: yields %s" % (text, clip(show(o.ret))))
                    continue
                if o.ret.args[1] == 1:
                    (ctx.ok if not fits or n > 4 else ctx.unk if unsure else ctx.bad)("decode", w, "%s: is an error" % text)
                    continue
                if not fits:
                    (ctx.unk if unsure else ctx.bad)("decode", w, "%s: yields %s, does not fit" % (text, clip(show(o.ret))))
                    continue
                r = value(P, o.ret.args[2], cls, n)
                d = "%s: yields %s" % (text, clip(show(o.ret), 200))
                (ctx.ok if r is True else ctx.bad if r is False and not unsure else ctx.unk)("decode", w, d)
            if not met:
                fails = [o for o in a.I.obl.values() if not o.ok and any(x is not None and canon(x) is FALSE for x in o.needs)]
                (ctx.bad if fails else ctx.unk)("decode", w, "%s: no result%s" % (text, "; %s at %s fails" % (fails[0].kind, fails[0].span) if fails else ""))
    ctx.floor("classes of arrays", count, 300)


def wide(n):
    """classes of arrays that may or may not fit"""
    for last in CLASSES:
        for mid in CLASSES:
            for low in ("0", "1..127", "129..255"):
                yield ("1..127", "0", "129..255", low) + (mid,) * (n - 5) + (last,)


def value(P, t, cls, n):
    """is t the number the bytes stand for: the sum over the bytes, each decided for all values of its class"""
    t = canon(t)
    if not separable(t):
        return None
    f = table(P, t)
    if f is None:
        return None
    base, f = f
    neg = n and cls[B[n - 1]][0] >= 128
    spec = lambda i, x: (-1 if neg else 1) * ((x & 0x7f if neg and i == n - 1 else x) << 8 * i)
    if base + sum(f[i][cls[B[i]][0]] if i in f else 0 for i in range(n)) != sum(spec(i, cls[B[i]][0]) for i in range(n)):
        return False
    for i in range(n):
        c = cls[B[i]]
        at = lambda x: f[i][x] if i in f else 0
        if any(at(x) - at(c[0]) != spec(i, x) - spec(i, c[0]) for x in c):
            return False
    return True


def table(P, t):
    """(constant, {byte: what each of its values adds}) of a sum of terms in one byte each"""
    k = ("table", t)
    if k not in P.memo:
        base = canon(subst(t, {v: ZERO for v in B}))
        r = (base.args[0], {}) if base.op == "int" else None
        for i, v in enumerate(B):
            if r is None or v not in vars_of(t):
                continue
            one = canon(subst(t, {u: ZERO for u in B if u is not v}))
            xs = [P.at(one, v, x) for x in range(256)]
            if any(x.op != "int" for x in xs):
                r = None
            else:
                r[1][i] = [x.args[0] - base.args[0] for x in xs]
        P.memo[k] = r
    return P.memo[k]


def separable(t):
    if len(vars_of(t)) <= 1:
        return True
    if t.op == "lin":
        return all(separable(x) for x in atoms_of_lin(t))
    return False


def atoms_of_lin(t):
    r = []
    for x in t.args:
        for y in x if isinstance(x, tuple) else (x,):
            for z in y if isinstance(y, tuple) else (y,):
                if is_t(z):
                    r.append(z)
    return r


def bounded(P, t):
    """does a bound on a sum hold for all bytes: every term at its largest and smallest"""
    if t is None:
        return False
    if t.op == "band":
        return all(bounded(P, x) for x in t.args)
    if t.op == "le0":
        r = span(P, t.args[0])
        return r is not None and r[1] <= 0
    if t.op == "not" and t.args[0].op == "eq0":
        r = span(P, t.args[0].args[0])
        return r is not None and (r[0] > 0 or r[1] < 0)
    return t is TRUE


def span(P, s):
    """the range of a sum of terms in one byte each"""
    f = table(P, s) if separable(s) else None
    if f is None:
        return None
    return f[0] + sum(min(x) for x in f[1].values()), f[0] + sum(max(x) for x in f[1].values())


def trimmed(cls, n):
    """the specified minimal form of n bytes in their classes"""
    xs = list(B[:n])
    if not n or cls[xs[-1]] in (CLASSES["1..127"], CLASSES["129..255"]):
        return xs
    sign = cls[xs[-1]][0]
    while n > 1 and cls[B[n - 2]] == CLASSES["0"]:
        n -= 1
    if n == 1:
        return []           # zero of either sign
    last = B[n - 2]
    if cls[last][0] >= 128:
        return list(B[:n - 1]) + [Int(sign)]
    return list(B[:n - 2]) + [add(last, Int(sign))]


def minimiser(ctx, f):
    w = ctx.where(f)
    P = Pointwise()
    count = 0
    for n in range(6):
        a = ctx.run(f, argv={0: Seq(*[item(b) for b in B[:n]])})
        if not a:
            continue
        for o in a.I.obl.values():
            (ctx.ok if o.ok or all(bounded(P, x) for x in o.needs) else ctx.unk)("minimise-total", "%s (%s)" % (o.fn, o.span), "%s: needs %s" % (o.kind, clip(o.why, 200)))
        for names in itertools.product(CLASSES, repeat=n):
            cls = {b: CLASSES[x] for b, x in zip(B, names)}
            want = trimmed(cls, n)
            text = "bytes %s" % ", ".join(names) if n else "no bytes"
            met = 0
            for o in a.outcomes:
                fs = [P.fact(g, cls) for g in o.facts if canon(g) is not TRUE]
                if False in fs:
                    continue
                unsure = None in fs
                met += 1
                count += 1
                t = [v for v in o.mem.values() if is_t(v)]
                got = listed(t[0]) if len(t) == 1 else None
                if got is None:
                    ctx.unk("minimise", w, "%s: leaves %s" % (text, clip("; ".join(map(show, t)))))
                    continue
                r = [False] if len(got) != len(want) else [P.same(g, h, cls) for g, h in zip(got, want)]
                d = "%s: leaves %s, specified [%s]" % (text, clip(show(t[0])), ", ".join(map(show, want)))
                (ctx.ok if all(y is True for y in r) else ctx.bad if False in r and not unsure else ctx.unk)("minimise", w, d)
            if not met:
                # no way through: it is a panic when something needed is known not to hold
                fails = [o for o in a.I.obl.values() if not o.ok and any(x is not None and canon(x) is FALSE for x in o.needs)]
                (ctx.bad if fails else ctx.unk)("minimise", w, "%s: no result%s" % (text, "; %s at %s fails" % (fails[0].kind, fails[0].span) if fails else ""))
    ctx.floor("classes of arrays to minimise", count, 1000)


def check(ctx):
    f = ctx.one("encoding_utils::encode_minimally")
    if f:
        minimiser(ctx, f)
    f = ctx.one("encoding_utils::encode_int")
    if f:
        encoder(ctx, f)
    f = ctx.one("encoding_utils::vec_to_int")
    if f:
        decoder(ctx, f)
    f = ctx.one("encoding_utils::encode_bool")
    if f:
        a = ctx.run(f)
        if a:
            ctx.expect("boolean", a, [Case([a.params[0]], Bytes([1]), "true"), Case([Not(a.params[0])], EMPTY, "false")])
