"""C11: script integers stay in range, and their arithmetic is exact or an error."""
from spec import *
from common import *
from facts import ty_short

TECHNIQUE = "abstract interpretation of MIR: every constructor, conversion, operator and comparison of script integers summarised, per operand type, and compared with checked 32-bit arithmetic"
EXPLANATION = ("Each operator is summarised with arbitrary operands, once per type its right operand can have; each path must be the exact 32-bit result within the script range, or the "
               "error that applies first, left to right.  Every place of the crate that makes an Integer is enumerated and its value shown to be in range, so no operation can meet -2^31.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std's integer arithmetic used by the analyser (sa/models.py)", "usize is 64 bits wide"]
MIN, MAX = -0x7fffffff, 0x7fffffff
INF = ("adt", "core::convert::Infallible", ())
PRIMS = ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize")
SMALL = ("i8", "u8", "i16", "u16")


def p(t):
    return ("p", t)


def ierr(var, *xs):
    return adt("IntegerError", *xs, var=var)


def inner(x):
    return fld(x, "Integer", "0")


def integer(v):
    return adt("Integer", v)


def result(r):
    return adt("IntegerResult", r)


def res_of(x):
    return Fld(x, aid("IntegerResult"), 0, 0)


def within(v, lo, hi):
    return conj([le(Int(lo), v), le(v, Int(hi))])


def new_cases(v, ty, lo=MIN, ok=integer):
    """[(guards, result, name)] of Integer::new on a value of type ty"""
    r = []
    tlo, thi = TM.RANGES[ty]
    if tlo < -2**31 or thi >= 2**31:
        out = Not(within(v, -2**31, 2**31 - 1))
        if ty == "u128":
            r += [([out, within(v, 0, 2**127 - 1)], Err(ierr("CastOverflow", v)), "not 32 bits"),
                  ([lt(Int(2**127 - 1), v)], Err(ierr("CastOverflowI128")), "not 128 bits")]
        else:
            r += [([out], Err(ierr("CastOverflow", v)), "not 32 bits")]
    inr = within(v, -2**31, 2**31 - 1)
    r.append(([within(v, lo, MAX)], Ok(ok(v)), "in range"))
    if tlo < lo:
        r.append(([inr, lt(v, Int(lo))], Err(ierr("InvalidScriptInteger", v)), "out of range"))
    return r


def check(ctx):
    constructors(ctx)
    conversions(ctx)
    arith(ctx)
    compare(ctx)
    views(ctx)
    sites(ctx)


def expect(ctx, rule, a, cases, wrap=None):
    if a:
        ctx.expect(rule, a, [Case(g, wrap(w) if wrap else w, n) for g, w, n in cases])
        ctx.no_panics("no panic", a)


def constructors(ctx):
    n = 0
    for ty, lo, ok, wrap in (("Integer", MIN, integer, None), ("UInteger", 0, lambda v: adt("UInteger", integer(v)), None), ("IntegerResult", MIN, integer, result)):
        f = inherent(ctx, "new", ty)
        if not f:
            ctx.unk("new", ty, "no constructor")
            continue
        for t in PRIMS:
            a = ctx.run(f, args=(p(t),))
            if a:
                n += 1
                expect(ctx, "new", a, new_cases(a.params[0], t, lo, ok), wrap)
    ctx.floor("constructors x source types", n, 36)


def conversions(ctx):
    n = 0
    for i, f in sorted(ctx.F.fns.items()):
        if f["crate"] != "bitcoin_cash_base" or not f.get("body") or f.get("item") not in ("from", "try_from"):
            continue
        ta = f.get("trait_args") or ()
        if len(ta) != 2:
            continue
        dst, src = ta
        D, S = ty_short(dst), (src[1] if src[0] == "p" else ty_short(src))
        if D not in ("Integer", "IntegerResult", "i32") or (D == "i32" and S not in ("Integer", "IntegerResult")):
            continue
        a = ctx.run(i)
        if not a:
            continue
        x = a.params[0]
        n += 1
        if S in TM.RANGES:
            cases = new_cases(x, S)
            if f["item"] == "from" and D == "Integer":
                cases = [(g, w.args[2], nm) for g, w, nm in cases] if S in SMALL else None
                if cases is None:
                    ctx.bad("conversion", ctx.where(i), "infallible conversion of %s: not every %s is a script integer" % (S, S))
                    continue
            expect(ctx, "conversion", a, cases, result if D == "IntegerResult" else None)
        elif D == "i32" and S == "Integer":
            expect(ctx, "conversion", a, [([], inner(x), "value")])
        elif D == "i32":
            expect(ctx, "conversion", a, [([is_ok(res_of(x))], Ok(inner(ok_of(res_of(x)))), "value"),
                                          ([Not(is_ok(res_of(x)))], Err(err_of(res_of(x))), "error")])
        elif D == "IntegerResult" and S == "Integer":
            expect(ctx, "conversion", a, [([], result(Ok(x)), "value")])
        else:
            n -= 1
            ctx.unk("conversion", ctx.where(i), "no specification of a conversion from %s" % S)
    ctx.floor("conversions", n, 24)


def right(T, x):
    """[(guards, value, None) | (guards, None, error)] of a right operand of type T"""
    if T == "Integer":
        return [([], inner(x), None)]
    if T == "IntegerResult":
        return [([is_ok(res_of(x))], inner(ok_of(res_of(x))), None), ([Not(is_ok(res_of(x)))], None, Err(err_of(res_of(x))))]
    r = []
    for g, w, n in new_cases(x, T):
        r.append((g, x, None) if n == "in range" else (g, None, w))
    return r


def arith_cases(op, a, b):
    """[(guards, result)] of a op b"""
    I32 = (-2**31, 2**31 - 1)

    def done(v, g=()):
        return [(list(g) + [within(v, MIN, MAX)], Ok(integer(v))), (list(g) + [int_eq(v, Int(-2**31))], Err(ierr("InvalidScriptInteger", v)))]
    if op in ("Add", "Sub", "Mul"):
        v = {"Add": add, "Sub": sub, "Mul": mul}[op](a, b)
        return done(v) + [([Not(within(v, *I32))], Err(ierr(op + "Overflow", a, b)))]
    if op in ("Div", "Rem"):
        v = (div if op == "Div" else rem)(a, b)
        return [([int_eq(b, ZERO)], Err(ierr({"Div": "Division", "Rem": "Modulo"}[op], a, b))), ([Not(int_eq(b, ZERO)), within(v, MIN, MAX)], Ok(integer(v)))]
    v = bitop({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], a, b)
    TYP.setdefault(v, "i32")
    return done(v)


def arith(ctx):
    types = [("Integer", ("adt", aid("Integer"), ())), ("IntegerResult", ("adt", aid("IntegerResult"), ()))] + [(t, p(t)) for t in PRIMS]
    n = 0
    for op in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor"):
        ms = methods(ctx, op.lower(), op)
        for L in ("Integer", "IntegerResult"):
            f = ms.get(L)
            if not f:
                ctx.unk("arithmetic", "%s for %s" % (op, L), "no such operator")
                continue
            for T, ty in types:
                a = ctx.run(f, args=(INF, ty), facts=lambda ps: valid(L, ps[0]) | valid(T, ps[1]))
                if not a:
                    continue
                n += 1
                s, x = a.params
                va = inner(s) if L == "Integer" else inner(ok_of(res_of(s)))
                lg = [] if L == "Integer" else [is_ok(res_of(s))]
                cases = [] if L == "Integer" else [([Not(is_ok(res_of(s)))], result(Err(err_of(res_of(s)))), "left error")]
                for g, v, e in right(T, x):
                    if v is None:
                        cases.append((lg + g, result(e), "right error"))
                    else:
                        cases += [(lg + g + ag, result(w), "%s of %s and %s" % (op, L, T)) for ag, w in arith_cases(op, va, v)]
                ctx.expect("arithmetic", a, [Case(g, w, nm) for g, w, nm in cases], cover=False)
                ctx.no_panics("no panic", a)
    ctx.floor("operators x operand types", n, 224)
    for op in ("Shl", "Shr"):
        for L in ("Integer", "IntegerResult"):
            f = methods(ctx, op.lower(), op).get(L)
            a = ctx.run(f) if f else None
            if not a:
                continue
            s, x = a.params
            va = inner(s) if L == "Integer" else inner(ok_of(res_of(s)))
            lg = [] if L == "Integer" else [is_ok(res_of(s))]
            v = typed_shift(op.lower(), va, x, "i32")
            cases = [(lg + [lt(Int(31), x)], result(Err(ierr(op + "Overflow", va, x))), "all bits out"),
                     (lg + [le(x, Int(31)), within(v, MIN, MAX)], result(Ok(integer(v))), "shifted"),
                     (lg + [le(x, Int(31)), int_eq(v, Int(-2**31))], result(Err(ierr("InvalidScriptInteger", v))), "out of range")]
            if L == "IntegerResult":
                cases.append(([Not(is_ok(res_of(s)))], result(Err(err_of(res_of(s)))), "error"))
            ctx.expect("arithmetic", a, [Case(g, w, nm) for g, w, nm in cases], cover=False)
            ctx.no_panics("no panic", a)
    for L in ("Integer", "IntegerResult"):
        f = methods(ctx, "neg", "Neg").get(L)
        a = ctx.run(f, facts=lambda ps: valid(L, ps[0])) if f else None
        if not a:
            continue
        s = a.params[0]
        if L == "Integer":
            cases = [([], integer(scale(inner(s), -1)), "negated")]
        else:
            v = inner(ok_of(res_of(s)))
            cases = [([is_ok(res_of(s))], result(Ok(integer(scale(v, -1)))), "negated"), ([Not(is_ok(res_of(s)))], result(Err(err_of(res_of(s)))), "error")]
        ctx.expect("arithmetic", a, [Case(g, w, nm) for g, w, nm in cases])
        ctx.no_panics("no panic", a)


def valid(T, x):
    """the range every Integer has (see sites)"""
    if T == "Integer":
        v = inner(x)
    elif T == "IntegerResult":
        v = inner(ok_of(res_of(x)))
    else:
        return frozenset()
    TYP.setdefault(v, "i32")
    return frozenset([le(Int(MIN), v)])


def compare(ctx):
    types = [("Integer", ("adt", aid("Integer"), ())), ("IntegerResult", ("adt", aid("IntegerResult"), ()))] + [(t, p(t)) for t in PRIMS]
    ORD = "core::cmp::Ordering"
    n = 0
    for item_, trait in (("eq", "PartialEq"), ("partial_cmp", "PartialOrd")):
        for L in ("Integer", "IntegerResult"):
            f = methods(ctx, item_, trait).get(L)
            if not f:
                ctx.unk("comparison", L, "no " + item_)
                continue
            for T, ty in types:
                if L == "Integer" and T not in ("Integer",) + SMALL:
                    continue
                a = ctx.run(f, args=(INF, ty) if L == "IntegerResult" else (ty,))
                if not a:
                    continue
                n += 1
                s, x = a.params
                va = inner(s) if L == "Integer" else inner(ok_of(res_of(s)))
                lg = [] if L == "Integer" else [is_ok(res_of(s))]
                none = FALSE if item_ == "eq" else NONE
                cases = [] if L == "Integer" else [([Not(is_ok(res_of(s)))], none, "left error")]
                for g, v, e in right(T, x):
                    if v is None:
                        cases.append((lg + g, none, "right error"))
                    elif item_ == "eq":
                        cases.append((lg + g, int_eq(va, v), "equal values"))
                    else:
                        cases += [(lg + g + [c], Some(mk("adt", ORD, k)), "order") for c, k in ((lt(va, v), 0), (int_eq(va, v), 1), (lt(v, va), 2))]
                ctx.expect("comparison", a, [Case(g, w, nm) for g, w, nm in cases], cover=False)
                ctx.no_panics("no panic", a)
    f = methods(ctx, "cmp", "Ord").get("Integer")
    a = ctx.run(f) if f else None
    if a:
        n += 1
        va, v = inner(a.params[0]), inner(a.params[1])
        ctx.expect("comparison", a, [Case([c], mk("adt", ORD, k), "order") for c, k in ((lt(va, v), 0), (int_eq(va, v), 1), (lt(v, va), 2))])
    ctx.floor("comparisons", n, 39)


def views(ctx):
    n = 0

    def one(f, cases, proj=None):
        nonlocal n
        a = ctx.run(f) if f else None
        if a:
            n += 1
            ctx.expect("view", a, [Case(g, w, "view") for g, w in cases(a)], proj=proj)
    one(inherent(ctx, "value", "Integer"), lambda a: [([], inner(a.params[0]))])
    one(inherent(ctx, "value", "UInteger"), lambda a: [([], inner(Fld(a.params[0], aid("UInteger"), 0, 0)))])
    one(inherent(ctx, "integer", "UInteger"), lambda a: [([], Fld(a.params[0], aid("UInteger"), 0, 0))])
    one(inherent(ctx, "value", "IntegerResult"), lambda a: [([is_ok(res_of(a.params[0]))], Ok(inner(ok_of(res_of(a.params[0]))))),
                                                           ([Not(is_ok(res_of(a.params[0])))], Err(err_of(res_of(a.params[0]))))])
    one(inherent(ctx, "integer", "IntegerResult"), lambda a: [([], res_of(a.params[0]))])
    one(methods(ctx, "deref", "Deref").get("Integer"), lambda a: [([], inner(a.params[0]))])
    one(methods(ctx, "default", "Default").get("Integer"), lambda a: [([], integer(ZERO))])
    one(methods(ctx, "default", "Default").get("IntegerResult"), lambda a: [([], result(Ok(integer(ZERO))))])
    one(methods(ctx, "fmt", "Display").get("Integer"), lambda a: [([], call("fmtwrite", a.params[1], mk("disp", inner(a.params[0]))))])
    for ty in ("Integer", "UInteger"):
        w = (lambda x: x) if ty == "Integer" else (lambda x: Fld(x, aid("UInteger"), 0, 0))
        mkv = integer if ty == "Integer" else (lambda v: adt("UInteger", integer(v)))
        lo = MIN if ty == "Integer" else 0
        one(methods(ctx, "serialize", "Serialize").get(ty), lambda a: [([], call("Serialize::serialize", inner(w(a.params[0])), a.params[1]))])
        f = methods(ctx, "deserialize", "Deserialize").get(ty)
        a = ctx.run(f) if f else None
        if a:
            n += 1
            r = call("Deserialize::deserialize", a.params[0])
            v = ok_of(r)
            TYP.setdefault(v, "i32")
            ctx.expect("view", a, [Case([Not(is_ok(r))], Err(err_of(r)), "not a number"), Case([is_ok(r), le(Int(lo), v)], Ok(mkv(v)), "in range"),
                                   Case([is_ok(r), lt(v, Int(lo))], ERR, "out of range")])
    ctx.floor("views", n, 13)


def each_aggregate(b):
    """the types of the values a body builds field by field"""
    for bl in b["blocks"]:
        for st in bl["s"]:
            if st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "adt":
                yield st[2][1][1]


def sites(ctx):
    """every place that makes an Integer or a UInteger"""
    ids = {aid("Integer"): MIN, aid("UInteger"): 0}
    n = 0
    for i, f in sorted(ctx.F.fns.items()):
        b = f.get("body")
        if not b or f.get("test"):
            continue
        made = set()
        for t in each_aggregate(b):
            if t in ids:
                made.add(t)
        if not made:
            continue
        if i in ctx.fns and ("{closure" in i or f.get("item") == "new"):
            n += 1
            ctx.ok("range", ctx.where(i), "specified exactly by the constructors' rule")
            continue
        a = ctx.run(i, facts=lambda ps: valid(ty_short(f["impl_self"]), ps[0]) if ps and f.get("impl_self") else frozenset())
        if not a:
            continue
        n += 1
        for o in a.outcomes:
            for x in atoms(o.ret):
                if x.op == "adt" and x.args[0] == aid("Integer"):
                    v = x.args[2]
                    lo = MIN
                    ok = entails(o.facts, le(Int(lo), v)) is True and entails(o.facts, le(v, Int(MAX))) is True
                    if not ok and fuzzy(v, set(a.params), PURE) is not None:
                        ctx.unk("range", ctx.where(i), "makes Integer(%s)" % show(v))
                    else:
                        ctx.check(ok, "range", ctx.where(i), "makes Integer(%s)" % show(v))
    ctx.floor("functions that make an Integer", n, 8)
