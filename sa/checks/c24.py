"""C24: values reach scripts unchanged: the data, push and type each value becomes."""
from spec import *
from common import *
import terms as TM

TECHNIQUE = "abstract interpretation of MIR: value-provenance summaries of every conversion compared with its specification"
EXPLANATION = ("Every implementation of BitcoinDataType (to_data, to_pushop, to_data_type), the conversions between operations, stack items and patterns, the constructors and wrappers of "
               "tagged operations and scripts, and the hand-written equalities are summarised as (path facts, result over the arguments) and compared with the value they must carry over.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "derived PartialEq and Clone compare and copy every field", "the models of std used by the analyser (sa/models.py)"]

DIG = ("Sha1", "Ripemd160", "Sha256", "Sha256d", "Hash160")


def ARR(b, var="PushByteArray"):
    A = aid("Op")
    v = variant(A, var)
    fs = [None, None]
    fs[fieldno(A, v, "array")] = b
    fs[fieldno(A, v, "is_minimal")] = ONE
    return Adt(A, v, *fs)


def one(ctx, rule, f, cases, allow=(), **kw):
    """a function with its specification"""
    if not f:
        return ctx.unk(rule, rule, "no such function")
    a = ctx.run(f, **kw)
    if not a:
        return
    ctx.expect(rule, a, cases(a))
    ctx.no_panics(rule + "-total", a, allow=list(allow))


def data_types(ctx):
    M = {m: methods(ctx, m, "BitcoinDataType") for m in ("to_data", "to_pushop", "to_data_type")}
    n = 0
    inner = lambda x, ty: Fld(x, aid(ty), 0, 0)
    DT = lambda v, *a: adt("DataType", *a, var=v)
    arrays = {}
    for t in DIG:
        arrays[t] = (lambda x, t=t: fld(inner(x, t), "FixedByteArray", "byte_array")), (lambda b: [Some(Len(b))])
    arrays["Pubkey"] = (lambda x: inner(x, "Pubkey")), (lambda b: [Some(Int(33))])
    arrays["[T]"] = (lambda x: x), (lambda b: [NONE])
    arrays["ByteArray"] = (lambda x: x), (lambda b: [Some(Len(b))])
    seen = set()
    for t, (get, kind) in arrays.items():
        k = {m: M[m].get(t) for m in M}
        if not all(k.values()):
            continue
        seen.add(t)
        one(ctx, "data", k["to_data"], lambda a: [Case([], adt("BitcoinByteArray", get(a.params[0])), t)])
        one(ctx, "push", k["to_pushop"], lambda a: [Case([], ARR(get(a.params[0])), t)])
        one(ctx, "kind", k["to_data_type"], lambda a: [Case([], DT("ByteArray", *kind(get(a.params[0]))), t)])
    ser = methods(ctx, "ser", "BitcoinCode").get("TxPreimage")
    if ser:
        k = {m: M[m].get("TxPreimage") for m in M}
        s = lambda a: preimage(ctx, ser, a)
        if all(k.values()):
            seen.add("TxPreimage")
            one(ctx, "data", k["to_data"], lambda a: [Case([], adt("BitcoinByteArray", s(a)), "TxPreimage")], opaque=(ser,))
            one(ctx, "push", k["to_pushop"], lambda a: [Case([], ARR(s(a)), "TxPreimage")], opaque=(ser,))
            one(ctx, "kind", k["to_data_type"], lambda a: [Case([], DT("ByteArray", NONE), "TxPreimage")])
    # numbers: any invalid one must not become data
    INT = lambda t: adt("Integer", t)
    R = lambda x: Fld(x, aid("IntegerResult"), 0, 0)
    low = Int(-2**31)
    for t in ("Integer", "IntegerResult", "i32"):
        k = {m: M[m].get(t) for m in M}
        if not all(k.values()):
            continue
        seen.add(t)
        val = {"Integer": lambda x: x, "IntegerResult": lambda x: ok_of(R(x)), "i32": lambda x: INT(x)}[t]
        g = {"Integer": lambda x: [], "IntegerResult": lambda x: [is_ok(R(x))], "i32": lambda x: [lt(low, x)]}[t]
        allow = [] if t == "Integer" else [lambda o: "expect" in o.kind or "unwrap" in o.kind]
        for m, rule, w in (("to_data", "data", lambda v: adt("BitcoinInteger", v)), ("to_pushop", "push", lambda v: adt("Op", v, var="PushInteger"))):
            one(ctx, rule, k[m], lambda a: [Case(g(a.params[0]), w(val(a.params[0])), t)], allow)
        one(ctx, "kind", k["to_data_type"], lambda a: [Case([], DT("Integer"), t)])
    k = {m: M[m].get("bool") for m in M}
    if all(k.values()):
        seen.add("bool")
        one(ctx, "data", k["to_data"], lambda a: [Case([], adt("BitcoinBoolean", a.params[0]), "bool")])
        one(ctx, "push", k["to_pushop"], lambda a: [Case([], adt("Op", a.params[0], var="PushBoolean"), "bool")])
        one(ctx, "kind", k["to_data_type"], lambda a: [Case([], DT("Boolean"), "bool")])
    ctx.floor("types of data", len(seen), 13)


def preimage(ctx, ser, a):
    """what the opaque encoder is called in this summary"""
    return call("TxPreimage::ser", a.params[0])


OPV = ("Code", "Invalid", "PushBoolean", "PushInteger", "PushByteArray")


def payload(x, v):
    A = aid("Op")
    i = variant(A, v)
    return Fld(x, A, i, fieldno(A, i, "array") if v == "PushByteArray" else 0)


def conversions(ctx):
    panics = [lambda o: True]
    f = [i for i in methods_named(ctx, "from", "From") if "StackItemData" in str(ctx.F.fns[i].get("impl_self")) and "op::Op" in str(ctx.F.fns[i].get("trait_args") or ctx.F.fns[i]["sig_in"])]
    for i in f:
        SI = lambda v, x: adt("StackItemData", x, var=v)
        one(ctx, "stack-item", i, lambda a: [Case([isvar(a.params[0], "Op", v)], SI(w, payload(a.params[0], v)), v)
                                             for v, w in (("PushBoolean", "Boolean"), ("PushInteger", "Integer"), ("PushByteArray", "ByteArray"))], panics)
    g = [i for i in methods_named(ctx, "from", "From") if "PatternOp" in str(ctx.F.fns[i].get("impl_self"))]
    for i in g:
        one(ctx, "pattern", i, lambda a: [Case([isvar(a.params[0], "Op", v)], adt("PatternOp", payload(a.params[0], v), var=w), v)
                                          for v, w in zip(OPV, ("Code", "Invalid", "Bool", "Int", "Array"))])
    h = [i for i in methods_named(ctx, "from", "From") if str(ctx.F.fns[i].get("impl_self")).find("op::Op'") >= 0 and "ByteArray" in str(ctx.F.fns[i]["sig_in"])]
    for i in h:
        one(ctx, "push", i, lambda a: [Case([], ARR(a.params[0]), "byte array")])
    d = [i for i in methods_named(ctx, "from", "From") if "byte_array::ByteArray" in str(ctx.F.fns[i].get("impl_self")) and "hash::" in str(ctx.F.fns[i]["sig_in"])]
    for i in d:
        ty = next((t for t in DIG if "hash::%s'" % t in str(ctx.F.fns[i]["sig_in"])), None)
        if ty:
            one(ctx, "digest-bytes", i, lambda a: [Case([], fld(Fld(a.params[0], aid(ty), 0, 0), "FixedByteArray", "byte_array"), ty)])
    ctx.floor("conversions", len(f) + len(g) + len(h) + len(d), 8)
    f = inherent(ctx, "to_byte_array", "Op")
    one(ctx, "array-of", f, lambda a: [Case([isvar(a.params[0], "Op", "PushByteArray")], Some(payload(a.params[0], "PushByteArray")), "array"),
                                       Case([Not(isvar(a.params[0], "Op", "PushByteArray"))], NONE, "anything else")])
    f = inherent(ctx, "from_array", "Op")
    a = f and ctx.run(f)
    if a:
        for o in a.outcomes:
            A = aid("Op")
            i = variant(A, "PushByteArray")
            r = o.ret
            if r.op == "adt" and r.args[0] == A:
                ctx.check(r.args[1] == i and r.args[2 + fieldno(A, i, "is_minimal")] is ONE and a.params[0] in atoms(r.args[2 + fieldno(A, i, "array")]), "push", ctx.where(f),
                          "an array is pushed in the shortest form; yields %s" % clip(show(r)))
            else:
                ctx.unk("push", ctx.where(f), "yields %s" % clip(show(r)))


def methods_named(ctx, item, trait):
    return [i for i, f in ctx.F.fns.items() if f.get("item") == item and f.get("body") and (f.get("trait") or "").split("::")[-1] == trait]


def equalities(ctx):
    E = methods(ctx, "eq", "PartialEq")

    def cases(x, y):
        cs = []
        for v in OPV:
            for w in OPV:
                p, q = payload(x, v), payload(y, v)
                g = [isvar(x, "Op", v), isvar(y, "Op", w)]
                if v != w:
                    cs.append(Case(g, ZERO, "%s and %s" % (v, w)))
                elif v == "Code":
                    cs.append((g, p, q))
                elif v == "PushInteger":
                    A = aid("Integer")
                    cs.append(Case(g, int_eq(Fld(p, A, 0, 0), Fld(q, A, 0, 0)), v))
                elif v == "PushByteArray":
                    cs.append(Case(g, TM.teq(p, q), v))
                else:
                    cs.append(Case(g, int_eq(p, q), v))
        return cs

    for ty in ("Op", "TaggedOp"):
        f = E.get(ty)
        a = f and ctx.run(f)
        if not a:
            ctx.unk("equality", ty, "no PartialEq")
            continue
        x, y = [p if ty == "Op" else fld(p, "TaggedOp", "op") for p in a.params[:2]]
        cs = cases(x, y)
        ctx.expect("equality", a, [c for c in cs if isinstance(c, Case)], cover=False)
        ctx.no_panics("equality-total", a)
    codes(ctx, E)


def codes(ctx, E):
    """equality of two opcodes / unknown codes, decided for pairs of values"""
    A, O = aid("Op"), aid("Opcode")
    f = E.get("Op")
    if not f:
        return
    n = len(ctx.F.adts[O]["variants"])
    code = lambda i: Adt(A, variant(A, "Code"), Adt(O, i))
    for i in range(n):
        for j in {i, (i + 1) % n, (i * 7 + 3) % n}:
            a = ctx.run(f, argv={0: code(i), 1: code(j)})
            if not a:
                return
            rs = {canon(o.ret) for o in a.outcomes}
            if not rs <= {ZERO, ONE, TRUE, FALSE}:
                ctx.unk("equality", ctx.where(f), "opcodes %d and %d: %s" % (i, j, clip(show(list(rs)[0]))))
                return
            ctx.check((i == j) == (rs <= {ONE, TRUE}) and len(rs) == 1, "equality", ctx.where(f), "%s and %s compare %s" % (
                ctx.F.adts[O]["variants"][i]["name"], ctx.F.adts[O]["variants"][j]["name"], "equal" if rs <= {ONE, TRUE} else "different"), "equality|codes")


def wrappers(ctx):
    T = lambda x, n: fld(x, "TaggedOp", n)
    f = inherent(ctx, "from_op", "TaggedOp")
    one(ctx, "wrapped", f, lambda a: [Case([], struct("TaggedOp", op=a.params[0], **{k: ANY for k in ("src_file", "src_line", "src_column", "src_code", "pushed_names", "alt_pushed_names")}), "the operation")])
    f = inherent(ctx, "named", "TaggedOp")
    one(ctx, "wrapped", f, lambda a: [Case([], struct("TaggedOp", pushed_names=ANY, **{k: T(a.params[0], k) for k in ("op", "src_file", "src_line", "src_column", "src_code", "alt_pushed_names")}), "only the name differs")])
    N = methods(ctx, "named", "Hashed")
    for t in DIG:
        if t in N:
            one(ctx, "wrapped", N[t], lambda a: [Case([], adt(t, struct("FixedByteArray", phantom=ANY, byte_array=fld(Fld(a.params[0], aid(t), 0, 0), "FixedByteArray", "byte_array"))), t)])
    f = [i for i in methods_named(ctx, "from", "From") if "script::Script'" in str(ctx.F.fns[i].get("impl_self")) and "TaggedScript" in str(ctx.F.fns[i]["sig_in"])]
    for i in f:
        one(ctx, "script", i, lambda a: [Case([], struct("Script", ops=fld(a.params[0], "TaggedScript", "tagged_ops")), "its operations")])
    f = methods(ctx, "ops", "Ops").get("Script")
    one(ctx, "script", f, lambda a: [Case([], fld(a.params[0], "Script", "ops"), "its operations")])
    f = methods(ctx, "ops", "Ops").get("TaggedScript")
    if f:
        one(ctx, "script", f, lambda a: [Case([], fld(a.params[0], "TaggedScript", "tagged_ops"), "its operations")])
    for m, w in (("new", lambda a: a.params[0]), ("ops_arc", None)):
        f = inherent(ctx, m, "Script")
        one(ctx, "script", f, lambda a: [Case([], struct("Script", ops=a.params[0]) if w else fld(a.params[0], "Script", "ops"), "its operations")])
    ops = lambda x: fld(x, "TaggedScript", "tagged_ops")
    tagged = lambda t: struct("TaggedScript", tagged_ops=t, input_params=ANY)
    one(ctx, "script", inherent(ctx, "new", "TaggedScript"), lambda a: [Case([], tagged(a.params[0]), "its operations")])
    one(ctx, "script", inherent(ctx, "script", "TaggedScript"), lambda a: [Case([], struct("Script", ops=ops(a.params[0])), "its operations")])
    one(ctx, "script", methods(ctx, "clone", "Clone").get("TaggedScript"), lambda a: [Case([], a.params[0], "the same script"), ])
    f = inherent(ctx, "from_ops", "Script")
    a = f and ctx.run(f)
    if a:
        it = struct("TaggedOp", op=Idx(a.params[0], mk("k", 0)), **{k: ANY for k in ("src_file", "src_line", "src_column", "src_code", "pushed_names", "alt_pushed_names")})
        ctx.expect("script", a, [Case([], struct("Script", ops=Seq(Rep(0, Len(a.params[0]), (((), (item(it),)),)))), "every operation in order")])


def check(ctx):
    data_types(ctx)
    conversions(ctx)
    equalities(ctx)
    wrappers(ctx)
