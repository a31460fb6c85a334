"""C05: every script operation has its consensus byte form, pushes with the prescribed prefix."""
from spec import *
from common import *

TECHNIQUE = "abstract interpretation of MIR: per-path summaries compared with the push-prefix table"
EXPLANATION = ("serialize_op is summarised with all private helpers inlined (only the integer encoder stays uninterpreted) and every path is "
               "compared with the table: opcode byte, boolean, small integers, direct push up to 75 bytes, PUSHDATA1/2/4 with little-endian "
               "lengths at their exact boundaries, minimal single-byte forms; the script forms are then the in-order concatenation of the "
               "operations, length-prefixed on the wire.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std / byteorder used by the analyser (sa/models.py)"]

OPNAMES = ("OP_0", "OP_PUSHDATA1", "OP_PUSHDATA2", "OP_PUSHDATA4", "OP_1NEGATE", "OP_1")


def discr_of(name):
    """the byte of an opcode, from the enum itself"""
    F = load_facts("main")
    for v in F.adts[aid("Opcode")]["variants"]:
        if v["name"] == name:
            return v["discr"]
    return None


def prefix_cases(D):
    """[(guards, bytes, name)] of a push of D with the smallest prefix, without the one-byte and empty forms"""
    L = Len(D)
    return [
        ([le(L, Int(0x4b))], Seq(item(L), D), "direct push"),
        ([le(Int(0x4c), L), le(L, Int(0xff))], Seq(item(Int(76)), item(L), D), "PUSHDATA1"),
        ([le(Int(0x100), L), le(L, Int(0xffff))], Seq(item(Int(77)), LeB(2, L), D), "PUSHDATA2"),
        ([le(Int(0x10000), L), le(L, Int(0xffffffff))], Seq(item(Int(78)), LeB(4, L), D), "PUSHDATA4"),
    ]


def push_cases(D, minimal):
    """minimal: a boolean term"""
    L = Len(D)
    d0 = Idx(D, ZERO)
    cs = [
        Case([minimal, le(L, ZERO)], Ok(Bytes([0])), "minimal push of nothing"),
        Case([Not(minimal), le(L, ZERO)], Ok(Bytes([76, 0])), "explicit push of nothing"),
        Case([minimal, int_eq(L, ONE), le(ONE, d0), le(d0, Int(16))], Ok(Seq(item(add(d0, Int(80))))), "minimal push of a small number"),
        Case([minimal, int_eq(L, ONE), int_eq(d0, Int(0x81))], Ok(Bytes([79])), "minimal push of -1"),
        Case([minimal, int_eq(L, ONE), int_eq(d0, ZERO)], Ok(Seq(item(ONE), D)), "push of one zero byte"),
        Case([minimal, int_eq(L, ONE), le(Int(17), d0), Not(int_eq(d0, Int(0x81)))], Ok(Seq(item(ONE), D)), "push of another byte"),
        Case([Not(minimal), int_eq(L, ONE)], Ok(Seq(item(ONE), D)), "explicit push of one byte"),
        Case([le(Int(0x100000000), L)], ERR, "too long"),
    ]
    for g, b, nm in prefix_cases(D):
        cs.append(Case(g + [le(Int(2), L)], Ok(b), nm))
    return cs


def op_cases(x):
    OP = "Op"
    cs = [Case([isvar(x, OP, "Code")], Ok(Seq(item(mk("discr", Fld(x, aid(OP), variant(aid(OP), "Code"), 0), aid("Opcode"))))), "opcode"),
          Case([isvar(x, OP, "Invalid")], Ok(Seq(item(Fld(x, aid(OP), variant(aid(OP), "Invalid"), 0)))), "unassigned opcode")]
    b = Fld(x, aid(OP), variant(aid(OP), "PushBoolean"), 0)
    TM.TYP.setdefault(b, "bool")
    cs += [Case([isvar(x, OP, "PushBoolean"), b], Ok(Bytes([81])), "true"),
           Case([isvar(x, OP, "PushBoolean"), Not(b)], Ok(Bytes([0])), "false")]
    i = Fld(Fld(x, aid(OP), variant(aid(OP), "PushInteger"), 0), aid("Integer"), 0, 0)
    TM.TYP.setdefault(i, "i32")
    g = [isvar(x, OP, "PushInteger")]
    cs += [Case(g + [int_eq(i, Int(-1))], Ok(Bytes([79])), "-1"), Case(g + [int_eq(i, ZERO)], Ok(Bytes([0])), "0"),
           Case(g + [le(ONE, i), le(i, Int(16))], Ok(Seq(item(add(i, Int(80))))), "1..16")]
    E = call("encode_int", i)
    for c in push_cases(E, TRUE):
        if c.guards[0] is FALSE or any(h is FALSE for h in c.guards):
            continue
        for h in ([le(i, Int(-2)), le(Int(-0x7fffffff), i)], [le(Int(17), i)]):
            cs.append(Case(g + h + [y for y in c.guards if y is not TRUE], c.want, "other integer: " + c.name))
    D = fld(x, OP, "array", var="PushByteArray")
    m = fld(x, OP, "is_minimal", var="PushByteArray")
    TM.TYP.setdefault(m, "bool")
    for c in push_cases(D, m):
        cs.append(Case([isvar(x, OP, "PushByteArray")] + c.guards, c.want, "bytes: " + c.name))
    return cs


def check(ctx):
    f = ctx.one("script::serialize_op")
    if f:
        a = ctx.run(f, opaque=("encode_int",))
        if a:
            ctx.expect("operation", a, op_cases(a.params[0]), calls=["encode_int"])
            # the only partial step is the integer that cannot be constructed
            ctx.no_panics("operation-total", a, allow=[lambda o: unconstructible(o)])
        # the short forms, one integer at a time
        for n in range(-2, 19):
            x = adt("Op", mk("adt", aid("Integer"), 0, Int(n)), var="PushInteger")
            a = ctx.run(f, argv={0: x})
            w = [79] if n == -1 else [0] if n == 0 else [80 + n] if 0 < n <= 16 else [1, n] if n > 0 else [1, 0x80 - n]
            ctx.expect("short-form", a, [Case([], Ok(Bytes(w)), "integer %d" % n)])
    f = ctx.one("script::serialize_ops")
    SO = "serialize_op"
    if f:
        F = ctx.F
        vec = next((t for fn in F.fns.values() for t in (fn.get("sig_in") or ()) if t[0] == "adt" and t[1].endswith("::Vec")), None)
        opty = ("adt", aid("Op"), ())
        n = len(F.fns[f].get("sig_in"))
        pi = F.fns[f]["sig_in"][0]
        args = [("lt",)] * (pi[1] + 1) if pi[0] == "param" else []
        if args:
            args[pi[1]] = ("adt", vec[1], (("ref", False, opty),) + vec[2][1:])
        a = ctx.run(f, opaque=(SO,), args=tuple(args))
        if a:
            sequence(ctx, a, a.params[0], lambda xs, k: Idx(xs, k), SO, "script-ops", lambda v: Ok(v))
    S = methods(ctx, "ser", "BitcoinCode")
    if "Script" in S:
        a = ctx.run(S["Script"], opaque=("Script::ser_ops", "ByteArray::ser"))
        if a:
            ctx.expect("script-wire", a, [Case([], call("ByteArray::ser", call("Script::ser_ops", a.params[0])), "length prefix and operations")],
                       calls=["Script::ser_ops", "ByteArray::ser"])
    f = ctx.one("Script::ser_ops")
    if f:
        a = ctx.run(f, opaque=(SO,))
        if a:
            ops = fld(a.params[0], "Script", "ops")
            sequence(ctx, a, ops, lambda xs, k: fld(Idx(xs, k), "TaggedOp", "op"), SO, "script-bytes", lambda v: v)


def sequence(ctx, a, xs, el, SO, rule, wrap):
    """the result is the concatenation of serialize_op over xs; an operation without a form is an error (or a panic)"""
    body = ok_of(call(SO, el(xs, mk("k", 0))))
    want = wrap(Seq(Rep(0, Len(xs), (((), (body,)),))))
    ok = lambda o: not (o.ret.op == "adt" and o.ret.args[0] == RESULT and o.ret.args[1] == 1)
    ctx.expect(rule, a, [Case([], want, "operations in order")], calls=[SO], only=ok)
    for o in a.outcomes:
        if not ok(o):
            ctx.check(any(is_fail(f, SO) for f in o.facts), rule + "-error", ctx.where(a.fid), "fails only when an operation has no form; known: %s" % clip(showfacts(tuple(o.facts))))


def is_fail(f, SO):
    if f.op == "not":
        f = f.args[0]
        return f.op == "isv" and f.args[0].op == "call" and f.args[0].args[0] == SO and f.args[2] == 0
    return f.op == "isv" and f.args[0].op == "call" and f.args[0].args[0] == SO and f.args[2] == 1


def unconstructible(o):
    return "unreachable" in o.kind or "panic" in o.kind and o.fn.endswith("serialize_op") and "panic_fmt" in o.kind
