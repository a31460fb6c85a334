"""C17: declared stack effects of opcodes, and the functions scripts are type checked with, are those of the script language."""
from spec import *
from common import *
from optable import OPS
from facts import ty_short

TECHNIQUE = "exhaustive abstract interpretation of MIR per opcode plus the type-checked signatures and return summaries of the mock functions, compared with the stack-effect table"
EXPLANATION = ("Opcode::behavior is interpreted for every variant and the resulting input types, output types, output order and deltas are compared with the consensus stack effect; "
               "each opcode function scripts are type checked with is compared by its type-checked signature (arity, types, which outputs have an input's type) and by the "
               "summary of its result (which input each output is).")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled"]
NAMES = {"i": "Integer", "b": "Boolean", "y": "ByteArray", "Y": "ByteArray", "I": "Integer"}
MOCKS = {"i": "BitcoinInteger", "I": "BitcoinInteger", "b": "BitcoinBoolean", "y": "BitcoinByteArray", "Y": "BitcoinByteArray"}
# the macro compiles these itself; it calls the mock of the last two for the number they take only
OWN = {"OP_TOALTSTACK", "OP_FROMALTSTACK", "OP_PICK", "OP_ROLL"}
# not usable in scripts (no statement makes them)
NOT_CALLED = {"OP_NOTIF"}


def dtype(t):
    """the DataType a letter stands for"""
    D = aid("DataType")
    if t[0] in "ABCDEFN=":
        return Adt(D, variant(D, "Generic"))
    v = variant(D, NAMES[t[0]])
    if t[0] in "yY":
        return Adt(D, v, Some(Int(int(t[1:]))) if t[1:] else NONE)
    return Adt(D, v)


def elems(t):
    """the items of a sequence term of known length"""
    if t is EMPTY:
        return []
    if t.op == "item":
        return [t.args[0]]
    if t.op == "bytes":
        return [Int(b) for b in t.args[0]]
    if t.op == "seq":
        r = []
        for x in t.args:
            e = elems(x)
            if e is None:
                return None
            r += e
        return r
    return None


def check(ctx):
    A = aid("Opcode")
    f = inherent(ctx, "behavior", "Opcode")
    if not A or not f:
        return ctx.unk("effects", "Opcode", "no method behavior")
    n = 0
    for name, (_, kind, ins, outs) in OPS.items():
        try:
            vi = variant(A, name)
        except KeyError:
            ctx.bad("effects", "Opcode", "%s is missing" % name, "effects|" + name)
            continue
        n += behaviour(ctx, f, Adt(A, vi), name, kind, ins, outs)
    ctx.floor("opcodes with an effect", n, 90)
    mocks(ctx)


def behaviour(ctx, f, x, name, kind, ins, outs):
    if kind == "push":
        return 0
    a = ctx.run(f, argv={0: x})
    w = ctx.where(f)
    if a is None:
        return 0
    if kind != "op":
        # an effect that cannot be stated must not be stated
        ctx.check(not a.outcomes, "no effect", w, "%s has the effect %s" % (name, show(a.outcomes[0].ret)[:200] if a.outcomes else ""), "no effect|" + name)
        return 0
    key = "effects|" + name
    for o in a.I.obl.values():
        if not o.ok:
            ctx.bad("effects", w, "%s: %s" % (name, o.why), key)
            return 1
    rs = {o.ret for o in a.outcomes}
    if len(rs) != 1:
        ctx.unk("effects", w, "%s has %d effects" % (name, len(rs)))
        return 0
    r = rs.pop()
    g = {}
    for k in ("input_types", "output_types", "delta"):
        g[k] = elems(fld(r, "OpcodeBehavior", k))
    oo = fld(r, "OpcodeBehavior", "output_order")
    if None in g.values() or oo.op != "adt":
        ctx.unk("effects", w, "%s has the effect %s" % (name, show(r)[:200]))
        return 0
    for k, want in (("input_types", ins), ("output_types", outs)):
        ws = [dtype(t) for t in want]
        if all(x.op == "adt" for x in g[k]):
            ctx.check(g[k] == ws, "effects", w, "%s: %s is %s, specified %s" % (name, k, [show(x) for x in g[k]], [show(x) for x in ws]), key)
        else:
            ctx.unk("effects", w, "%s: %s" % (name, [show(x) for x in g[k]]))
    ctx.check(len(g["delta"]) == len(outs), "effects", w, "%s: %d deltas for %d outputs" % (name, len(g["delta"]), len(outs)), key)
    # which input is each output
    src = [ins.index(t) if t in ins and t.isupper() else None for t in outs]
    ad = g["delta"][0].args[0] if g["delta"] and g["delta"][0].op == "adt" else None
    if ad and all(x.op == "adt" for x in g["delta"]):
        got = [ctx.F.adts[ad]["variants"][x.args[1]]["name"] for x in g["delta"]]
        ctx.check(got == moves(name, ins, src), "deltas", w, "%s: the deltas are %s, of its effect %s" % (name, got, moves(name, ins, src)), "deltas|" + name)
    elif g["delta"]:
        ctx.unk("deltas", w, "%s has the deltas %s" % (name, [show(x) for x in g["delta"]]))
    if oo.args[1] == 0:
        kept = [(i, s) for i, s in enumerate(src) if s is not None]
        m = inherent(ctx, "retains_input", "Opcode")
        b = ctx.run(m, argv={0: x}) if m else None
        ret = b is not None and [o.ret for o in b.outcomes] == [ONE]
        ctx.check(kept == [] or kept == [(0, 0)] and ret, "effects", w, "%s: outputs are inputs %s, which is not declared" % (name, kept), key)
    else:
        got = elems(oo.args[2])
        if got is None or any(t.op != "int" for t in got):
            ctx.unk("effects", w, "%s: order %s" % (name, show(oo)))
        else:
            got = [t.args[0] for t in got]
            ctx.check(all(i < len(ins) for i in got), "effects", w, "%s: output order %s with %d inputs" % (name, got, len(ins)), key)
            ctx.check(got == src, "effects", w, "%s: output order %s, specified %s" % (name, got, src), key)
    return 1


def moves(name, ins, src):
    """What an opcode does with each of its outputs, of the inputs they are (src)."""
    out = []
    for i, j in enumerate(src):
        if j is None:
            # a result: beside an item the opcode only looked at, or of no item, it is new
            out.append("Moved" if name == "OP_ROLL" else "Added" if not ins or name == "OP_PICK" or any(k is not None for k in src) else "Changed")
            continue
        same = [k for k, m in enumerate(src) if m == j]
        # of the copies of an item, the one in its place is the item, or else the last one
        if i != (j if j in same else same[-1]):
            out.append("Added")
        elif i == j:
            out.append("Observed" if len(same) > 1 or len(ins) == 1 else "Untouched")
        else:
            out.append("Moved" if i > j and len(src) == len(ins) and len(same) == 1 else "MovedIndirectly")
    return out


def mocks(ctx):
    fns = {f["item"]: i for i, f in ctx.F.fns.items() if f.get("item") in OPS and f.get("body") and not f.get("impl_self") and "::func::" in f["name"]}
    n = 0
    for name, (_, kind, ins, outs) in OPS.items():
        if kind != "op":
            continue
        f = fns.get(name)
        if not f:
            if name not in NOT_CALLED:
                ctx.bad("functions", "func", "there is no function %s, so no script with it compiles" % name, "functions|" + name)
            continue
        if name in ("OP_TOALTSTACK", "OP_FROMALTSTACK"):
            continue
        n += 1
        w, key = ctx.where(f), "functions|" + name
        si, so = ctx.F.fns[f]["sig_in"], ctx.F.fns[f]["sig_out"]
        so = so[1] if so[0] == "tuple" else (so,)
        if name in OWN:
            outs = ()
        if not ctx.check(len(si) == len(ins) and len(so) == len(outs), "functions", w, "%s takes %d and gives %d, specified %d and %d" % (name, len(si), len(so), len(ins), len(outs)), key):
            continue
        of = {}
        for t, ty in list(zip(ins, si)) + list(zip(outs, so)):
            if t == "=" or t in "ABCDEF":
                # distinct items have types of their own, equal ones the same
                want = of.setdefault(t, ty)
                if t in of and want != ty or ty[0] != "param" or t in "ABCDEF" and any(v == ty for k, v in of.items() if k != t):
                    ctx.bad("functions", w, "%s: %s where %s is meant" % (name, ty_short(ty), ty_short(want) if want != ty else "a type of its own"), key)
            elif not (ty[0] == "adt" and ty_short(ty) == MOCKS[t[0]]) and not (name == "OP_VERIFY" and ty[0] == "param"):
                ctx.bad("functions", w, "%s: %s, specified %s" % (name, ty_short(ty), MOCKS[t[0]]), key)
            else:
                ctx.ok("functions", w, "type of an item")
        a = ctx.run(f)
        if a is None:
            continue
        ctx.no_panics("functions", a)
        for o in a.outcomes:
            rs = list(o.ret.args) if len(outs) != 1 and o.ret.op == "tup" else [o.ret] if len(outs) == 1 else []
            if len(rs) != len(outs):
                ctx.unk("functions", w, "%s gives %s" % (name, show(o.ret)))
                continue
            for t, r in zip(outs, rs):
                if t in "ABCDEF" and t in ins:
                    ctx.check(r is a.params[ins.index(t)], "functions", w, "%s: an output is %s" % (name, show(r)), key)
    ctx.floor("functions of opcodes", n, 85)
