"""C27: scripts and operations as text: hex of the encoding both ways, and names of operations."""
from spec import *
from common import *
import terms as TM

TECHNIQUE = "abstract interpretation of MIR: provenance of what is handed to the (de)serializer and of the text written, compared with the specification"
EXPLANATION = ("The serde implementations of Script are summarised with the encoder and decoder of scripts and serde itself uninterpreted, and compared with their specification for text and "
               "binary formats; the text of an operation is compared, for every kind of operation, with the name, number or hex it must be made of.")
ASSUMPTIONS = ["serde and hex do what they are documented to", "rustc's MIR is the program that is compiled"]
HR, HRD, SE, DE, HD = "Serializer::is_human_readable", "Deserializer::is_human_readable", "Serialize::serialize", "Deserialize::deserialize", "hex::decode"


def check(ctx):
    ser = methods(ctx, "ser", "BitcoinCode").get("Script")
    rest = methods(ctx, "deser_rest", "BitcoinCode").get("Script")
    f = methods(ctx, "serialize", "Serialize").get("Script")
    n = 0
    a = f and ser and ctx.run(f, opaque=(ser,))
    if a:
        n += 1
        x, s = a.params
        h, b = call(HR, s), call("Script::ser", x)
        ctx.expect("write", a, [Case([h], call(SE, mk("hex", b), s), "text"), Case([Not(h)], call(SE, b, s), "binary")], calls=[HR, SE, "Script::ser"])
        ctx.no_panics("write-total", a)
    f = methods(ctx, "deserialize", "Deserialize").get("Script")
    a = f and rest and ctx.run(f, opaque=(rest,))
    if a:
        n += 1
        d = a.params[0]
        h, r = call(HRD, d), call(DE, d)
        x = call(HD, ok_of(r))
        D = lambda b: call("Script::deser_rest", b)
        end = lambda b: int_eq(Len(TFld(ok_of(D(b)), 1)), ZERO)
        cs = []
        for g, b, t in (([h, is_ok(r), is_ok(x)], ok_of(x), "text"), ([Not(h), is_ok(r)], ok_of(r), "binary")):
            cs += [Case(g + [is_ok(D(b)), end(b)], Ok(TFld(ok_of(D(b)), 0)), t), Case(g + [is_ok(D(b)), Not(end(b))], ERR, t + " that goes on"), Case(g + [Not(is_ok(D(b)))], ERR, t + " of no script")]
        cs += [Case([h, is_ok(r), Not(is_ok(x))], ERR, "not hex"), Case([Not(is_ok(r))], ERR, "no value")]
        ctx.expect("read", a, cs, calls=[HRD, DE, HD, "Error::custom", "Script::deser_rest"])
        ctx.no_panics("read-total", a)
    n += operations(ctx)
    ctx.floor("text forms", n, 3)


def operations(ctx):
    f = methods(ctx, "fmt", "Display").get("Op")
    a = f and ctx.run(f)
    if not a:
        return 0
    x = a.params[0]
    A = aid("Op")
    W = {"PushBoolean": None, "PushInteger": Fld(Fld(x, A, variant(A, "PushInteger"), 0), aid("Integer"), 0, 0)}
    i = variant(A, "PushByteArray")
    W["PushByteArray"] = Fld(x, A, i, fieldno(A, i, "array"))
    W["Code"] = Fld(x, A, variant(A, "Code"), 0)
    seen = set()
    for v in W:
        b = ctx.run(f, facts=frozenset([isvar(x, "Op", v)]))
        if not b:
            continue
        for o in b.outcomes:
            got = text_of(o.ret)
            if got is None:
                ctx.unk("operation", ctx.where(f), "%s: yields %s" % (v, clip(show(o.ret))))
                continue
            if v == "PushBoolean":
                p = Fld(x, A, variant(A, v), 0)
                yes = p in o.facts
                no = Not(p) in o.facts
                if yes == no and p not in atoms(o.ret) and not any(p in atoms(g) for g in o.facts) and all(k == "text" for k, _ in got):
                    ctx.bad("operation", ctx.where(f), "true and false are both written %s" % clip(show(o.ret)), "operation|" + v)
                    continue
                if yes == no:
                    ctx.unk("operation", ctx.where(f), "%s: under %s" % (v, clip("; ".join(map(show, o.facts)))))
                    continue
                want = [("text", "OP_TRUE" if yes else "OP_FALSE")]
            elif v == "PushInteger":
                want = [("shown", W[v])]
            elif v == "PushByteArray":
                want = [("text", "0x"), ("hex", W[v])]
            else:
                want = [("shown", W[v])]
            seen.add(v)
            if any(k == "?" for k, _ in got) and got != want:
                ctx.unk("operation", ctx.where(f), "%s: yields %s" % (v, clip(show(o.ret))))
            else:
                ctx.check(got == want, "operation", ctx.where(f), "%s: writes %s" % (v, clip(show(o.ret))), "operation|" + v)
    ctx.floor("operations", len(seen), 4)
    return 1


def text_of(t):
    """what is written, in pieces: [("text", ...), ("shown" / "hex", term)]"""
    if not (t.op == "call" and t.args[0] == "fmtwrite"):
        return None
    r = []

    def piece(p):
        while p.op in ("disp",) and p.args[0].op in ("str", "hex", "disp"):
            p = p.args[0]
        if p.op == "str":
            add_text(p.args[0])
        elif p.op in ("disp", "dbg"):
            y = p.args[0]
            # a number of one type shown as itself
            r.append(("shown", y))
        elif p.op == "hex":
            r.append(("hex", p.args[0]))
        elif p.op == "int":
            add_text(chr(p.args[0]))
        else:
            r.append(("?", p))

    def add_text(s):
        if r and r[-1][0] == "text":
            r[-1] = ("text", r[-1][1] + s)
        elif s:
            r.append(("text", s))

    b = t.args[-1]
    if b.op == "seq":
        for p in b.args:
            piece(p.args[0] if p.op in ("item", "all") and is_t(p.args[0]) else p)
    else:
        piece(b)
    return r
