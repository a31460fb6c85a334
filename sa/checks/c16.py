"""C16: opcodes have the bytes, names and status of the Bitcoin Cash script language."""
import interp as _interp
from spec import *
from common import *
from optable import OPS, UNDEFINED

TECHNIQUE = "table extraction from the type-checked enum and exhaustive abstract interpretation of MIR per variant, compared with the consensus opcode table"
EXPLANATION = ("The discriminants of Opcode are taken from the compiler and compared with the consensus table in both directions.  Display, Debug, the conversions to text, from "
               "numbers, is_disabled and retains_input are interpreted for every variant (numbers: every byte), and the lazily built name map is evaluated to the sequence of its "
               "insertions and compared entry by entry with the table.")
ASSUMPTIONS = ["HashMap::insert and get are as documented", "rustc's MIR is the program that is compiled"]


def variants(ctx):
    a = aid("Opcode")
    if not a:
        ctx.unk("opcodes", "Opcode", "no such type")
        return None, None
    return a, {v["name"]: (i, v["discr"]) for i, v in enumerate(ctx.F.adts[a]["variants"])}


def check(ctx):
    A, V = variants(ctx)
    if not A:
        return
    where = "Opcode (%s)" % ctx.F.adts[A].get("span")
    for n, (byte, kind, _, _) in OPS.items():
        if n not in V:
            ctx.bad("bytes", where, "%s is missing" % n, "bytes|" + n)
            continue
        ctx.check(V[n][1] == byte, "bytes", where, "%s is 0x%02x, specified 0x%02x" % (n, V[n][1], byte), "bytes|" + n)
    for n, (_, d) in V.items():
        if n not in OPS:
            ctx.check(n == UNDEFINED and d == 0xbd, "bytes", where, "%s = 0x%02x is no opcode" % (n, d), "bytes|" + n)
    names(ctx, A, V)
    status(ctx, A, V)
    numbers(ctx, A, V)
    name_map(ctx, A, V)
    ctx.floor("variants", len(V), 115)


def only(ctx, a, what, rule, name):
    """the value of a summary that has one"""
    rs = {o.ret for o in a.outcomes}
    if len(rs) != 1 or any(not x.ok for x in a.I.obl.values()):
        ctx.unk(rule, ctx.where(a.fid), "%s: %d results" % (name, len(rs)))
        return None
    return rs.pop()


def names(ctx, A, V):
    conv = [(i, f) for i, f in ctx.F.fns.items() if f.get("item") == "from" and (f.get("trait") or "").endswith("From") and f.get("body")
            and f.get("impl_self") == ("ref", False, ("p", "str")) and "Opcode" in str(f.get("trait_args") or f["sig_in"])]
    fmts = [(methods(ctx, "fmt", t).get("Opcode"), t) for t in ("Display", "Debug")]
    ctx.floor("conversions of opcodes to text", len(conv), 2)
    for n, (i, _) in V.items():
        D = Adt(A, i)
        for f, t in fmts:
            if not f:
                ctx.unk("names", "Opcode", "no %s" % t)
                continue
            a = ctx.run(f, argv={0: D})
            r = a and only(ctx, a, t, "names", n)
            if r is None:
                continue
            txt = r.args[-1] if r.op == "call" and r.args[0] == "fmtwrite" else None
            while txt is not None and txt.op == "disp":
                txt = txt.args[0]
            if txt is None or txt.op != "str":
                ctx.unk("names", ctx.where(f), "%s writes %s" % (n, show(r)))
            else:
                ctx.check(txt.args[0] == n, "names", ctx.where(f), "%s is written %s" % (n, txt.args[0]), "names|%s|%s" % (t, n))
        for f, fn in conv:
            a = ctx.run(f, argv={0: D})
            r = a and only(ctx, a, "from", "names", n)
            if r is None:
                continue
            if r.op != "str":
                ctx.unk("names", ctx.where(f), "%s gives %s" % (n, show(r)))
            else:
                ctx.check(r.args[0] == n, "names", ctx.where(f), "%s is named %s" % (n, r.args[0]), "names|from|" + n)


def status(ctx, A, V):
    want = {"is_disabled": {n for n, o in OPS.items() if o[1] == "disabled"},
            "retains_input": {n for n, o in OPS.items() if o[1] == "op" and o[2] and o[3] and o[2][0] == o[3][0] and o[2][0] in "YI"}}
    for m, w in want.items():
        f = inherent(ctx, m, "Opcode")
        if not f:
            ctx.unk("status", "Opcode", "no method %s" % m)
            continue
        for n, (i, _) in V.items():
            if n not in OPS:
                continue
            a = ctx.run(f, argv={0: Adt(A, i)})
            r = a and only(ctx, a, m, "status", n)
            if r is None:
                continue
            if r.op != "int":
                ctx.unk("status", ctx.where(f), "%s of %s is %s" % (m, n, show(r)))
                continue
            ctx.check((r is ONE) == (n in w), "status", ctx.where(f), "%s of %s is %s" % (m, n, "true" if r is ONE else "false"), "status|%s|%s" % (m, n))


def numbers(ctx, A, V):
    """from_i64 / from_u64, which every from_* of the trait goes through"""
    by = {d: i for i, d in V.values()}
    n = 0
    for m in ("from_i64", "from_u64"):
        f = methods(ctx, m, "FromPrimitive").get("Opcode")
        if not f:
            ctx.unk("numbers", "Opcode", "no method %s" % m)
            continue
        for b in list(range(256)) + ([-1, -128] if m == "from_i64" else []):
            a = ctx.run(f, argv={0: Int(b)})
            r = a and only(ctx, a, m, "numbers", "%s(%d)" % (m, b))
            if r is None:
                continue
            w = Some(Adt(A, by[b])) if b in by else NONE
            if r.op != "adt" or r is not w and not (r.args[1] == 0 or r.args[2].op == "adt"):
                ctx.unk("numbers", ctx.where(f), "%s(%d) is %s" % (m, b, show(r)))
                continue
            n += 1
            ctx.check(r is w, "numbers", ctx.where(f), "%s(0x%02x) is %s, specified %s" % (m, b & 0xff, show(r), show(w)), "numbers|%s|%d" % (m, b))
    ctx.floor("numbers decoded", n, 500)


def name_map(ctx, A, V):
    f = next((i for i, g in ctx.F.fns.items() if g.get("item") == "__static_ref_initialize" and "MAP_NAME_TO_ENUM" in g["name"]), None)
    if not f:
        return ctx.unk("name map", "MAP_NAME_TO_ENUM", "its initialiser is not found")
    old = _interp.UNROLL
    _interp.UNROLL = 300
    try:
        a = ctx.run(f)
    finally:
        _interp.UNROLL = old
    if a is None:
        return
    for o in a.I.obl.values():
        if not o.ok:
            return ctx.bad("name map", ctx.where(f), "%s is possible while the map is made: %s" % (o.kind, o.why), "name map|panic")
    r = only(ctx, a, "map", "name map", "map")
    got, seen = {}, 0
    while r is not None and r.op == "minsert":
        m, k, v = r.args[:3]
        seen += 1
        k = key_of(ctx, k)
        if k is None or v.op != "adt":
            return ctx.unk("name map", ctx.where(f), "an entry is not a constant: %s" % show(r.args[1])[:200])
        got.setdefault(k, v)
        r = m
    if r is None or r.op != "emptymap":
        return ctx.unk("name map", ctx.where(f), "the map starts from %s" % (show(r)[:100] if r is not None else None))
    want = {n: Adt(A, V[n][0]) for n, o in OPS.items() if n in V and (n in ("OP_0", "OP_1NEGATE") or 0x51 <= o[0])}
    for n, v in want.items():
        ctx.check(got.get(n) is v, "name map", ctx.where(f), "%s is looked up as %s" % (n, show(got[n]) if n in got else "nothing"), "name map|" + n)
    for n, v in got.items():
        if n not in want:
            # a further name of an opcode is only wrong if it is another opcode's
            ctx.check(n in V and v is Adt(A, V[n][0]), "name map", ctx.where(f), "%s is looked up as %s" % (n, show(v)), "name map|" + n)
    ctx.floor("insertions", seen, 110)


def key_of(ctx, k):
    """the text of a map key"""
    while k.op in ("disp", "dbg") or k.op == "call" and k.args[0] in ("to_string", "into"):
        x = k.args[0] if k.op != "call" else k.args[1]
        if x.op == "adt":
            f = methods(ctx, "fmt", "Debug" if k.op == "dbg" else "Display").get("Opcode")
            a = f and ctx.run(f, argv={0: x})
            if not a or len(a.outcomes) != 1:
                return None
            k = a.outcomes[0].ret.args[-1]
        else:
            k = x
    return k.args[0] if k.op == "str" else None
