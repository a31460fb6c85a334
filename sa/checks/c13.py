"""C13: scripts and addresses correspond: the standard scripts are recognised exactly, and built exactly."""
from spec import *
from common import *

TECHNIQUE = "abstract interpretation of MIR: decision paths of script recognition compared with the standard templates; lock-script construction summarised and compared"
EXPLANATION = ("Recognising the destination of a script, and the key of a P2PKH spend, is summarised over a script of any length with arbitrary operations; each path's "
               "decisions are compared with the standard templates read top to bottom.  The scripts built for addresses, the keys' text, binary and checked forms are "
               "summarised and compared with the exact operations and bytes.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std used by the analyser (sa/models.py)"]
FH = "Address::from_hash"
CONV = "PatternOp::from"


def check(ctx):
    conv = patterns(ctx)
    if conv:
        destination(ctx, conv)
        spend(ctx, conv)
    views(ctx)
    build(ctx)
    pubkey(ctx)


def patterns(ctx):
    f = methods(ctx, "from", "From").get("PatternOp")
    if not f:
        ctx.unk("pattern", "PatternOp", "no conversion from operations")
        return None
    a = ctx.run(f)
    if a:
        x = a.params[0]
        v = lambda n, i=0: Fld(x, aid("Op"), variant(aid("Op"), n), i)
        ctx.expect("pattern", a, [Case([isvar(x, "Op", o)], adt("PatternOp", v(o), var=p), o) for o, p in (
            ("Code", "Code"), ("Invalid", "Invalid"), ("PushByteArray", "Array"), ("PushBoolean", "Bool"), ("PushInteger", "Int"))])
    return f


def opk(script, k):
    return path(Idx(fld(script, "Script", "ops"), Int(k)), ("TaggedOp", "op"))


def pat(script, k):
    return call(CONV, opk(script, k))


def code(script, k, name):
    p = pat(script, k)
    return [isvar(p, "PatternOp", "Code"), isvar(Fld(p, aid("PatternOp"), variant(aid("PatternOp"), "Code"), 0), "Opcode", name)]


def arr(script, k, n=None):
    p = pat(script, k)
    b = Fld(p, aid("PatternOp"), variant(aid("PatternOp"), "Array"), 0)
    return [isvar(p, "PatternOp", "Array")] + ([int_eq(Len(b), Int(n))] if n is not None else []), b


def destination(ctx, conv):
    f = ctx.one("script_destination")
    if not f:
        return
    a = ctx.run(f, opaque=(FH, conv))
    if not a:
        return
    P, S = a.params
    n = Len(fld(S, "Script", "ops"))
    h5, b5 = arr(S, 2, 20)
    h3, b3 = arr(S, 1, 20)
    h2, b2 = arr(S, 0)
    addr = lambda ty, b: adt("Destination", call(FH, P, adt("AddressType", var=ty), digest_of("Hash160", b)), var="Address")
    k = mk("k", 0)
    tail = Rep(0, sub(n, ONE), (((), (item(path(Idx(fld(S, "Script", "ops"), add(k, ONE)), ("TaggedOp", "op"))),)),))
    ctx.first_match("destination", a, [
        Case([int_eq(n, Int(5))] + code(S, 0, "OP_DUP") + code(S, 1, "OP_HASH160") + h5 + code(S, 3, "OP_EQUALVERIFY") + code(S, 4, "OP_CHECKSIG"), addr("P2PKH", b5), "P2PKH"),
        Case([int_eq(n, Int(3))] + code(S, 0, "OP_HASH160") + h3 + code(S, 2, "OP_EQUAL"), addr("P2SH", b3), "P2SH"),
        Case([int_eq(n, Int(2))] + h2 + code(S, 1, "OP_CHECKSIG"), adt("Destination", b2, var="P2PK"), "P2PK"),
        Case([le(ONE, n)] + code(S, 0, "OP_RETURN"), adt("Destination", Seq(tail), var="Nulldata"), "data"),
        Case([], adt("Destination", S, var="Unknown"), "anything else")], calls=[FH, CONV])
    ctx.no_panics("destination-total", a)
    f = inherent(ctx, "address", "Destination")
    if f:
        a = ctx.run(f)
        if a:
            x = a.params[0]
            ctx.expect("destination-address", a, [Case([isvar(x, "Destination", "Address")], Some(Fld(x, aid("Destination"), variant(aid("Destination"), "Address"), 0)), "address")] +
                       [Case([isvar(x, "Destination", v)], mk("adt", OPTION, 0), v) for v in ("Nulldata", "P2PK", "Unknown")])


def spend(ctx, conv):
    f = ctx.one("script_p2pkh_spend")
    if not f:
        return
    a = ctx.run(f, opaque=(conv,))
    if not a:
        return
    S = a.params[0]
    n = Len(fld(S, "Script", "ops"))
    hs, sig = arr(S, 0)
    hp, pk = arr(S, 1, 33)
    NONE_ = mk("adt", OPTION, 0)
    last = Idx(sig, sub(Len(sig), ONE))
    TYP.setdefault(last, "u8")
    shape = [int_eq(n, Int(2))] + hs + hp
    # flags: 1 ALL, 2 NONE, 3 SINGLE, 0x40 FORKID, 0x80 ANYONECANPAY; MASK 0x1f covers the low five bits
    ok = [Not(int_eq(Len(sig), ZERO)), int_eq(bitop("and", last, Int(0x20)), ZERO)]
    ctx.first_match("spend", a, [
        Case(shape + ok, Some(struct("P2PKHSpend", pubkey=adt("Pubkey", pk), sig_hash_flags=adt("SigHashFlags", last))), "signature and key"),
        Case([], NONE_, "anything else")], calls=[CONV])
    ctx.no_panics("spend-total", a)


def views(ctx):
    """what an operation pushes, and when two operations are the same"""
    O, C = aid("Op"), aid("Opcode")
    v = lambda x, n, i=0: Fld(x, O, variant(O, n), i)
    NONE_ = mk("adt", OPTION, 0)
    arrf = lambda x: v(x, "PushByteArray", fieldno(O, variant(O, "PushByteArray"), "array"))
    f = inherent(ctx, "to_byte_array", "Op")
    if f:
        a = ctx.run(f)
        if a:
            x = a.params[0]
            ctx.expect("pushed-bytes", a, [Case([isvar(x, "Op", "PushByteArray")], Some(arrf(x)), "bytes")] +
                       [Case([isvar(x, "Op", n)], NONE_, n) for n in ("Code", "Invalid", "PushBoolean", "PushInteger")])
    V2I = "vec_to_int"
    f = inherent(ctx, "to_integer", "Op")
    if f:
        a = ctx.run(f, opaque=(V2I,))
        if a:
            x = a.params[0]
            c = v(x, "Code")
            I = lambda t: Some(adt("Integer", t))
            isc = lambda n: isvar(c, "Opcode", n)
            names = [w["name"] for w in ctx.F.adts[C]["variants"]]
            nums = {"OP_0": 0, "OP_1NEGATE": -1}
            nums.update({"OP_%d" % n: n for n in range(1, 17)})
            r = call(V2I, arrf(x))
            val = ok_of(r)
            rng = [le(Int(-0x7fffffff), val), le(val, Int(0x7fffffff))]
            cases = [Case([isvar(x, "Op", "PushInteger")], Some(v(x, "PushInteger")), "an integer"),
                     Case([isvar(x, "Op", "PushBoolean"), v(x, "PushBoolean")], I(ONE), "true"), Case([isvar(x, "Op", "PushBoolean"), Not(v(x, "PushBoolean"))], I(ZERO), "false"),
                     Case([isvar(x, "Op", "Invalid")], NONE_, "an invalid opcode"),
                     Case([isvar(x, "Op", "PushByteArray"), is_ok(r)] + rng, I(val), "bytes that are a number"),
                     Case([isvar(x, "Op", "PushByteArray"), Not(is_ok(r))], NONE_, "bytes that are no number"),
                     Case([isvar(x, "Op", "PushByteArray"), is_ok(r), le(val, Int(-0x80000000))], NONE_, "bytes out of range")]
            cases += [Case([isvar(x, "Op", "Code"), isc(n)], I(Int(nums[n])) if n in nums else NONE_, n) for n in names]
            ctx.expect("pushed-number", a, cases, calls=[V2I])
            ctx.no_panics("pushed-number-total", a)
    f = methods(ctx, "eq", "PartialEq").get("Op")
    if f:
        a = ctx.run(f)
        if a:
            x, y = a.params
            kinds = ("Code", "Invalid", "PushByteArray", "PushBoolean", "PushInteger")
            cases = []
            for p in kinds:
                for q in kinds:
                    if p != q:
                        cases.append(Case([isvar(x, "Op", p), isvar(y, "Op", q)], FALSE, "%s and %s" % (p, q)))
                    else:
                        l, r = (arrf(x), arrf(y)) if p == "PushByteArray" else (v(x, p), v(y, p))
                        if p == "PushInteger":
                            l, r = (Fld(z, aid("Integer"), 0, 0) for z in (l, r))
                        cases.append(Case([isvar(x, "Op", p), isvar(y, "Op", q)], mk("same", l, r), "two %ss" % p))
            compare_eq(ctx, a, cases)


def compare_eq(ctx, a, cases):
    """an equality may decide by branching: its truth, not the form of its result, is specified"""
    for o in a.outcomes:
        for c in cases:
            fs = o.facts
            for g in c.guards:
                fs = assume_facts(fs, norm(g, fs))
                if fs is None:
                    break
            if fs is None or contradictory(fs):
                continue
            want = c.want
            if want.op == "same":
                want = teq(*want.args)
            for truth in (True, False):
                g = assume_facts(fs, norm(want if truth else Not(want), fs))
                if g is None or contradictory(g):
                    continue
                n = norm(o.ret, g)
                if n is (TRUE if truth else FALSE):
                    ctx.ok("same-operation", ctx.where(a.fid), "%s: %s" % (c.name, "equal" if truth else "not equal"))
                elif n is (FALSE if truth else TRUE):
                    ctx.bad("same-operation", ctx.where(a.fid), "%s: %s operations compare as %s" % (c.name, "equal" if truth else "different", "different" if truth else "equal"))
                elif fuzzy(n, set(), PURE) is None:
                    ctx.bad("same-operation", ctx.where(a.fid), "%s: comparing decides by %s" % (c.name, clip(show(n))))
                else:
                    ctx.unk("same-operation", ctx.where(a.fid), "%s: %s" % (c.name, clip(show(n))))


def ops_of(o):
    """the operations of a script, without the source positions"""
    t = o.ret
    if t.op == "adt" and t.args[0] == RESULT:
        if t.args[1] == 1:
            return t
        t = t.args[2]
    if t.op == "adt":
        t = t.args[2]
    if t.op != "seq" or any(p.op != "item" or p.args[0].op != "adt" for p in t.args):
        return t
    i = 2 + fieldno(aid("TaggedOp"), 0, "op")
    return Seq(*(item(p.args[0].args[i]) for p in t.args))


def opcode(name):
    return adt("Op", adt("Opcode", var=name), var="Code")


def push(b):
    a = aid("Op")
    vi = variant(a, "PushByteArray")
    kw = {"array": b, "is_minimal": TRUE}
    return mk("adt", a, vi, *[kw[f["name"]] for f in load_facts("main").adts[a]["variants"][vi]["fields"]])


def script_of(*ops):
    return Seq(*(item(o) for o in ops))


def build(ctx):
    """lock scripts of addresses, unlocking script of P2PKH"""
    for i, f in sorted(ctx.F.fns.items()):
        if f.get("item") == "into" and (f.get("trait") or "").split("::")[-1] == "Into" and f.get("body"):
            s = f.get("impl_self")
            while s and s[0] == "ref":
                s = s[2]
            if not s or s[0] != "adt" or s[1] != aid("Address"):
                continue
            a = ctx.run(i)
            if a:
                lock(ctx, a, a.params[0])
    f = inherent(ctx, "p2pkh_script", "Address")
    if f:
        a = ctx.run(f)
        if a:
            lock(ctx, a, a.params[0], True)
    f = methods(ctx, "build_script", "Signatory").get("P2PKHSignatory")
    if f:
        a = ctx.run(f)
        if a:
            x, sig = a.params[0], a.params[3]
            flags = trunc("u8", path(x, ("P2PKHSignatory", "sig_hash_flags"), ("SigHashFlags", "bits")))
            key = Fld(fld(x, "P2PKHSignatory", "pubkey"), aid("Pubkey"), 0, 0)
            ctx.expect("unlock", a, [Case([], struct("P2PKHInputs", sig=Seq(sig, item(flags)), pubkey=key), "signature with its flags, and the key")])
    for ty, order in (("P2PKHInputs", ("sig", "pubkey")), ("P2SHInputs", ("redeem_script",))):
        f = methods(ctx, "ops", "Ops").get(ty)
        if f:
            a = ctx.run(f)
            if a:
                ctx.expect("unlock", a, [Case([], script_of(*(push(fld(a.params[0], ty, n)) for n in order)), "pushed in order")], proj=ops_of)
    for n, w in (("placeholder_signatures", lambda x: mk("repeat", ZERO, Int(72))), ("is_p2sh", lambda x: FALSE), ("sig_hash_flags", lambda x: fld(x, "P2PKHSignatory", "sig_hash_flags"))):
        f = methods(ctx, n, "Signatory").get("P2PKHSignatory")
        if f:
            a = ctx.run(f)
            if a:
                ctx.expect("unlock", a, [Case([], w(a.params[0]), n)])


def lock(ctx, a, x, only=False):
    h = bytes_of(fld(x, "Address", "hash"), "Hash160")
    t = fld(x, "Address", "addr_type")
    p2pkh = script_of(opcode("OP_DUP"), opcode("OP_HASH160"), push(h), opcode("OP_EQUALVERIFY"), opcode("OP_CHECKSIG"))
    p2sh = script_of(opcode("OP_HASH160"), push(h), opcode("OP_EQUAL"))
    ctx.expect("lock", a, [Case([isvar(t, "AddressType", "P2PKH")], p2pkh, "P2PKH"),
                           Case([isvar(t, "AddressType", "P2SH")], mk("adt", RESULT, 1, adt("Error", var="InvalidAddressType")) if only else p2sh, "P2SH")], proj=ops_of)
    ctx.no_panics("lock-total", a)


def pubkey(ctx):
    K = lambda x: Fld(x, aid("Pubkey"), 0, 0)
    mkp = lambda b: adt("Pubkey", b)
    NONE_ = mk("adt", OPTION, 0)
    f = inherent(ctx, "from_slice_checked", "Pubkey")
    if f:
        a = ctx.run(f)
        if a:
            x = a.params[0]
            ctx.expect("key", a, [Case([int_eq(Len(x), Int(33))], Some(mkp(x)), "33 bytes"), Case([Not(int_eq(Len(x), Int(33)))], NONE_, "other lengths")])
            ctx.no_panics("key-total", a)
    for n, w in (("as_slice", K), ("as_byte_array", K)):
        f = inherent(ctx, n, "Pubkey")
        if f:
            a = ctx.run(f)
            if a:
                ctx.expect("key", a, [Case([], w(a.params[0]), n)])
    HR, HRD, SE, DE, HD = "Serializer::is_human_readable", "Deserializer::is_human_readable", "Serialize::serialize", "Deserialize::deserialize", "hex::decode"
    f = methods(ctx, "serialize", "Serialize").get("Pubkey")
    if f:
        a = ctx.run(f)
        if a:
            x, s = a.params
            h = call(HR, s)
            ctx.expect("key-write", a, [Case([h], call(SE, mk("hex", K(x)), s), "text"), Case([Not(h)], call(SE, K(x), s), "binary")], calls=[HR, SE])
    f = methods(ctx, "deserialize", "Deserialize").get("Pubkey")
    if f:
        a = ctx.run(f)
        if a:
            d = a.params[0]
            h, r = call(HRD, d), call(DE, d)
            x = call(HD, ok_of(r))
            ok33 = lambda b: int_eq(Len(b), Int(33))
            ctx.expect("key-read", a, [
                Case([h, is_ok(r), is_ok(x), ok33(ok_of(x))], Ok(mkp(ok_of(x))), "text"), Case([h, is_ok(r), is_ok(x), Not(ok33(ok_of(x)))], ERR, "text of another length"),
                Case([h, is_ok(r), Not(is_ok(x))], ERR, "not hex"), Case([h, Not(is_ok(r))], ERR, "no text"),
                Case([Not(h), is_ok(r), ok33(ok_of(r))], Ok(mkp(ok_of(r))), "binary"), Case([Not(h), is_ok(r), Not(ok33(ok_of(r)))], ERR, "binary of another length"),
                Case([Not(h), Not(is_ok(r))], ERR, "no binary")], calls=[HRD, DE, HD, "Error::invalid_length", "Error::custom"])
            ctx.no_panics("key-read-total", a)
    for tr in ("Display", "Debug"):
        f = methods(ctx, "fmt", tr).get("Pubkey")
        if f:
            a = ctx.run(f)
            if a:
                h = mk("hex", K(a.params[0]))
                for o in a.outcomes:
                    ev = [x for e in list(o.events) + [v for v in o.mem.values() if is_t(v)] for x in atoms(e)]
                    if h in ev:
                        ctx.ok("key-text", ctx.where(f), "prints the bytes in hex")
                    elif any(x.op == "hex" for x in ev):
                        ctx.bad("key-text", ctx.where(f), "prints %s" % clip(show(next(x for x in ev if x.op == "hex"))))
                    else:
                        ctx.unk("key-text", ctx.where(f), "prints %s" % clip("; ".join(show(e) for e in o.events)))
