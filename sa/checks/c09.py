"""C09: digests are the named hash compositions, and their text forms reverse the bytes, both ways."""
from spec import *
from common import *

TECHNIQUE = "abstract interpretation of MIR: hash-composition terms and byte-order summaries compared with the definition of each digest"
EXPLANATION = ("For each digest type the digest of an arbitrary message is summarised to the composition of primitive hash calls over exactly the "
               "message and compared with its definition; construction from bytes must accept exactly the right length and keep the bytes; the "
               "little-endian and big-endian hex forms, Display, Debug and the serde form of fixed byte arrays must (not) reverse the bytes, with the "
               "reading direction the inverse of the writing direction.")
ASSUMPTIONS = ["the hash primitives of the sha1, sha2 and ripemd160 crates are the standard ones", "hex::encode / hex::decode are inverse",
               "rustc's MIR is the program that is compiled"]

DIG = {"Sha1": (20, ("sha1",), "Sha1"), "Ripemd160": (20, ("ripemd160",), "Ripemd160"), "Sha256": (32, ("sha256",), "Sha256"),
       "Sha256d": (32, ("sha256", "sha256"), "Hash256"), "Hash160": (20, ("sha256", "ripemd160"), "Hash160")}
HD = "hex::decode"


def run(ctx, ty, item, *rest):
    fid, args = method_for(ctx, "Hashed", item, ty, *rest)
    if not fid:
        ctx.unk("hash", ty, "no method %s" % item)
        return None
    return ctx.run(fid, args=args)


def check(ctx):
    n = 0
    BA = ("adt", aid("ByteArray"), ())
    for ty, (size, comp, fn) in DIG.items():
        n += 1
        N = Int(size)

        def comp_of(x):
            for h in comp:
                x = mk("digest", h, x)
            return x
        a = run(ctx, ty, "digest_slice")
        if a:
            ctx.expect("composition", a, [Case([], comp_of(a.params[0]), ty)])
        a = run(ctx, ty, "digest", BA)
        if a:
            ctx.expect("digest", a, [Case([], digest_of(ty, comp_of(a.params[0])), ty)])
            ctx.no_panics("digest-total", a)
        a = run(ctx, ty, "function")
        if a:
            ctx.expect("function", a, [Case([], adt("Function", var=fn), ty)])
        for item, rev in (("from_slice", False), ("from_byte_array", False), ("from_slice_le", True)):
            a = run(ctx, ty, item)
            if a:
                x = a.params[0]
                v = Rev(x) if rev else x
                ctx.expect("from-bytes", a, [Case([int_eq(Len(x), N)], Ok(digest_of(ty, v)), ty + " right length"),
                                             Case([Not(int_eq(Len(x), N))], ERR, ty + " wrong length")])
                ctx.no_panics("from-bytes-total", a)
        for item, rev in (("from_hex_le", True), ("from_hex_be", False)):
            a = run(ctx, ty, item)
            if a:
                r = call(HD, a.params[0])
                x = ok_of(r)
                ctx.expect("from-hex", a, [Case([is_ok(r), int_eq(Len(x), N)], Ok(digest_of(ty, Rev(x) if rev else x)), ty + " good hex"),
                                           Case([is_ok(r), Not(int_eq(Len(x), N))], ERR, ty + " wrong length"),
                                           Case([Not(is_ok(r))], ERR, ty + " no hex")], calls=[HD])
                ctx.no_panics("from-hex-total", a)
        for item, f in (("as_slice", lambda b: b), ("as_byte_array", lambda b: b), ("into_byte_array", lambda b: b), ("to_vec_le", Rev),
                        ("to_hex_le", lambda b: mk("hex", Rev(b))), ("to_hex_be", lambda b: mk("hex", b))):
            a = run(ctx, ty, item)
            if a:
                ctx.expect("to-bytes", a, [Case([], f(bytes_of(a.params[0], ty)), "%s %s" % (ty, item))])
        for tr, pre in (("Display", False), ("Debug", True)):
            f = methods(ctx, "fmt", tr).get(ty)
            if f:
                a = ctx.run(f)
                if a:
                    h = mk("hex", Rev(bytes_of(a.params[0], ty)))
                    for o in a.outcomes:
                        if has(o, h):
                            ctx.ok("text", ctx.where(f), "shows the reversed bytes in hex")
                        elif any(x.op == "hex" for e in o.events for x in atoms(e)) and not any(fuzzy(e, {x for x in atoms(e) if x.op == "call"}, PURE) for e in o.events):
                            ctx.bad("text", ctx.where(f), "prints %s" % clip("; ".join(show(e) for e in o.events)))
                        else:
                            ctx.unk("text", ctx.where(f), "prints %s" % clip("; ".join(show(e) for e in o.events)))
    ctx.floor("digest types", n, 5)
    fixed(ctx)


def has(o, h):
    return any(canon(x) is canon(h) for e in o.events for x in atoms(e))


def fixed(ctx):
    """fixed byte arrays: length, text and serde forms"""
    F = ctx.F
    T0 = mk("call", "Default::default")
    ctx_fns = {f["item"]: i for i, f in F.fns.items() if f["name"].startswith("byte_array::FixedByteArray::") and f.get("item")}
    for item in ("from_slice_unnamed", "from_byte_array", "from_slice"):
        if item not in ctx_fns:
            ctx.unk("fixed-length", item, "missing")
            continue
        for size in (1, 20, 32):
            f = F.fns[ctx_fns[item]]
            args = (("array", ("p", "u8"), size), ("adt", aid("HumanReadableHexLittleEndian"), ()))
            a = ctx.run(ctx_fns[item], args=args)
            if a:
                x = a.params[-1]
                N = Int(size)
                ctx.expect("fixed-length", a, [
                    Case([int_eq(Len(x), N)], Ok(struct("FixedByteArray", phantom=ANY, byte_array=x)), "%d bytes" % size),
                    Case([Not(int_eq(Len(x), N))], ERR, "not %d bytes" % size)])
    DE, SE = "Deserialize::deserialize", "Serialize::serialize"
    HR, HRD = "Serializer::is_human_readable", "Deserializer::is_human_readable"
    CU = "Error::custom"
    for end, big in (("HumanReadableHexBigEndian", True), ("HumanReadableHexLittleEndian", False)):
        args = (("array", ("p", "u8"), 32), ("adt", aid(end), ()))
        f = methods(ctx, "serialize", "Serialize").get("FixedByteArray")
        if f:
            a = ctx.run(f, args=args)
            if a:
                b = fld(a.params[0], "FixedByteArray", "byte_array")
                s = a.params[1]
                h = call(HR, s)
                L = int_eq(Len(b), Int(32))
                ctx.expect("serde-write", a, [
                    Case([L, h], call(SE, mk("hex", b if big else Rev(b)), s), "text"),
                    Case([L, Not(h)], call(SE, b, s), "binary")], calls=[HR, SE])
        fs = methods(ctx, "deserialize", "Deserialize")
        f = fs.get("FixedByteArray")
        if f:
            # <'de, T, H>: the lifetime comes first
            a = ctx.run(f, args=(("lt",),) + args)
            if a:
                d = a.params[0]
                h, r = call(HRD, d), call(DE, d)
                x = call(HD, ok_of(r))
                y = ok_of(x)
                ctx.expect("serde-read", a, [
                    Case([h, is_ok(r), is_ok(x), int_eq(Len(y), Int(32))],
                         Ok(struct("FixedByteArray", phantom=ANY, byte_array=y if big else Rev(y))), "text"),
                    Case([h, is_ok(r), is_ok(x), Not(int_eq(Len(y), Int(32)))], ERR, "text of another length"),
                    Case([h, is_ok(r), Not(is_ok(x))], ERR, "not hex"),
                    Case([h, Not(is_ok(r))], ERR, "no text"),
                    Case([Not(h), is_ok(r)], Ok(struct("FixedByteArray", phantom=ANY, byte_array=ok_of(r))), "binary"),
                    Case([Not(h), Not(is_ok(r))], ERR, "no binary")], calls=[HRD, DE, HD, CU])
                ctx.no_panics("serde-read-total", a)
    f = methods(ctx, "serialize", "Serialize").get("ByteArray")
    if f:
        a = ctx.run(f)
        if a:
            x, s = a.params
            h = call(HR, s)
            ctx.expect("serde-write", a, [Case([h], call(SE, mk("hex", x), s), "text"), Case([Not(h)], call(SE, x, s), "binary")], calls=[HR, SE])
    f = methods(ctx, "deserialize", "Deserialize").get("ByteArray")
    if f:
        a = ctx.run(f)
        if a:
            d = a.params[0]
            h, r = call(HRD, d), call(DE, d)
            x = call(HD, ok_of(r))
            ctx.expect("serde-read", a, [
                Case([h, is_ok(r), is_ok(x)], Ok(ok_of(x)), "text"), Case([h, is_ok(r), Not(is_ok(x))], ERR, "not hex"),
                Case([h, Not(is_ok(r))], ERR, "no text"), Case([Not(h), is_ok(r)], Ok(ok_of(r)), "binary"),
                Case([Not(h), Not(is_ok(r))], ERR, "no binary")], calls=[HRD, DE, HD, CU])
