"""C01: fixed-width values have one fixed wire form, both ways."""
from spec import *
from common import *

TECHNIQUE = "abstract interpretation of MIR: value-provenance summaries compared with layout specification"
EXPLANATION = ("For every implementation of the wire codec on a fixed-width type, the MIR of ser and deser_rest (with all workspace "
               "callees inlined) is summarised as (path facts, result term over the argument), and every summary is compared, per "
               "specification case, with the layout: little-endian bytes, one byte for booleans, raw bytes for digests and fixed arrays; "
               "decoding takes exactly those bytes, returns the rest unchanged and fails iff there are too few.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std / byteorder / Arc<[u8]> used by the analyser (sa/models.py)"]

INTS = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16}
DIG = {"Sha1": 20, "Ripemd160": 20, "Sha256": 32, "Sha256d": 32, "Hash160": 20}


def codec(ctx, rule, ser, de, n, enc, dec, lo=0):
    if ser:
        a = ctx.run(ser)
        if a:
            ctx.expect(rule + "-encode", a, [Case([], enc(a.params[0]), "encoding")])
            ctx.no_panics(rule + "-encode-total", a)
    if de:
        a = ctx.run(de)
        if a:
            d = a.params[0]
            N = Int(n) if isinstance(n, int) else n
            ctx.expect(rule + "-decode", a, [
                Case([lt(Len(d), N)], ERR, "too few bytes"),
                Case([le(N, Len(d))], Ok(Tup(dec(d), Slice(d, N, Len(d)))), "enough bytes"),
            ])
            ctx.no_panics(rule + "-decode-total", a)


def check(ctx):
    S = methods(ctx, "ser", "BitcoinCode")
    D = methods(ctx, "deser_rest", "BitcoinCode")
    n = 0
    for ty, w in INTS.items():
        if ty in S and ty in D:
            n += 1
            codec(ctx, "integer", S[ty], D[ty], w, lambda x: Seq(LeB(w, x)), lambda d: unle(w, Slice(d, ZERO, Int(w)), ty))
    ctx.floor("integer types", n, 10)
    codec(ctx, "bool", S.get("bool"), D.get("bool"), 1, lambda x: Seq(item(x)), lambda d: Not(int_eq(Idx(d, ZERO), ZERO)))
    m = 0
    for ty, w in DIG.items():
        if ty in S and ty in D:
            m += 1
            fa = aid("FixedByteArray")
            def wrap(b):
                return adt(ty, struct("FixedByteArray", phantom=ANY, byte_array=b))
            codec(ctx, "digest", S[ty], D[ty], w, lambda x: fld(Fld(x, aid(ty), 0, 0), "FixedByteArray", "byte_array"),
                  lambda d: wrap(Slice(d, ZERO, Int(w))))
    ctx.floor("digest types", m, 5)
    if "FixedByteArray" in S:
        a = ctx.run(S["FixedByteArray"])
        ctx.expect("fixed-array-encode", a, [Case([], fld(a.params[0], "FixedByteArray", "byte_array"), "encoding")])
        a = ctx.run(D["FixedByteArray"])
        if a:
            # the width is the length of T::default()
            w = [t for o in a.outcomes for f in o.facts for t in atoms(f) if t.op == "len" and t.args[0].op == "call"]
            ctx.check(len(set(w)) == 1 and w[0].args[0].args[0] == "Default::default", "fixed-array-width", ctx.where(a.fid), "width is that of T::default()")
            if w:
                d = a.params[0]
                N = w[0]
                ctx.expect("fixed-array-decode", a, [
                    Case([lt(Len(d), N)], ERR, "too few bytes"),
                    Case([le(N, Len(d))], Ok(Tup(struct("FixedByteArray", phantom=ANY, byte_array=Slice(d, ZERO, N)), Slice(d, N, Len(d)))), "enough bytes")])
