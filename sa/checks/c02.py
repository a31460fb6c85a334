"""C02: length prefixes are compact-size integers, minimal when written, exact when read."""
from spec import *
from common import *

TECHNIQUE = "abstract interpretation of MIR: value-provenance summaries and loop recurrences compared with the compact-size table"
EXPLANATION = ("ser / deser_rest of byte strings and of vectors over an arbitrary element codec are summarised with every helper inlined; "
               "each path is compared with the compact-size table (1, 3, 5, 9 byte forms and their exact boundaries), the element loop "
               "with the recurrence that threads the remaining bytes through the element decoder, once per element, in order.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std / byteorder / Arc<[u8]> used by the analyser (sa/models.py)"]


def size_cases(L, tail):
    return [
        Case([le(L, Int(0xfc))], Seq(item(L), *tail), "length up to 0xfc"),
        Case([le(Int(0xfd), L), le(L, Int(0xffff))], Seq(item(Int(0xfd)), LeB(2, L), *tail), "length up to 0xffff"),
        Case([le(Int(0x10000), L), le(L, Int(0xffffffff))], Seq(item(Int(0xfe)), LeB(4, L), *tail), "length up to 0xffffffff"),
        Case([le(Int(0x100000000), L)], Seq(item(Int(0xff)), LeB(8, L), *tail), "longer"),
    ]


def read_cases(d):
    """(guards, size, rest) of a compact size at the head of d, and the guards under which there is none"""
    b0 = Idx(d, ZERO)
    n = Len(d)
    out, bad = [], [[lt(n, ONE)]]
    for g, w, ty in (([le(b0, Int(0xfc))], 0, None), ([int_eq(b0, Int(0xfd))], 2, "u16"),
                     ([int_eq(b0, Int(0xfe))], 4, "u32"), ([int_eq(b0, Int(0xff))], 8, "u64")):
        g = [le(ONE, n)] + g
        v = b0 if w == 0 else unle(w, Slice(d, ONE, Int(1 + w)), ty)
        out.append((g + [le(Int(1 + w), n)], v, Slice(d, Int(1 + w), n), Int(1 + w)))
        if w:
            bad.append(g + [lt(n, Int(1 + w))])
    return out, bad


def check(ctx):
    S = methods(ctx, "ser", "BitcoinCode")
    D = methods(ctx, "deser_rest", "BitcoinCode")
    ctx.floor("codecs with a length prefix", len([t for t in ("ByteArray", "Vec") if t in S and t in D]), 2)
    # byte strings
    if "ByteArray" in S:
        a = ctx.run(S["ByteArray"])
        if a:
            x = a.params[0]
            ctx.expect("bytes-encode", a, size_cases(Len(x), [x]))
            ctx.no_panics("bytes-encode-total", a)
        a = ctx.run(D["ByteArray"])
        if a:
            d = a.params[0]
            good, bad = read_cases(d)
            cs = [Case(g, ERR, "truncated prefix") for g in bad]
            for g, v, rest, off in good:
                cs.append(Case(g + [lt(sub(Len(d), off), v)], ERR, "truncated data"))
                e = add(off, v)
                cs.append(Case(g + [le(e, Len(d))], Ok(Tup(Slice(d, off, e), Slice(d, e, Len(d)))), "complete data"))
            ctx.expect("bytes-decode", a, cs)
            ctx.no_panics("bytes-decode-total", a)
    if "Vec" in S:
        a = ctx.run(S["Vec"])
        if a:
            x = a.params[0]
            body = Rep(0, Len(x), (((), (call("BitcoinCode::ser", Idx(x, mk("k", 0))),)),))
            ctx.expect("vector-encode", a, size_cases(Len(x), [body]), calls=["BitcoinCode::ser"])
            ctx.no_panics("vector-encode-total", a)
        a = ctx.run(D["Vec"])
        if a:
            d = a.params[0]
            good, bad = read_cases(d)
            f = "BitcoinCode::deser_rest"
            step = TFld(ok_of(call(f, mk("self", 0, 0))), 1)
            cs = [Case(g, ERR, "truncated prefix") for g in bad]
            for g, n, rest, off in good:
                st = lambda k: Mu(0, k, 0, (rest,), ((((), step),),))
                it = ok_of(call(f, st(mk("k", 0))))
                cs.append(Case(g, Ok(Tup(Seq(Rep(0, n, (((), (item(TFld(it, 0)),)),))), st(n))), "items"))
            ctx.expect("vector-decode", a, cs, calls=[f], only=lambda o: not item_failed(o, f))
            for o in a.outcomes:
                if item_failed(o, f):
                    ctx.check(o.ret.op == "adt" and o.ret.args[1] == 1, "vector-decode-error", ctx.where(a.fid),
                              "an element that does not decode makes the vector fail; yields %s" % clip(show(o.ret)))
            ctx.no_panics("vector-decode-total", a)


def item_failed(o, f):
    for x in o.facts:
        if x.op == "not" and x.args[0].op == "isv" and x.args[0].args[0].op == "call" and x.args[0].args[0].args[0] == f:
            return True
        if x.op == "isv" and x.args[2] == 1 and x.args[1] == RESULT and x.args[0].op == "call" and x.args[0].args[0] == f:
            return True
    return False
