"""C04: decoding a whole value uses up every byte, and lists of values are plain concatenation."""
from spec import *
from common import *

TECHNIQUE = "abstract interpretation of MIR: summaries over an arbitrary element codec, loop recurrences for the list codec"
EXPLANATION = ("The whole-value decoder and the list encoder/decoder are summarised over an uninterpreted element codec, so the result holds "
               "for every type with a wire form: a value is returned only when nothing is left over, the decoded list is exactly the chain of "
               "element decodings until the input is used up, any element failure fails the list, the encoded list is the concatenation.  The "
               "implementations of the codec are enumerated: none replaces the whole-value decoder.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std used by the analyser (sa/models.py)"]

DR = "BitcoinCode::deser_rest"


def check(ctx):
    F = ctx.F
    impls = [i for i in F.fns.values() if i.get("item") == "deser" and (i.get("trait") or "").endswith("BitcoinCode") and i.get("impl_self")]
    for i in impls:
        ctx.unk("no-override", i["name"], "replaces the whole-value decoder: not covered by the summary of the provided one")
    n = len(methods(ctx, "deser_rest", "BitcoinCode"))
    ctx.floor("codec implementations sharing the provided decoder", n, 20)
    f = ctx.one("BitcoinCode::deser")
    if f:
        a = ctx.run(f)
        if a:
            d = a.params[0]
            r = call(DR, d)
            rest = TFld(ok_of(r), 1)
            ctx.expect("whole-value", a, [
                Case([is_ok(r), le(Len(rest), ZERO)], Ok(TFld(ok_of(r), 0)), "nothing left"),
                Case([is_ok(r), lt(ZERO, Len(rest))], ERR, "bytes left over"),
                Case([Not(is_ok(r))], ERR, "does not decode")], calls=[DR])
            ctx.no_panics("whole-value-total", a)
    f = ctx.one("serializer::encode_bitcoin_code_all")
    if f:
        vec = next((t for fn in F.fns.values() for t in (fn.get("sig_in") or ()) if t[0] == "adt" and t[1].endswith("::Vec")), None)
        ps = [p for p in F.fns[f].get("sig_in") if p[0] == "param"]
        T_ = ("param", 1, "T")
        a = ctx.run(f, args=(("lt",), T_, ("adt", vec[1], (("ref", False, T_),) + vec[2][1:])))
        if a:
            x = a.params[0]
            ctx.expect("list-encode", a, [Case([], Seq(Rep(0, Len(x), (((), (call("BitcoinCode::ser", Idx(x, mk("k", 0))),)),))), "concatenation")],
                       calls=["BitcoinCode::ser"])
            ctx.no_panics("list-encode-total", a)
    f = ctx.one("serializer::decode_bitcoin_code_all")
    if f:
        a = ctx.run(f)
        if a:
            decode_list(ctx, a)


def decode_list(ctx, a):
    d = a.params[0]
    w = ctx.where(a.fid)
    step = TFld(ok_of(call(DR, mk("self", 0, 0))), 1)
    st = lambda k: Mu(0, k, 0, (d,), ((((), step),),))
    good = 0
    for o in a.outcomes:
        r = o.ret
        # the state in which the loop stopped
        sts = [x for f in o.facts if f.op in ("le0", "eq0") for x, _ in lin_parts(f.args[0])[1] if x.op == "len" and x.args[0].op == "mu"]
        ends = sorted({x.args[0] for x in sts}, key=lambda z: z.id)
        if r.op == "adt" and r.args[1] == 0:
            if len(ends) != 1:
                ctx.unk("list-decode", w, "cannot tell in which state the list is complete: %s" % clip(show(r)))
                good += 1
                continue
            e = ends[0]
            n = e.args[1]
            if e is not st(n):
                ctx.bad("list-decode", w, "the remaining bytes are not threaded through the element decoder: %s instead of %s" % (clip(show(e)), clip(show(st(n)))))
                continue
            want = Ok(Seq(Rep(0, n, (((), (item(TFld(ok_of(call(DR, st(mk("k", 0)))), 0)),)),))))
            ctx.check(r is want, "list-decode", w, "items in order; yields %s, specified %s" % (clip(show(r)), clip(show(want))))
            ctx.check(entails(o.facts, le(Len(e), ZERO)) is True, "list-decode-complete", w,
                      "a list is returned only when no byte is left; known: %s" % clip(showfacts(tuple(o.facts))))
            good += 1
        else:
            ctx.check(r.op == "adt" and r.args[1] == 1, "list-decode-error", w, "otherwise an error; yields %s" % clip(show(r)))
            ctx.check(any(f.op in ("not", "isv") and is_failure(f) for f in o.facts), "list-decode-error-cause", w,
                      "an error comes from an element that does not decode; known: %s" % clip(showfacts(tuple(o.facts))))
    ctx.check(good > 0, "list-decode", w, "some input decodes")


def is_failure(f):
    if f.op == "not":
        f = f.args[0]
        return f.op == "isv" and f.args[0].op == "call" and f.args[0].args[0] == DR and f.args[2] == 0
    return f.args[0].op == "call" and f.args[0].args[0] == DR and f.args[1] == RESULT and f.args[2] == 1
