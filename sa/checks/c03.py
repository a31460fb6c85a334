"""C03: transactions and their parts have the network wire form, both ways."""
from spec import *
from common import *

TECHNIQUE = "abstract interpretation of MIR (macro-expanded derives): field-order and consumption summaries compared with the protocol layout"
EXPLANATION = ("The expanded codec of every wire structure (outpoint, input, output, transaction, signature preimage, hashed transaction) is "
               "summarised from MIR; encoding must be the concatenation of the protocol's fields in protocol order, decoding must consume exactly "
               "those bytes in that order, put each into its field, leave the rest, and fail as soon as a part is missing.  Element codecs "
               "(scripts, vectors) are uninterpreted here: they are decided by C02 and C05.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std used by the analyser (sa/models.py)"]

OPAQUE = ("Vec::ser", "Vec::deser_rest", "Script::ser", "Script::deser_rest")
W = {"i32": 4, "u32": 4, "u64": 8}

LAYOUT = {
    "TxOutpoint": [("tx_hash", "Sha256d"), ("vout", "u32")],
    "TxInput": [("prev_out", "TxOutpoint"), ("script", "Script"), ("sequence", "u32")],
    "TxOutput": [("value", "u64"), ("script", "Script")],
    "UnhashedTx": [("version", "i32"), ("inputs", "Vec"), ("outputs", "Vec"), ("lock_time", "u32")],
    "TxPreimage": [("version", "i32"), ("hash_prevouts", "Sha256d"), ("hash_sequence", "Sha256d"), ("outpoint", "TxOutpoint"),
                   ("script_code", "Script"), ("value", "u64"), ("sequence", "u32"), ("hash_outputs", "Sha256d"),
                   ("lock_time", "u32"), ("sig_hash_type", "u32")],
}
SKIPPED = {"TxInput": {"lock_script": NONE, "value": NONE, "is_p2sh": NONE, "sig_hash_flags": NONE}}


def enc(x, kind):
    if kind in W:
        return [LeB(W[kind], x)]
    if kind == "Sha256d":
        return [fld(Fld(x, aid("Sha256d"), 0, 0), "FixedByteArray", "byte_array")]
    if kind in LAYOUT:
        return [p for f, k in LAYOUT[kind] for p in enc(fld(x, kind, f), k)]
    return [call(kind + "::ser", x)]


def dec(d, kind):
    """-> (value, rest, [(ok guard)]) in order"""
    if kind in W or kind == "Sha256d":
        n = W.get(kind, 32)
        N = Int(n)
        b = Slice(d, ZERO, N)
        v = unle(n, b, kind) if kind in W else adt("Sha256d", struct("FixedByteArray", phantom=ANY, byte_array=b))
        return v, Slice(d, N, Len(d)), [le(N, Len(d))]
    if kind in LAYOUT:
        vals, gs = dict(SKIPPED.get(kind, {})), []
        for f, k in LAYOUT[kind]:
            v, d, g = dec(d, k)
            vals[f] = v
            gs += g
        return struct(kind, **vals), d, gs
    r = call(kind + "::deser_rest", d)
    return TFld(ok_of(r), 0), TFld(ok_of(r), 1), [is_ok(r)]


def check(ctx):
    S = methods(ctx, "ser", "BitcoinCode")
    D = methods(ctx, "deser_rest", "BitcoinCode")
    n = 0
    for ty, lay in LAYOUT.items():
        if ty not in S or ty not in D:
            ctx.bad("codec", ty, "%s has no wire codec" % ty)
            continue
        n += 1
        a = ctx.run(S[ty], opaque=OPAQUE)
        if a:
            ctx.expect("encode", a, [Case([], Seq(*enc(a.params[0], ty)), ty)])
            ctx.no_panics("encode-total", a)
        a = ctx.run(D[ty], opaque=OPAQUE)
        if a:
            d = a.params[0]
            v, rest, gs = dec(d, ty)
            cs = [Case(gs, Ok(Tup(v, rest)), ty + " complete")]
            for i in range(len(gs)):
                cs.append(Case(gs[:i] + [Not(gs[i])], ERR, "%s part %d missing" % (ty, i)))
            ctx.expect("decode", a, cs)
            ctx.no_panics("decode-total", a)
    ctx.floor("wire structures", n, 5)
    # the hashed transaction: its wire form is its raw bytes, decoding keeps exactly the consumed bytes
    if "Tx" in S and "Tx" in D:
        a = ctx.run(S["Tx"], opaque=OPAQUE)
        if a:
            ctx.expect("encode", a, [Case([], fld(a.params[0], "Tx", "raw"), "Tx")])
        a = ctx.run(D["Tx"], opaque=OPAQUE + ("UnhashedTx::deser_rest",))
        if a:
            d = a.params[0]
            r = call("UnhashedTx::deser_rest", d)
            rest = TFld(ok_of(r), 1)
            used = sub(Len(d), Len(rest))
            raw = Slice(d, ZERO, used)
            h = adt("Sha256d", struct("FixedByteArray", phantom=ANY, byte_array=mk("digest", "sha256", mk("digest", "sha256", raw))))
            good = [is_ok(r), le(Len(rest), Len(d))]
            ctx.expect("decode-tx", a, [
                Case(good, Ok(Tup(struct("Tx", unhashed_tx=TFld(ok_of(r), 0), hash=h, raw=raw), Slice(d, used, Len(d)))), "Tx"),
                Case([Not(is_ok(r))], ERR, "contents do not decode")])
    # hashing a transaction: its wire form, and the double hash of that
    f = inherent(ctx, "hashed", "UnhashedTx")
    a = f and ctx.run(f, opaque=OPAQUE + ("UnhashedTx::ser", "BitcoinCode::ser"))
    if a:
        u = a.params[0]
        for o in a.outcomes:
            raws = [x for x in atoms(o.ret) if x.op == "call" and x.args[0] in ("UnhashedTx::ser", "BitcoinCode::ser")]
            raw = raws[0] if raws else call("UnhashedTx::ser", u)
            h = adt("Sha256d", struct("FixedByteArray", phantom=ANY, byte_array=mk("digest", "sha256", mk("digest", "sha256", raw))))
            ctx.compare("hashed", ctx.where(f), [o], [Case([], struct("Tx", unhashed_tx=u, hash=h, raw=raw), "a hashed transaction")], calls=("UnhashedTx::ser", "BitcoinCode::ser"))
            ctx.check(raw.args[1] is u, "hashed", ctx.where(f), "of this transaction")
    t = lambda p, *s: path(p, ("Tx", "unhashed_tx"), *[("UnhashedTx", x) for x in s])
    for nm, want in (("hash", lambda p: fld(p, "Tx", "hash")), ("raw", lambda p: fld(p, "Tx", "raw")), ("version", lambda p: t(p, "version")),
                     ("inputs", lambda p: t(p, "inputs")), ("outputs", lambda p: t(p, "outputs")), ("lock_time", lambda p: t(p, "lock_time")),
                     ("unhashed_tx", t), ("into_unhashed_tx", t)):
        f = inherent(ctx, nm, "Tx")
        a = f and ctx.run(f)
        if a:
            ctx.expect("view", a, [Case([], want(a.params[0]), nm)])
    f = inherent(ctx, "new", "TxInput")
    a = f and ctx.run(f)
    if a:
        p = a.params
        ctx.expect("view", a, [Case([], struct("TxInput", prev_out=p[0], script=p[1], sequence=p[2], lock_script=NONE, value=NONE, is_p2sh=NONE, sig_hash_flags=NONE), "TxInput::new")])
