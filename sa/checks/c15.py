"""C15: signing a built transaction: each input signed once, in place, with its own data, and the finished transaction is what was built."""
from spec import *
from common import *

TECHNIQUE = "abstract interpretation of MIR: exact summaries of adding, signing and finishing, closures included"
EXPLANATION = ("Adding an input, the closure it stores (analysed as a function of its own), signing by reference, by index and by signatory, and the "
               "three ways of finishing are summarised exactly from MIR, over any signatory, script and position: every field of the result, the "
               "error for an input already signed, and which positions can be touched are compared with the specification.  The view of a builder "
               "from which the preimages are computed is compared accessor by accessor.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std used by the analyser (sa/models.py)",
               "inputs are referred to by references of the same builder, and each is given signatures of its signatory's type"]

B, U, I = "TxBuilder", "UnsignedTx", "TxBuilderInput"
OPQ = ("Script::ser_ops",)
CALLS = ("apply", "into", "std::boxed::Box::downcast", "Signatory::build_script", "Signatory::placeholder_signatures", "Signatory::is_p2sh",
         "Signatory::sig_hash_flags", "SignatoryKind::make_tx_preimages", "SignatoryKind::sig_hash_flags_vec", "Ops::ops", "Script::ser_ops")
EMPTY_SCRIPT = None


def some(x):
    return mk("adt", OPTION, 1, x)


NONE_ = mk("adt", OPTION, 0)


def push(data):
    """the operation pushing data, minimally"""
    return struct("TaggedOp", op=adt("Op", data, TRUE, var="PushByteArray"), src_file=ANY, src_line=ANY, src_column=ANY, src_code=ANY,
                  pushed_names=ANY, alt_pushed_names=ANY)


def unlocking(sig, kindpre, size, sigs, lock, outs, p2sh):
    ops = call("Ops::ops", call("Signatory::build_script", sig, kindpre, size, sigs, lock, outs))
    return adt("Script", Seq(ops, item(push(call("Script::ser_ops", lock)))) if p2sh else ops)


def upd(ty, p, **kw):
    F = load_facts("main")
    return struct(ty, **{f["name"]: kw.get(f["name"]) or fld(p, ty, f["name"]) for f in F.adts[aid(ty)]["variants"][0]["fields"]})


def signed(u, i, script):
    """the input a signature turns input i into"""
    b = Idx(fld(fld(u, U, "builder"), B, "inputs"), i)
    return struct("TxInput", prev_out=path(b, (I, "input"), ("UnsignedTxInput", "prev_out")), script=script,
                  sequence=path(b, (I, "input"), ("UnsignedTxInput", "sequence")), lock_script=fld(b, I, "lock_script"),
                  value=some(path(b, (I, "input"), ("UnsignedTxInput", "value"))), is_p2sh=fld(b, I, "is_p2sh"),
                  sig_hash_flags=some(fld(b, I, "sig_hash_flags")))


def index_panics(o):
    return o.kind in ("panic:index", "assert:bounds")


def signing(ctx):
    n = 0
    for nm in ("sign_input_dyn", "sign_input", "sign_input_signatory"):
        f = inherent(ctx, nm, U)
        a = f and ctx.run(f, opaque=OPQ)
        if not a:
            continue
        n += 1
        w = ctx.where(f)
        u, ref, sigs = a.params[0], a.params[1], a.params[-1]
        i = ref if nm == "sign_input_dyn" else fld(ref, "InputReference", "input_idx")
        TM.TYP.setdefault(i, "usize")
        ins = fld(u, U, "inputs")
        done = is_some(Idx(ins, i))
        b = Idx(fld(fld(u, U, "builder"), B, "inputs"), i)
        ls, outs, size = fld(b, I, "lock_script"), fld(u, U, "outputs"), some(fld(u, U, "estimated_size"))
        pre = Idx(fld(u, U, "tx_preimages"), i)
        bounds = [lt(i, Len(ins)), lt(i, Len(fld(u, U, "tx_preimages"))), lt(i, Len(fld(fld(u, U, "builder"), B, "inputs")))]
        cases = [Case([done], Tup(mk("adt", RESULT, 1, adt("Error", i, var="InputAlreadySigned")), u), "already signed")]
        for lg, lock, ln in (([Not(is_some(ls))], adt("Script", EMPTY), "no locking script"), ([is_some(ls)], some_of(ls), "locking script")):
            if nm == "sign_input_signatory":
                s = a.params[2]
                h = call("Signatory::is_p2sh", s)
                kp = call("SignatoryKind::make_tx_preimages", pre)
                vs = [(lg + [h if p else Not(h)], unlocking(s, kp, size, sigs, lock, outs, p), ln + (", P2SH" if p else "")) for p in (True, False)]
            else:
                vs = [(lg, call("apply", fld(b, I, "func_script"), pre, size, some(sigs), lock, outs), ln)]
            for gs, script, name in vs:
                new = upd(U, u, inputs=mk("updi", ins, i, some(signed(u, i, script))))
                cases.append(Case([Not(done)] + bounds + gs, Tup(Ok(TM.UNIT), new), name))
        ctx.expect("signing", a, cases, proj=lambda o: Tup(o.ret, next((v for k, v in o.mem.items() if is_t(v)), u)), calls=CALLS)
        for o in a.outcomes:
            ctx.check(not o.events, "signing-effects", w, "signing has no effect but on the transaction: %s" % [clip(show(e)) for e in o.events])
        ctx.no_panics("signing-total", a, allow=(index_panics,))
    ctx.floor("signing functions", n, 3)


def adding(ctx):
    f = inherent(ctx, "add_input", B)
    a = f and ctx.run(f, opaque=OPQ)
    n = 0
    if a:
        b, inp, lock, sig = a.params
        ins = fld(b, B, "inputs")
        F = ctx.F
        want = upd(B, b, inputs=Seq(ins, item(struct(I, input=ANY, func_script=ANY, sig_hash_flags=call(
            "SignatoryKind::sig_hash_flags_vec", call("Signatory::sig_hash_flags", sig)), lock_script=some(adt("Script", fld(lock, "TaggedScript", "tagged_ops"))),
            is_p2sh=some(call("Signatory::is_p2sh", sig)), signed_input=NONE_))))
        ctx.expect("adding", a, [Case([], Tup(struct("InputReference", phantom=ANY, input_idx=Len(ins)), want), "add_input")],
                   proj=lambda o: Tup(o.ret, o.mem.get(b.args[0], b)), calls=CALLS)
        for o in a.outcomes:
            t = o.mem.get(b.args[0])
            conv = [x for x in atoms(t) if x.op == "call" and x.args[0] == "into" and x.args[1] is inp] if t is not None else []
            ctx.check(bool(conv), "adding", ctx.where(f), "the input as given")
            for c in [x for x in atoms(t) if x.op == "clo"] if t is not None else []:
                n += 1
                g = ctx.run(c.args[0], argv={0: c}, args=c.args[1], opaque=OPQ)
                if not g:
                    continue
                _, pre, size, sigs, lk, outs = g.params
                kp = call("SignatoryKind::make_tx_preimages", pre)
                real = call("std::boxed::Box::downcast", some_of(sigs))
                cs = []
                for p in (True, False):
                    h = call("Signatory::is_p2sh", sig)
                    for gs, s, nm in (([Not(is_some(sigs))], call("Signatory::placeholder_signatures", sig), "placeholder"),
                                      ([is_some(sigs), is_ok(real)], ok_of(real), "signatures")):
                        cs.append(Case(gs + [h if p else Not(h)], unlocking(sig, kp, size, s, lk, outs, p), nm + (", P2SH" if p else "")))
                ctx.expect("unlocking-script", g, cs, calls=CALLS, where="%s, the script function" % ctx.where(f))
                ctx.no_panics("unlocking-script-total", g, allow=(lambda o: o.kind == "panic:Result::expect",))
    ctx.floor("script functions", n, 1)
    # from a transaction
    f = inherent(ctx, "from_tx", B)
    a = f and ctx.run(f)
    if a:
        tx = a.params[0]
        k = mk("k", 900)
        w = ctx.where(f)
        ins, outs = fld(tx, "UnhashedTx", "inputs"), fld(tx, "UnhashedTx", "outputs")
        for o in a.outcomes:
            for fn, want in (("version", fld(tx, "UnhashedTx", "version")), ("lock_time", fld(tx, "UnhashedTx", "lock_time")), ("fee_per_kb", Int(1000))):
                ctx.compare("from-transaction", w, [Out(fld(o.ret, B, fn), o.facts)], [Case([], want, fn)])
            each = ctx.each("from-transaction", w, fld(o.ret, B, "outputs"), Len(outs), k, o.facts, "every output")
            if each:
                ctx.compare("from-transaction", w, each, [Case([], Seq(item(mk("adt", aid("TxBuilderOutput"), 0, Idx(outs, k)))), "output")])
            each = ctx.each("from-transaction", w, fld(o.ret, B, "inputs"), Len(ins), k, o.facts, "every input")
            if not each:
                continue
            i = Idx(ins, k)
            t = lambda x: fld(i, "TxInput", x)
            cs = []
            for vg, v in (([is_some(t("value"))], some_of(t("value"))), ([Not(is_some(t("value")))], ZERO)):
                for fg, fl in (([is_some(t("sig_hash_flags"))], some_of(t("sig_hash_flags"))), ([Not(is_some(t("sig_hash_flags")))], EMPTY)):
                    cs.append(Case(vg + fg, Seq(item(struct(I, input=struct("UnsignedTxInput", prev_out=t("prev_out"), sequence=t("sequence"), value=v),
                                                            func_script=ANY, sig_hash_flags=fl, lock_script=t("lock_script"), is_p2sh=t("is_p2sh"),
                                                            signed_input=some(i)))), "input"))
            ctx.compare("from-transaction", w, each, cs)
            for e in each:
                for c in [x for x in atoms(e.ret) if x.op == "clo"]:
                    g = ctx.run(c.args[0], argv={0: c}, args=c.args[1])
                    if g:
                        ctx.expect("from-transaction", g, [Case([], t("script"), "the script of the input is kept")], where=w + ", the script function")


def finishing(ctx):
    f = inherent(ctx, "complete_tx", U)
    a = f and ctx.run(f)
    k = mk("k", 900)

    def rest(a, w, o):
        u = a.params[0]
        for fn, want in (("version", path(u, (U, "builder"), (B, "version"))), ("outputs", fld(u, U, "outputs")),
                         ("lock_time", path(u, (U, "builder"), (B, "lock_time")))):
            ctx.compare("finishing", w, [Out(fld(o.ret, "UnhashedTx", fn), o.facts)], [Case([], want, fn)])
    if a:
        u = a.params[0]
        w = ctx.where(f)
        ins = fld(u, U, "inputs")
        for o in a.outcomes:
            rest(a, w, o)
            each = ctx.each("finishing", w, fld(o.ret, "UnhashedTx", "inputs"), Len(ins), k, o.facts, "every input, in order")
            if each:
                ctx.compare("finishing", w, each, [Case([is_some(Idx(ins, k))], Seq(item(some_of(Idx(ins, k)))), "the signed input")])
    f = inherent(ctx, "partial_tx", U)
    a = f and ctx.run(f, facts=lambda p: frozenset([eq0(sub(Len(fld(p[0], U, "inputs")), Len(path(p[0], (U, "builder"), (B, "inputs")))))]))
    if a:
        u = a.params[0]
        w = ctx.where(f)
        ins = fld(u, U, "inputs")
        for o in a.outcomes:
            rest(a, w, o)
            each = ctx.each("finishing", w, fld(o.ret, "UnhashedTx", "inputs"), Len(ins), k, o.facts, "every input, in order")
            if each:
                x = Idx(ins, k)
                ctx.compare("finishing", w, each, [Case([is_some(x)], Seq(item(some_of(x))), "a signed input"),
                                                   Case([Not(is_some(x))], Seq(item(signed(u, k, adt("Script", EMPTY)))), "an unsigned input has no script")])
        ctx.no_panics("finishing-total", a)
    for nm, ty, want in (("into_tx_builder", U, lambda p: fld(p[0], U, "builder")), ("estimated_size", U, lambda p: fld(p[0], U, "estimated_size")),
                         ("preimages", U, lambda p: fld(p[0], U, "tx_preimages")),
                         ("input_preimages", U, lambda p: call("SignatoryKind::make_tx_preimages", Idx(fld(p[0], U, "tx_preimages"), fld(p[1], "InputReference", "input_idx")))),
                         ("version", B, lambda p: fld(p[0], B, "version")), ("lock_time", B, lambda p: fld(p[0], B, "lock_time")),
                         ("new", "InputReference", lambda p: struct("InputReference", phantom=ANY, input_idx=p[0])),
                         ("input_idx", "InputReference", lambda p: fld(p[0], "InputReference", "input_idx"))):
        f = inherent(ctx, nm, ty)
        a = f and ctx.run(f)
        if a:
            ctx.expect("view", a, [Case([], want(a.params), "%s::%s" % (ty, nm))], calls=CALLS)


def view(ctx):
    """what the preimages are computed from is the builder"""
    V = "TxBuilderPreimages"
    n = 0

    def i(p, k):
        return Idx(path(p, (V, "builder"), (B, "inputs")), k)
    spec = {
        "version": lambda p: [Case([], path(p[0], (V, "builder"), (B, "version")), "version")],
        "lock_time": lambda p: [Case([], path(p[0], (V, "builder"), (B, "lock_time")), "lock time")],
        "num_inputs": lambda p: [Case([], Len(path(p[0], (V, "builder"), (B, "inputs"))), "number of inputs")],
        "num_outputs": lambda p: [Case([], Len(fld(p[0], V, "outputs")), "number of outputs")],
        "output_at": lambda p: [Case([], Idx(fld(p[0], V, "outputs"), p[1]), "output")],
        "input_outpoint_at": lambda p: [Case([], path(i(*p), (I, "input"), ("UnsignedTxInput", "prev_out")), "outpoint")],
        "input_sequence_at": lambda p: [Case([], path(i(*p), (I, "input"), ("UnsignedTxInput", "sequence")), "sequence")],
        "input_value_at": lambda p: [Case([], path(i(*p), (I, "input"), ("UnsignedTxInput", "value")), "value")],
        "input_sig_hash_flags_at": lambda p: [Case([], fld(i(*p), I, "sig_hash_flags"), "flags")],
        "input_lock_script_at": lambda p: [Case([is_some(fld(i(*p), I, "lock_script"))], some_of(fld(i(*p), I, "lock_script")), "locking script"),
                                           Case([Not(is_some(fld(i(*p), I, "lock_script")))], adt("Script", EMPTY), "no locking script")],
    }
    for nm, cs in spec.items():
        f = methods(ctx, nm, "ToPreimages").get(V)
        a = f and ctx.run(f)
        if a:
            n += 1
            ctx.expect("builder-view", a, cs(a.params))
    ctx.floor("accessors of the builder", n, 10)


def kinds(ctx):
    n = 0
    for ty in ("SignatoryKindOne", "SignatoryKindMultiple"):
        one = ty.endswith("One")
        for nm, want in (("sig_hash_flags_vec", lambda p: Seq(item(p)) if one else p), ("make_tx_preimages", lambda p: Idx(p, ZERO) if one else p)):
            f = methods(ctx, nm, "SignatoryKind").get(ty)
            a = f and ctx.run(f)
            if a:
                n += 1
                ctx.expect("signatory-kind", a, [Case([], want(a.params[0]), "%s::%s" % (ty, nm))])
    ctx.floor("signatory kinds", n, 4)
    S = lambda nm: methods(ctx, nm, "Signatory").get("P2PKHSignatory")
    P = "P2PKHSignatory"
    flags = lambda p: fld(p, P, "sig_hash_flags")
    for nm, want in (("sig_hash_flags", lambda p: flags(p[0])), ("placeholder_signatures", lambda p: mk("repeat", ZERO, Int(72))), ("is_p2sh", lambda p: FALSE),
                     ("build_script", lambda p: struct("P2PKHInputs", pubkey=Fld(fld(p[0], P, "pubkey"), aid("Pubkey"), 0, 0), sig=Seq(
                         p[3], item(trunc("u8", fld(flags(p[0]), "SigHashFlags", "bits"))))))):
        f = S(nm)
        a = f and ctx.run(f)
        if a:
            ctx.expect("p2pkh-signatory", a, [Case([], want(a.params), nm)])
    for i, x in sorted(ctx.F.fns.items()):
        if x.get("item") == "is_p2sh" and not x.get("impl_self") and x.get("body"):
            a = ctx.run(i)
            if a:
                ctx.expect("signatory-kind", a, [Case([], TRUE, "signatories are P2SH unless they say otherwise")])


def check(ctx):
    signing(ctx)
    adding(ctx)
    finishing(ctx)
    view(ctx)
    kinds(ctx)
