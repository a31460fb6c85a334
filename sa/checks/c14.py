"""C14: amounts of a built transaction: nothing is created, leftovers within their bounds, the fee paid for."""
from spec import *
from common import *

TECHNIQUE = ("abstract interpretation of MIR: the leftover distribution as a transition relation over (amounts, remaining, size), "
             "compared state by state with its specification")
EXPLANATION = ("The distribution loop of TxBuilder::build is summarised as a transition relation over the amounts given so far, the amount "
               "remaining and the estimated size; every transition is compared, per case, with the specified one, and so are the initial "
               "state, the order in which leftover outputs are visited, and what is made of the final state.  Conservation (outputs never "
               "exceed inputs), the bounds of every leftover and the fee follow by induction over the transitions.  The sums, the outputs "
               "made from the amounts, the size estimate, the constructors and the functions adding outputs are compared exactly.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std used by the analyser (sa/models.py)",
               "the sums of the input amounts and of the output amounts, and size × fee rate, fit in 64 bits"]

B = "TxBuilder"
OPQ = ("TxBuilder::estimate_size", "TxBuilder::make_outputs", "TxPreimage::build_preimages", "TxBuilder::input_sum", "TxBuilder::known_output_sum")
OUT = "TxBuilderOutput"
U64MAX = Int((1 << 64) - 1)


def some(x):
    return mk("adt", OPTION, 1, x)


NONE = mk("adt", OPTION, 0)


def okv(x):
    return mk("adt", RESULT, 0, x)


def lo_of(o):
    return fld(o, OUT, "lower_bound", "Leftover")


def signed_inputs(b):
    """what is known of the inputs already: the signed inputs that carry a script"""
    k = mk("k", 0)
    ins = fld(b, B, "inputs")
    s = fld(Idx(ins, k), "TxBuilderInput", "signed_input")
    n = Len(fld(fld(some_of(s), "TxInput", "script"), "Script", "ops"))
    return ins, k, s, n


def leftover_seq(b):
    return fld(b, B, "outputs")


def compare_signed(ctx, rule, a, t, b, facts):
    ins, _, _, _ = signed_inputs(b)
    k = mk("k", 900)
    w = ctx.where(a.fid)
    facts = [f for f in facts if not has_op(f, "mu")]       # how the leftovers came out says nothing about the inputs
    outs = ctx.each(rule, w, t, Len(ins), k, facts, "one input per input of the builder")
    if outs:
        s = fld(Idx(ins, k), "TxBuilderInput", "signed_input")
        n = Len(fld(fld(some_of(s), "TxInput", "script"), "Script", "ops"))
        ctx.compare(rule, w, outs, [Case([Not(is_some(s))], Seq(item(NONE)), "not signed"),
                                    Case([is_some(s), le(n, ZERO)], Seq(item(NONE)), "signed without a script"),
                                    Case([is_some(s), lt(ZERO, n)], Seq(item(s)), "signed")], calls=OPQ)


def order(ctx, w, key, outputs):
    """the leftovers are visited in ascending order of precedence, every one of them once"""
    rule = "leftover-order"
    if key.op != "pick" or key.args[1].op != "perm" or key.args[1].args[0].op != "sorted":
        if not has_op(key, "perm") and not has_op(key, "sorted"):
            z = fuzzy(key, set(), PURE)
            if key.op in ("pick", "k", "idx") and z is None:
                return ctx.bad(rule, w, "leftover outputs are visited as %s: not by precedence" % clip(show(key)))
        return ctx.unk(rule, w, "cannot tell the order of %s" % clip(show(key)))
    src = key.args[1].args[0]
    xs = src.args[0]
    k = mk("k", 900)
    outs = ctx.each(rule, w, xs, Len(outputs), k, (), "every output considered")
    if not outs:
        return
    o = Idx(outputs, k)
    full = [x for x in outs if not (x.ret.op == "seq" and not x.ret.args)]
    for x in outs:
        kn = assume_facts(x.facts, isvar(o, OUT, "KnownValue"))
        lf = assume_facts(x.facts, isvar(o, OUT, "Leftover"))
        if x in full:
            ctx.check(kn is None or contradictory(kn), rule, w, "only leftovers are visited")
        else:
            ctx.check(lf is None or contradictory(lf), rule, w, "every leftover is visited")
    if len(full) != 1 or len(full[0].ret.args) != 1 or full[0].ret.args[0].op != "item":
        return ctx.unk(rule, w, "items %s" % clip(show(xs)))
    e = full[0].ret.args[0].args[0]
    comps = {(): e}
    if e.op == "tup":
        comps = {(i,): x for i, x in enumerate(e.args)}
    prec = fld(o, OUT, "precedence", "Leftover")
    ctx.check(any(x is k for x in comps.values()), rule, w, "the index of the output is what is kept")
    p = [Var("prec.0"), Var("prec.1")]
    for x in p:
        TM.TYP.setdefault(x, "i32")
    m = {}
    for v, q in (("$a", p[0]), ("$b", p[1])):
        for f in atoms(src.args[1]):
            if f.op == "tfld" and f.args[0] is Var(v) and comps.get((f.args[1],)) is prec:
                m[f] = q
        for f in atoms(src.args[1]):
            if f.op == "fld" and f.args[1:] == prec.args[1:] and f.args[0].op == "idx" and f.args[0].args[0] is outputs:
                i = f.args[0].args[1]
                if i is Var(v) and comps.get(()) is k or i.op == "tfld" and i.args[0] is Var(v) and comps.get((i.args[1],)) is k:
                    m[f] = q
        if comps.get(()) is prec:
            m[Var(v)] = q
    kf = subst(src.args[1], m)
    LESS, EQUAL, GREATER = (mk("adt", "core::cmp::Ordering", i) for i in range(3))
    if kf.op == "keyfn" and kf.args[0] == 2:
        outs = [Out(x, gs) for gs, x in kf.args[1]]
        ctx.compare(rule, w, outs, [Case([lt(p[0], p[1])], LESS, "lower precedence first"), Case([int_eq(p[0], p[1])], EQUAL, "same precedence"),
                                    Case([lt(p[1], p[0])], GREATER, "higher precedence later")])
    elif kf.op == "keyfn" and kf.args[0] == 1:
        ctx.compare(rule, w, [Out(x, gs) for gs, x in kf.args[1]], [Case([], p[0], "by precedence")])
    else:
        ctx.unk(rule, w, "sorted by %s" % clip(show(kf)))


def build(ctx):
    f = inherent(ctx, "build", B)
    a = f and ctx.run(f, opaque=OPQ)
    if not a:
        ctx.floor("distribution loops", 0, 1)
        return
    w = ctx.where(f)
    b = a.params[0]
    U = aid("UnsignedTx")
    known, inputs = call("TxBuilder::known_output_sum", b), call("TxBuilder::input_sum", b)
    for t in (known, inputs):
        TM.TYP.setdefault(t, "u64")
    oks = [o for o in a.outcomes if o.ret.op == "adt" and o.ret.args[1] == 0]
    # not enough to pay the outputs
    short = mk("adt", RESULT, 1, adt("Error", sub(known, inputs), var="InsufficientInputAmount"))
    ctx.first_match("sufficient-inputs", a, [
        Case([lt(inputs, known)], short, "the inputs do not pay for the outputs"),
        Case([], okv(ANY), "the inputs pay for the outputs")])
    ctx.no_panics("distribution-arithmetic", a, allow=(lambda o: o.kind == "assert:overflow:Mul",))
    if not oks:
        return
    by = {}
    for o in oks:
        t = fld(o.ret.args[2], "UnsignedTx", "outputs")
        if t.op == "call" and t.args[0] == "TxBuilder::make_outputs" and t.args[1] is b:
            by.setdefault(t.args[2], []).append(o)
        else:
            z = fuzzy(t, set(), PURE | set(OPQ))
            (ctx.unk if z is not None else ctx.bad)("outputs", w, "outputs are %s" % clip(show(t)))
    for M, os_ in by.items():
        distribution(ctx, a, os_, M, known, inputs)


def distribution(ctx, a, oks, M, known, inputs):
    w, b = ctx.where(a.fid), a.params[0]
    if fuzzy(M, set(), PURE | set(OPQ)) is None and not has_op(M, "minsert"):
        return ctx.bad("distribution", w, "the leftover outputs get the amounts %s" % clip(show(M)))
    L = LoopView(a, of=M)
    if not L.ok:
        return ctx.unk("distribution", w, L.why)
    ctx.floor("distribution loops", 1, 1)
    # which component is which, by how it starts
    comp = {}
    for i, t in enumerate(L.inits):
        if t is mk("emptymap"):
            comp["map"] = i
        elif t.op == "adt" and t.args[0] == OPTION:
            comp.setdefault("size", i)
        else:
            comp.setdefault("left", i)
    if "map" in comp and "left" not in comp:
        # nothing but the amounts changes: do they depend on what was given before?
        S = L.vars[comp["map"]]
        for st in L.steps[comp["map"]]:
            for t in atoms(st.ret):
                if t.op == "minsert" and t.args[0] is S:
                    v = subst(t.args[2], {x: Var("size") for x in atoms(t.args[2]) if x.op == "call" and x.args[0] == "TxBuilder::estimate_size"})
                    if S not in atoms(v) and not has_op(v, "mu") and not has_op(v, "self"):
                        return ctx.bad("remaining-amount", w, "what remains is not reduced by the amounts given: each is %s" % clip(show(v)))
    if "map" not in comp or "left" not in comp:
        return ctx.unk("distribution", w, "state %s" % [show(t) for t in L.inits])
    init = L.inits[comp["left"]]
    ctx.compare("distribution-start", w, [Out(init, o.facts) for o in oks[:1]], [Case([], sub(inputs, known), "what remains at first")], calls=OPQ)
    S, left = L.vars[comp["map"]], L.vars[comp["left"]]
    TM.TYP.setdefault(left, "u64")
    # the output a step is about
    keys = {t.args[1] for st in L.steps[comp["map"]] for t in atoms(st.ret) if t.op == "minsert"}
    if len(keys) != 1:
        return ctx.unk("distribution", w, "%d outputs given an amount in one step" % len(keys))
    key, = keys
    order(ctx, w, key, fld(b, B, "outputs"))
    idx = Var("leftover")
    TM.TYP.setdefault(idx, "usize")
    o = Idx(fld(b, B, "outputs"), idx)
    lo, hi = lo_of(o), fld(o, OUT, "upper_bound", "Leftover")
    rate = fld(b, B, "fee_per_kb")
    for t in (lo, hi, rate):
        TM.TYP.setdefault(t, "u64")
    ins = lambda v: mk("minsert", S, idx, v)
    size = call("TxBuilder::estimate_size", b, call("TxBuilder::make_outputs", b, ins(tmin(left, hi))))
    TM.TYP.setdefault(size, "usize")
    fee = TM.div(TM.mul(rate, size), Int(1000))
    v = tmin(hi, sub(left, fee))
    skip = [(lambda keep: [Case([le(left, lo)], keep, "no more remains than the lower bound"),
                           Case([lt(lo, left), lt(left, fee)], keep, "the fee cannot be paid"),
                           Case([lt(lo, left), le(fee, left), le(v, lo)], keep, "no more than the lower bound after the fee")])]

    def steps(i):
        base = [isvar(o, OUT, "Leftover"), lt(idx, Len(fld(b, B, "outputs")))]
        r = []
        for st in L.steps[i]:
            fs = frozenset(base)
            for g in st.facts:
                fs = assume_facts(fs, norm(subst(g, {key: idx}), fs)) if fs is not None else None
            if fs is None:
                continue
            r.append(Out(subst(st.ret, {key: idx}), fs))
        return r

    def cases(keep, give, name):
        r = []
        for gs, nm in (([le(left, lo)], "no more remains than the lower bound"), ([lt(lo, left), lt(left, fee)], "the fee cannot be paid"),
                       ([lt(lo, left), le(fee, left), le(v, lo)], "no more than the lower bound after the fee")):
            r.append(Case(gs, keep, "%s: %s" % (name, nm)))
        r.append(Case([lt(lo, left), le(fee, left), lt(lo, v)], give, "%s: given its amount" % name))
        return r
    got = [Out(subst(x.ret, {mk("mremove", S, idx): S}), x.facts) for x in steps(comp["map"])]
    ctx.compare("leftover-amount", w, got, cases(S, ins(v), "amounts"), calls=OPQ, cover=False)
    ctx.compare("remaining-amount", w, steps(comp["left"]), cases(left, sub(left, v), "remaining"), calls=OPQ, cover=False)
    # the result
    est = lambda m: call("TxBuilder::estimate_size", b, call("TxBuilder::make_outputs", b, m))
    size_steps = None
    for x in oks:
        u = x.ret.args[2]
        outs = call("TxBuilder::make_outputs", b, M)
        ctx.compare("built", w, [Out(fld(u, "UnsignedTx", "outputs"), x.facts)], [Case([], outs, "the outputs")], calls=OPQ, vocab=atoms(M))
        ctx.compare("built", w, [Out(fld(u, "UnsignedTx", "builder"), x.facts)], [Case([], b, "the builder")])
        ctx.compare("built", w, [Out(fld(u, "UnsignedTx", "tx_preimages"), x.facts)], [Case([], call(
            "TxPreimage::build_preimages", struct("TxBuilderPreimages", builder=b, outputs=outs)), "the preimages are of this builder and these outputs")],
            calls=OPQ, vocab=atoms(M))
        compare_signed(ctx, "built-inputs", a, fld(u, "UnsignedTx", "inputs"), b, x.facts)
        sz = fld(u, "UnsignedTx", "estimated_size")
        if sz.op == "fld" and sz.args[0].op == "mu":
            m = sz.args[0]
            if m.args[0] is M.args[0] and m.args[3] is M.args[3] and m.args[4] is M.args[4]:
                size_steps = L.inits[m.args[2]], steps(m.args[2]), L.vars[m.args[2]]
                continue
            L2 = LoopView(a, of=m)
            if not L2.ok or len(L2.inits) != 1 or m.args[1] is not M.args[1]:
                ctx.unk("estimated-size", w, L2.why or "state of its own")
                continue
            at = {mk("k", L2.d): mk("k", L.d)}
            final = {canon(mk("mu", *M.args[:2], i, *M.args[3:])): v for i, v in enumerate(L.vars)}

            def same(t):
                t = subst(t, at)
                return subst(t, {y: final[z] for y in atoms(t) if y.op == "mu" and y.args[1] is mk("k", L.d)
                                 for z in [canon(mk("mu", y.args[0], M.args[1], *y.args[2:]))] if z in final})
            kept, L.steps = L.steps, L.steps + [[Out(same(st.ret), [same(g) for g in st.facts]) for st in L2.steps[0]]]
            size_steps = L2.inits[0], steps(len(kept)), L2.vars[0]
            L.steps = kept
        else:
            ctx.compare("estimated-size", w, [Out(sz, x.facts)], [Case([], est(M), "no leftover: the size of the outputs")], calls=OPQ,
                        vocab=atoms(M) | {y for g in x.facts for y in atoms(g) if y.op == "mu"})
    if size_steps:
        init, got, var = size_steps
        ctx.check(init is NONE, "estimated-size", w, "no size at first")
        ctx.compare("estimated-size", w, got, cases(var, some(size), "size"), calls=OPQ, cover=False)


def parts(ctx):
    run = lambda nm, opq=(): (lambda f: f and ctx.run(f, opaque=opq))(inherent(ctx, nm, B))
    # outputs from amounts
    a = run("make_outputs")
    if a:
        b, m = a.params
        xs = fld(b, B, "outputs")
        k = mk("k", 900)
        for x in a.outcomes:
            outs = ctx.each("outputs-made", ctx.where(a.fid), x.ret, Len(xs), k, x.facts, "every output considered, in order")
            if outs:
                o = Idx(xs, k)
                amount = mk("mget", m, k)
                ctx.compare("outputs-made", ctx.where(a.fid), outs, [
                    Case([isvar(o, OUT, "KnownValue")], Seq(item(Fld(o, aid(OUT), 0, 0))), "known output"),
                    Case([isvar(o, OUT, "Leftover"), Not(is_some(amount))], EMPTY, "leftover without an amount is left out"),
                    Case([isvar(o, OUT, "Leftover"), is_some(amount)], Seq(item(struct("TxOutput", value=some_of(amount), script=fld(o, OUT, "script", "Leftover")))),
                         "leftover with its amount")], vocab={amount})
    # sums
    k = mk("k", 0)
    for nm, fl, cases in (("known_output_sum", "outputs", lambda o: ((isvar(o, OUT, "KnownValue"), fld(Fld(o, aid(OUT), 0, 0), "TxOutput", "value")),
                                                                  (isvar(o, OUT, "Leftover"), ZERO))),
                          ("input_sum", "inputs", lambda o: ((TRUE, path(o, ("TxBuilderInput", "input"), ("UnsignedTxInput", "value"))),))):
        a = run(nm)
        if not a:
            continue
        xs = fld(a.params[0], B, fl)
        d = mk("k", 900)
        for x in a.outcomes:
            if x.ret.op != "sum":
                z = fuzzy(x.ret, set(), PURE)
                (ctx.unk if z is not None else ctx.bad)("sum", ctx.where(a.fid), "%s is %s" % (nm, clip(show(x.ret))))
                continue
            s = x.ret
            ctx.check(canon(norm(s.args[1], x.facts)) is canon(norm(Len(xs), x.facts)), "sum", ctx.where(a.fid), "over all %s: %s" % (fl, show(s.args[1])))
            outs = [Out(subst(t, {mk("k", s.args[0]): d}), [subst(g, {mk("k", s.args[0]): d}) for g in gs]) for gs, t in s.args[2]]
            ctx.compare("sum", ctx.where(a.fid), outs, [Case([g] if g is not TRUE else [], v, nm) for g, v in cases(Idx(xs, d))])
    # size
    a = run("estimate_size", ("UnhashedTx::ser", "BitcoinCode::ser", "TxPreimage::empty_with_script"))
    if a:
        b, outputs = a.params
        ins = fld(b, B, "inputs")
        k = mk("k", 900)
        w = ctx.where(a.fid)
        for x in a.outcomes:
            t = x.ret
            if not (t.op == "len" and t.args[0].op == "call" and t.args[0].args[0].endswith("::ser")):
                z = fuzzy(t, set(), PURE)
                (ctx.unk if z is not None else ctx.bad)("size-estimate", w, "size is %s" % clip(show(t)))
                continue
            tx = t.args[0].args[1]
            for fn, want in (("version", fld(b, B, "version")), ("outputs", outputs), ("lock_time", fld(b, B, "lock_time"))):
                ctx.compare("size-estimate", w, [Out(fld(tx, "UnhashedTx", fn), x.facts)], [Case([], want, fn)])
            outs = ctx.each("size-estimate", w, fld(tx, "UnhashedTx", "inputs"), Len(ins), k, x.facts, "every input")
            if outs:
                i = Idx(ins, k)
                ls = fld(i, "TxBuilderInput", "lock_script")
                base = dict(prev_out=path(i, ("TxBuilderInput", "input"), ("UnsignedTxInput", "prev_out")), sequence=path(
                    i, ("TxBuilderInput", "input"), ("UnsignedTxInput", "sequence")), lock_script=ANY, value=ANY, is_p2sh=ANY, sig_hash_flags=ANY)
                fn = fld(i, "TxBuilderInput", "func_script")
                pre = mk("repeat", call("TxPreimage::empty_with_script", some_of(ls)), Len(fld(i, "TxBuilderInput", "sig_hash_flags")))
                ap = lambda p, l: Seq(item(struct("TxInput", script=call("apply", fn, p, NONE, NONE, l, outputs), **base)))
                ctx.compare("size-estimate", w, outs, [
                    Case([is_some(ls)], ap(pre, some_of(ls)), "input of known locking script"),
                    Case([Not(is_some(ls))], ap(EMPTY, adt("Script", EMPTY)), "input without locking script")], calls=("TxPreimage::empty_with_script", "apply"))
    # without leftovers
    a = run("build_without_estimation", OPQ)
    if a:
        b = a.params[0]
        xs = fld(b, B, "outputs")
        w = ctx.where(a.fid)
        var = Var("i")
        k = mk("k", 900)
        seen = set()
        for x in a.outcomes:
            r = ctx.search(x, Len(xs), lambda i: [isvar(Idx(xs, i), OUT, "Leftover")], var)
            if r is None and x.ret.op == "adt" and x.ret.args[:2] == (RESULT, 0):
                r = "none", x
            if r is None:
                ctx.unk("exact-build", w, clip(show(x.ret)))
                continue
            kind, y = r
            seen.add(kind)
            if kind == "found":
                ctx.compare("exact-build", w, [y], [Case([], ERR, "a leftover output is an error")])
                continue
            if not (y.ret.op == "adt" and y.ret.args[0] == RESULT and y.ret.args[1] == 0):
                ctx.bad("exact-build", w, "without a leftover output: %s" % clip(show(y.ret)))
                continue
            u = y.ret.args[2]
            os_ = fld(u, "UnsignedTx", "outputs")
            outs = ctx.each("exact-build", w, os_, Len(xs), k, y.facts, "every output")
            if outs:
                ctx.compare("exact-build", w, outs, [Case([], Seq(item(Fld(Idx(xs, k), aid(OUT), 0, 0))), "the output")])
            ctx.compare("exact-build", w, [Out(fld(u, "UnsignedTx", "builder"), y.facts)], [Case([], b, "the builder")])
            ctx.compare("exact-build", w, [Out(fld(u, "UnsignedTx", "tx_preimages"), y.facts)], [Case([], call(
                "TxPreimage::build_preimages", struct("TxBuilderPreimages", builder=b, outputs=os_)), "the preimages")], calls=OPQ)
            ctx.compare("exact-build", w, [Out(fld(u, "UnsignedTx", "estimated_size"), y.facts)], [Case([], call(
                "TxBuilder::estimate_size", b, os_), "the size")], calls=OPQ)
            compare_signed(ctx, "built-inputs", a, fld(u, "UnsignedTx", "inputs"), b, y.facts)
    # construction
    new = lambda v, l, r: struct(B, version=v, inputs=EMPTY, outputs=EMPTY, lock_time=l, fee_per_kb=r)
    n = 0
    for nm, want in (("new_simple", lambda p: new(Int(1), ZERO, Int(1000))), ("new", lambda p: new(p[0], p[1], Int(1000))),
                     ("new_with_fee", lambda p: new(*p))):
        a = run(nm)
        if a:
            n += 1
            ctx.expect("new-builder", a, [Case([], want(a.params), nm)])
    ctx.floor("constructors", n, 3)

    def upd(p, **kw):
        return struct(B, **{f["name"]: kw.get(f["name"]) or fld(p, B, f["name"]) for f in ctx.F.adts[aid(B)]["variants"][0]["fields"]})
    more = lambda p, o: upd(p, outputs=Seq(fld(p, B, "outputs"), item(o)))
    for nm, want in (("set_fee_per_kb", lambda p: upd(p[0], fee_per_kb=p[1])),
                     ("add_output", lambda p: more(p[0], mk("adt", aid(OUT), 0, ANY))),
                     ("add_leftover_output", lambda p: more(p[0], leftover(Int(546), U64MAX, ZERO, p[1]))),
                     ("add_leftover_output_bounded", lambda p: more(p[0], leftover(*p[1:])))):
        a = run(nm)
        if not a:
            continue
        ctx.expect("output-added" if "add" in nm else "fee-rate", a, [Case([], want(a.params), nm)], proj=lambda o, p=a.params[0]: o.mem.get(p.args[0], p), calls=("into",))
        if nm == "add_output":
            for o in a.outcomes:
                t = o.mem.get(a.params[0].args[0])
                conv = [x for x in atoms(t) if x.op == "call" and x.args[0] == "into" and x.args[1] is a.params[1]] if t is not None else []
                ctx.check(bool(conv) or fuzzy(t, set(), PURE) is not None, "output-added", ctx.where(a.fid), "the output as given")
    a = run("add_outputs")
    if a:
        w = ctx.where(a.fid)
        L = LoopView(a)
        p = a.params[0]
        final = [o.mem.get(p.args[0], p) for o in a.outcomes]
        if not L.ok and all(t is p or fuzzy(t, set(), PURE) is None and not any(y is a.params[1] for y in atoms(t)) for t in final):
            ctx.bad("output-added", w, "no output is added: leaves %s" % clip(show(final[0])))
        elif not L.ok:
            ctx.unk("output-added", w, L.why)
        else:
            i = next((i for i, t in enumerate(L.inits) if t is p or t is fld(p, B, "outputs")), None)
            if i is None:
                ctx.unk("output-added", w, "state %s" % [show(t) for t in L.inits])
            else:
                s = L.vars[i]
                one = mk("adt", aid(OUT), 0, call("into", Idx(a.params[1], mk("k", L.d)), ANY))
                want = upd(s, outputs=Seq(fld(s, B, "outputs"), item(one))) if L.inits[i] is p else Seq(s, Seq(item(one)))
                ctx.compare("output-added", w, L.steps[i], [Case([], want, "add_outputs: each in turn")], calls=("into",))


def leftover(lo, hi, prec, script):
    F = load_facts("main")
    a = aid(OUT)
    vi = variant(a, "Leftover")
    kw = dict(lower_bound=lo, upper_bound=hi, precedence=prec, script=script)
    return mk("adt", a, vi, *[kw[f["name"]] for f in F.adts[a]["variants"][vi]["fields"]])


def check(ctx):
    build(ctx)
    parts(ctx)
