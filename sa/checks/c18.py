"""C18: the script macro keeps one stack per variant, and changes exactly those whose condition holds."""
import itertools
import interp as _interp
from types import SimpleNamespace
from spec import *
from common import *
from optable import OPS

TECHNIQUE = "abstract interpretation of MIR: each stack operation's loop over the variants as a transition relation, compared with its specification; exhaustive truth tables of the variant condition per shape"
EXPLANATION = ("The loops over the variants in push, pop, pick, roll and find are summarised as the change one iteration makes to one variant, the conditions under which they give up, and "
               "their results, and each is compared with the specification.  The condition of a variant is summarised for every shape of up to three atoms and two branch "
               "conditions, with symbolic names and signs, and compared with its truth table.  The statements that move items between the stacks, pushes, and calls of "
               "opcodes are summarised over arbitrary statements and compared operation by operation.")
ASSUMPTIONS = ["the values of a HashMap are visited once each", "Ident equality and display are by name", "rustc's MIR is the program that is compiled"]
HOLDS = "VariantPredicate::holds"
EXIT = Str("the operation is refused")
STACKS = ("VariantStates::push", "VariantStates::push_alt", "VariantStates::pick", "VariantStates::roll", "VariantStates::pop", "VariantStates::pop_alt", "VariantStates::find_item")
CALLS = set(STACKS) | {n + "#0" for n in STACKS} | {"Ident::new", "Ident::span"}
VS, IT_ = "VariantStates", "StackItem"


def state_ty(ctx):
    """the State of the macro (other crates may have types of that name)"""
    return next((i for i in ctx.F.adts if i.startswith("bitcoin_cash_script_macro") and i.endswith("::State")), None)


def st(x, name):
    return Fld(x, STATE, 0, SFIELD[name])


def check(ctx):
    global STATE, SFIELD
    STATE = state_ty(ctx)
    if not STATE:
        return ctx.unk("anchor", "State", "no such type")
    SFIELD = {f["name"]: i for i, f in enumerate(ctx.F.adts[STATE]["variants"][0]["fields"])}
    holds(ctx)
    pushes(ctx)
    takes(ctx)
    find(ctx)
    statements(ctx)


def rel(ctx, rule, item):
    """(summary, loop, element, exits) of a stack operation"""
    f = inherent(ctx, item, VS)
    a = f and ctx.run(f, opaque=(HOLDS,))
    if not a:
        return None
    w = ctx.where(f)
    for o in a.I.obl.values():
        if not o.ok:
            ctx.unk(rule, w, "%s possible: %s" % (o.kind, o.why))
    L = LoopView(a)
    if not L.ok:
        ctx.unk(rule, w, L.why)
        return None
    # the element a step is about: the one whose condition is asked for
    es = {x.args[1].args[0] for s in L.steps for o in s for g in list(o.facts) + [o.ret] for x in atoms(g) if x.op == "call" and x.args[0] == HOLDS and x.args[1].op == "fld"}
    if len(es) != 1:
        ctx.unk(rule, w, "the variant a step is about is not found (%d candidates)" % len(es))
        return None
    E, = es
    X = next((x for x in L.inits + (E,) for x in atoms(x) if x.op == "call" and x.args[0] in ("HashMap::iter_mut", "HashMap::values_mut", "HashMap::iter", "HashMap::values")), None)
    exits, ends = [], []
    for o in a.outcomes:
        fs = {x for t in list(o.facts) + [o.ret] for x in atoms(t) if x.op == "first" and x.args[0] == L.d and X is not None and x.args[1] is Len(X)}
        if not fs:
            ends.append(L.outcome(o))
            continue
        m = {x: mk("k", L.d) for x in fs}
        exits.append(Out(EXIT, frozenset(L.view(subst(g, m)) for g in o.facts)))
    pa = fld(a.params[0], VS, "predicate_atoms")
    for o in a.outcomes:
        t = fld(o.mem[a.params[0].args[0]], VS, "predicate_atoms") if a.params[0].op == "var" and a.params[0].args[0] in o.mem else pa
        ctx.check(t is pa, "conditions", w, "the branch conditions become %s" % clip(show(t)))
    return SimpleNamespace(a=a, L=L, E=E, X=X, exits=exits, ends=ends, w=w, self=a.params[0], comps=components(L))


def components(L):
    """the accumulators of a step, by how they start: those that always are set together count as one"""
    acc = [i for i, t in enumerate(L.inits) if t is NONE]
    pat = {}
    for i in acc:
        pat[i] = {(frozenset(o.facts), "some" if o.ret.op == "adt" and o.ret.args[:2] == (OPTION, 1) else "same" if o.ret is L.vars[i] else show(o.ret)) for o in L.steps[i]}
    together = bool(acc) and all(pat[i] == pat[acc[0]] for i in acc)
    return acc, together


def clean(R, outs):
    """the accumulators always are set together: a path that knows of one knows of all"""
    acc, together = R.comps
    if not together:
        return outs
    r = []
    for o in outs:
        fs = o.facts
        known = {entails(fs, is_none(R.L.vars[i])) for i in acc} - {None}
        if len(known) == 2:
            continue
        for v in known:
            for i in acc:
                fs = assume_facts(fs, is_none(R.L.vars[i]) if v else Not(is_none(R.L.vars[i]))) if fs is not None else None
        if fs is not None:
            r.append(Out(o.ret, fs))
    return r


def is_none(x):
    return TM.isv(x, OPTION, 0)


def fm(ctx, rule, R, outs, cases):
    ctx.first_match(rule, SimpleNamespace(outcomes=clean(R, outs), opaque={HOLDS}, fid=R.a.fid, I=R.a.I), cases, where=R.w)


def all_visited(ctx, rule, R):
    """the loop goes over the states of self, all of them"""
    want = [call(n, fld(R.self, VS, "states")) for n in ("HashMap::iter_mut", "HashMap::values_mut", "HashMap::iter", "HashMap::values")]
    if not any(R.X is x for x in want):
        return ctx.unk(rule, R.w, "loops over %s" % clip(show(R.X) if R.X is not None else None))
    ns = {x.args[1] for o in R.a.outcomes for t in [o.ret, *o.facts, *[v for v in o.mem.values() if is_t(v)]] for x in atoms(t)
          if x.op == "mu" and x.args[0] is R.L.d and x.args[1].op not in ("first", "k")}
    ctx.check(all(n is Len(R.X) for n in ns), rule, R.w, "ends after %s variants" % [clip(show(n), 60) for n in ns])


def elem(R):
    """which component of the loop's state is the variant itself"""
    return next((i for i, v in enumerate(R.L.vars) if v is R.E), None)


def with_(E, **kw):
    return mk("adt", STATE, 0, *[kw.get(n, st(E, n)) for n in SFIELD])


def pushes(ctx):
    for item_, which in (("push", "stack"), ("push_alt", "alt_stack")):
        R = rel(ctx, "push", item_)
        if not R:
            continue
        all_visited(ctx, "push-all", R)
        e = elem(R)
        if e is None:
            ctx.bad("push", R.w, "no variant is changed")
            continue
        H = call(HOLDS, st(R.E, "condition"), fld(R.self, VS, "predicate_atoms"))
        s = st(R.E, which)
        fm(ctx, "push", R, R.L.steps[e], [Case([Not(H)], R.E, "a variant whose condition does not hold is unchanged"),
                                         Case([], with_(R.E, **{which: Seq(s, item(R.a.params[1]))}), "the item is put on top")])
        ctx.check(not R.exits, "push", R.w, "gives up at a variant")


def takes(ctx):
    for item_, which, kind in (("pop", "stack", "pop"), ("pop_alt", "alt_stack", "pop"), ("pick", "stack", "pick"), ("roll", "stack", "roll")):
        R = rel(ctx, item_, item_)
        if not R:
            continue
        L, E = R.L, R.E
        all_visited(ctx, item_ + "-all", R)
        H = call(HOLDS, st(E, "condition"), fld(R.self, VS, "predicate_atoms"))
        s = st(E, which)
        d = Int(0) if kind == "pop" else R.a.params[1]
        i = sub(sub(Len(s), d), Int(1))
        x = Idx(s, i)
        ps = [c for c in R.comps[0] if any(o.ret.op == "adt" and o.ret.args[1] == 1 and o.ret.args[2] is not None and not has_op(o.ret, "uninit") and is_item(o.ret.args[2], s)
                                           for o in L.steps[c])]
        if not ps:
            ctx.bad(item_, R.w, "no item of a variant's %s becomes the result" % which)
            continue
        p = ps[0]
        P = L.vars[p]
        pi = some_of(P)
        gen, name = (lambda t: fld(t, IT_, "has_generated_name")), (lambda t: fld(t, IT_, "name"))
        head = [Case([Not(H)], None, "a variant whose condition does not hold"),
                Case([le(Len(s), d)], EXIT, "no item that deep"),
                Case([is_some(P), Not(gen(x)), gen(pi)], EXIT, "named here, not before"),
                Case([is_some(P), gen(x), Not(gen(pi))], EXIT, "named before, not here"),
                Case([is_some(P), Not(gen(x)), Not(gen(pi)), Not(TM.teq(name(x), name(pi)))], EXIT, "named differently")]
        fm(ctx, item_, R, L.steps[p] + R.exits, [Case(head[0].guards, P, head[0].name)] + head[1:] + [Case([], Some(x), "the item at the depth asked for")])
        e = elem(R)
        if kind == "pick":
            ctx.check(e is None or all(o.ret is E for o in L.steps[e]), item_ + "-state", R.w, "a picked item stays on its stack")
        elif e is None:
            ctx.bad(item_ + "-state", R.w, "no variant is changed")
        else:
            rest = Seq(TM.Slice(s, Int(0), i), TM.Slice(s, TM.add(i, Int(1)), Len(s)))
            fm(ctx, item_ + "-state", R, L.steps[e] + R.exits, [Case(head[0].guards, E, head[0].name)] + head[1:] + [
                Case([], with_(E, **{which: rest}), "the item is taken off the stack")])
        fm(ctx, item_ + "-result", R, R.ends, [Case([is_none(P)], ERR, "no variant's condition holds"), Case([], Ok(pi), "the item")])


def is_item(t, s):
    return t.op == "idx" and t.args[0] is s


def find(ctx):
    R = rel(ctx, "find", "find_item")
    if not R:
        return
    L, E = R.L, R.E
    all_visited(ctx, "find-all", R)
    H = call(HOLDS, st(E, "condition"), fld(R.self, VS, "predicate_atoms"))
    s = st(E, "stack")
    ident = R.a.params[1]
    e = elem(R)
    ctx.check(e is None or all(o.ret is E for o in L.steps[e]), "find-state", R.w, "finding changes no stack")
    # the accumulator that is the result, and the depths it is given
    p = D = None
    for c in R.comps[0]:
        for o in L.steps[c]:
            if o.ret.op == "adt" and o.ret.args[1] == 1 and o.ret.args[2].op == "tup" and len(o.ret.args[2].args) == 2 and is_item(o.ret.args[2].args[1], s):
                p, D = c, o.ret.args[2].args[0]
    if p is None:
        return ctx.unk("find", R.w, "the result is not found among %s" % [clip(show(o.ret), 80) for x in L.steps for o in x][:3])
    P = L.vars[p]
    # D is the first depth at which the name is found
    at = lambda k: TM.teq(mk("disp", ident), fld(Idx(s, sub(sub(Len(s), k), Int(1))), IT_, "name"))
    if D.op != "first":
        # counting from the other end, or away from the place found, gives another item when two have the name
        fs = [t for t, _ in TM.lin_parts(D)[1] if t.op == "first" and t.args[1] is Len(s)]
        if len(fs) == 1:
            for n in (D, sub(sub(Len(s), Int(1)), D)):
                d = TM.lin_parts(sub(n, fs[0]))
                if not d[1]:
                    return ctx.bad("find-first", R.w, "the depth found is %s, of the first place %s" % (clip(show(D)), "from the bottom" if n is not D else "plus %d" % d[0]))
        return ctx.unk("find-first", R.w, "depth is %s" % clip(show(D)))
    k = mk("k", D.args[0])
    cont = D.args[2]
    ctx.check(D.args[1] is Len(s) and len(cont) == 1 and len(cont[0]) == 1 and norm(cont[0][0], frozenset()) is norm(Not(at(k)), frozenset()), "find-first", R.w,
              "searching goes on while %s" % clip("; ".join(show(g) for b in cont for g in b)))
    none = canon(mk("all", D.args[0], Len(s), cont))
    nf = [o for o in R.exits if any(canon(g) is none for g in o.facts)]
    ctx.check(nf, "find-missing", R.w, "is refused if a variant has no such item")
    want = Some(Tup(D, Idx(s, sub(sub(Len(s), D), Int(1)))))
    fm(ctx, "find", R, L.steps[p] + [o for o in R.exits if o not in nf], [
        Case([Not(H)], P, "a variant whose condition does not hold"),
        Case([is_some(P), Not(int_eq(D, path_t(some_of(P), 0)))], EXIT, "not at the same depth"),
        Case([], want, "its depth from the top")])
    fm(ctx, "find-result", R, R.ends, [Case([is_none(P)], ERR, "no variant's condition holds"), Case([], Ok(some_of(P)), "depth and item")])


def path_t(x, i):
    """a field of a tuple"""
    return TM.TFld(x, i)


# ---------------------------------------------------------------- the condition of a variant
def holds(ctx):
    f = inherent(ctx, "holds", "VariantPredicate")
    if not f:
        return
    AT, CJ, VP = aid("VariantPredicateAtom"), aid("VariantPredicateConjunction"), aid("VariantPredicate")
    fn = [x["name"] for x in ctx.F.adts[AT]["variants"][0]["fields"]]
    shapes = [((), 0), ((), 1), ((0,), 0), ((0,), 1), ((1,), 0), ((1,), 1), ((2,), 1), ((1, 1), 1), ((1,), 2), ((2,), 2), ((1, 1), 2), ((0, 1), 1), ((1, 0), 1)]
    if ctx.tier == "thorough":
        shapes += [((2, 1), 1), ((1, 2), 1), ((1, 1, 1), 1), ((3,), 2), ((1,), 3), ((2, 1), 2), ((1, 1, 1), 2)]
    n = 0
    for conj, insts in shapes:
        na = sum(conj)
        names = [Var("n%d" % i) for i in range(na + insts)]
        pos = [Var("p%d" % i) for i in range(na + insts)]
        for x in names:
            TM.TYP.setdefault(x, "alloc::string::String")
        for x in pos:
            TM.TYP.setdefault(x, "bool")
        atom = lambda i: mk("adt", AT, 0, *[{"var_name": names[i], "is_positive": pos[i]}[q] for q in fn])
        it = iter(range(na))
        pred = mk("adt", VP, 0, Seq(*[item(mk("adt", CJ, 0, Seq(*[item(atom(next(it))) for _ in range(c)]))) for c in conj]))
        inst = Seq(*[item(atom(na + j)) for j in range(insts)])
        _interp.MERGE_X = 20
        try:
            a = ctx.run(f, argv={0: pred, 1: inst})
        finally:
            _interp.MERGE_X = 1
        w = "%s, conditions of %s atoms, %d branch conditions" % (ctx.where(f), list(conj), insts)
        if a is None:
            continue
        ok = True
        for part in partitions(na + insts):
            for signs in itertools.product((0, 1), repeat=na + insts):
                m = {x: Str("v%d" % c) for x, c in zip(names, part)}
                m.update({x: Int(s) for x, s in zip(pos, signs)})
                i, want = 0, not conj
                for c in conj:
                    want = want or all(part[q] != part[r] or signs[q] == signs[r] for q in range(i, i + c) for r in range(na, na + insts))
                    i += c
                got = {subst(o.ret, m) for o in a.outcomes if all(norm(subst(g, m), frozenset()) is not FALSE for g in o.facts)}
                n += 1
                if got == {Int(int(want))}:
                    continue
                ok = False
                if len(got) == 1 and next(iter(got)).op == "int":
                    ctx.bad("condition", w, "names %s, signs %s: %s" % (part, signs, "holds" if not want else "does not hold"), "condition|holds")
                else:
                    ctx.unk("condition", w, "results %s" % [clip(show(g), 60) for g in got])
                break
            if not ok:
                break
        if ok:
            ctx.ok("condition", w, "as its truth table")
    ctx.floor("rows of truth tables", n, 500)


def partitions(n):
    """assignments of n names up to renaming"""
    def go(p, m):
        if len(p) == n:
            yield tuple(p)
            return
        for c in range(m + 1):
            yield from go(p + [c], max(m, c + 1))
    yield from go([], 0)


# ---------------------------------------------------------------- statements
def at_start(n, **kw):
    """a value of the struct n, its other fields symbolic"""
    A = aid(n)
    return mk("adt", A, 0, *[kw.get(x["name"], Var("%s.%s" % (n, x["name"]))) for x in load_facts("main").adts[A]["variants"][0]["fields"]])


def generator(debug=1):
    """the generator before a statement; the source text it quotes for debugging is left out"""
    return at_start("GenerateScript", variant_states=V0, n_ident=N_IDENT, stmt_idx=Int(0), formatted_lines=EMPTY, max_line_widths=EMPTY, enable_debug=Int(debug))


V0 = Var("stacks")
N_IDENT = Var("identifiers")
FEW = le(N_IDENT, Int(1 << 32))
OK_ = Str("compiled")


def stmt(inputs, outputs):
    return at_start("OpcodeStmt", input_names=NONE if inputs is None else Some(Seq(*[item(x) for x in inputs])),
                    output_names=NONE if outputs is None else Some(Seq(*[item(x) for x in outputs])))


def ident(i):
    return adt("OpcodeInput", Var("in%d" % i), var="Ident")


def expr(i):
    return adt("OpcodeInput", Var("arg%d" % i), var="Expr")


def op(name, *a):
    return call("VariantStates::" + name, *a)


def after(name, *a):
    return call("VariantStates::%s#0" % name, *a)


def results(a, self_, alias):
    """[Out((compiled, stacks afterwards) or refused)]"""
    r = []
    for o in a.outcomes:
        fs = frozenset(subst(g, alias) for g in o.facts if not any(x.op == "mget" for x in atoms(g)))
        if is_ok_t(o.ret):
            r.append(Out(Tup(OK_, subst(fld(o.mem.get("self", self_), "GenerateScript", "variant_states"), alias)), fs))
        else:
            r.append(Out(ERR if o.ret.op == "adt" and o.ret.args[1] == 1 else o.ret, fs))
    return r


def is_ok_t(t):
    return t.op == "adt" and t.args[0] == RESULT and t.args[1] == 0


# ---------------------------------------------------------------- conditionals
RUN = ("GenerateScript::run_opcode", "GenerateScript::run_stmt")


def chain(G, what, x, crate):
    """(result, generator afterwards) of compiling one statement"""
    n = "GenerateScript::run_" + what
    return call(n, G, x, crate), call(n + "#0", G, x, crate)


def gs_of(G):
    return fld(G, "GenerateScript", "variant_states")


def with_states(G, vs):
    return struct("GenerateScript", **{x["name"]: vs if x["name"] == "variant_states" else fld(G, "GenerateScript", x["name"])
                                        for x in load_facts("main").adts[aid("GenerateScript")]["variants"][0]["fields"]})


def atoms_of(G):
    return fld(gs_of(G), VS, "predicate_atoms")


def conditions(t):
    """statements leave the branch conditions as they were (decided per statement): those of a later generator are those of an earlier one"""
    for _ in range(40):
        m = {}
        for x in atoms(t):
            if x.op == "call" and x.args[0] in (RUN[0] + "#0", RUN[1] + "#0"):
                a, b = atoms_of(x), atoms_of(x.args[1])
                if a is not b:
                    m[a] = b
        r = subst(t, m)
        if r is t:
            return t
        t = r
    return t


def tagged(n):
    return at_start("TaggedStmt", stmt=Var(n))


def script_if(thens, elses, otherwise, cond):
    return at_start("ScriptIfStmt", if_opcode=stmt([cond], None), else_opcode=Some(Var("else")) if otherwise else NONE, endif_opcode=Var("endif"),
                    then_stmts=Seq(*[item(tagged("then%d" % i)) for i in range(thens)]), else_stmts=Seq(*[item(tagged("else%d" % i)) for i in range(elses)]))


def branches(ctx):
    f = inherent(ctx, "run_if", "GenerateScript")
    for thens, elses, otherwise in ((1, 1, True), (2, 1, True), (0, 1, True), (1, 0, False), (0, 2, True)) if f else ():
        a = ctx.run(f, opaque=RUN + (HOLDS,), argv={0: generator(), 1: script_if(thens, elses, otherwise, ident(0))}, facts=frozenset((FEW,)))
        if a is not None:
            one_if(ctx, a, "%s: %d statements in the then branch, %d in the else branch" % (ctx.where(f), thens, elses), thens, elses, otherwise)
    if f:
        a = ctx.run(f, opaque=RUN + (HOLDS,), argv={0: generator(), 1: script_if(1, 0, False, expr(0))}, facts=frozenset((FEW,)))
        if a is not None:
            ctx.check(not any(is_ok_t(o.ret) for o in a.outcomes), "branch", ctx.where(f), "a condition without a name is accepted")


def one_if(ctx, a, w, thens, elses, otherwise):
    crate = a.params[2]
    G = generator()
    atom = lambda v: item(struct("VariantPredicateAtom", var_name=disp(Var("in0")), is_positive=Int(v)))
    at = lambda G, states, v, base: with_states(G, struct(VS, states=states, predicate_atoms=Seq(base, atom(v))))
    ok = []
    r, G = chain(G, "opcode", stmt([ident(0)], None), crate)
    ok.append(is_ok(r))
    before, base = fld(gs_of(G), VS, "states"), atoms_of(G)
    G = at(G, before, 1, base)
    for i in range(thens):
        r, G = chain(G, "stmt", Var("then%d" % i), crate)
        ok.append(is_ok(r))
    if otherwise:
        r, G = chain(G, "opcode", Var("else"), crate)
        ok.append(is_ok(r))
    then = fld(gs_of(G), VS, "states")
    G = at(G, before, 0, base)
    for i in range(elses):
        r, G = chain(G, "stmt", Var("else%d" % i), crate)
        ok.append(is_ok(r))
    r, G = chain(G, "opcode", Var("endif"), crate)
    ok.append(is_ok(r))
    other = fld(gs_of(G), VS, "states")
    L = LoopView(a)
    if not L.ok:
        return ctx.unk("branch", w, L.why)
    C = lambda t: subst(conditions(t), {atoms_of(generator()): Var("conditions")})
    outs = [Out(OK_ if is_ok_t(o.ret) else ERR, frozenset(C(g) for g in o.facts)) for o in a.outcomes]
    ctx.first_match("branch-order", SimpleNamespace(outcomes=outs, opaque=CALLS | {n + s for n in RUN for s in ("", "#0")}, fid=a.fid, I=a.I),
                    [Case([Not(C(g))], ERR, "a statement is refused") for g in ok] + [Case([], OK_, "the branches are compiled one after the other, each from the stacks before")], where=w)
    # the conditions are those from before
    for o in a.outcomes:
        if is_ok_t(o.ret):
            t = C(atoms_of(o.mem["self"]))
            ctx.check(canon(t) is canon(Var("conditions")), "branch-conditions", w, "afterwards %s" % clip(show(t)))
    # each variant continues with the stacks of the branch it takes
    its = [(i, x) for i, t in enumerate(L.inits) for x in atoms(t) if x.op == "call" and x.args[0] in ("HashMap::iter_mut", "HashMap::values_mut")]
    if not its:
        return ctx.unk("branch", w, "no loop over the variants")
    X = its[0][1]
    e = next((i for i, t in enumerate(L.inits) if t.op in ("tfld", "fld", "idx") and not any(x.op == "call" and x.args[0] == "HashMap::get_mut" for x in atoms(t)) and any(x is X for x in atoms(t))), None)
    g = next((i for i, t in enumerate(L.inits) if any(x.op == "call" and x.args[0] in ("HashMap::get_mut", "HashMap::get") for x in atoms(t))), None)
    if e is None or g is None:
        return ctx.unk("branch", w, "the loop over the variants pairs %s" % [clip(show(t), 80) for t in L.inits])
    E, O = L.vars[e], L.vars[g]
    ctx.check(C(X.args[1]) is C(other), "branch", w, "the variants looped over are not those after the else branch: %s" % clip(show(C(X.args[1]))))
    M = next(x for x in atoms(L.inits[g]) if x.op == "call" and x.args[0] in ("HashMap::get_mut", "HashMap::get"))
    src = [t for i, t in enumerate(L.inits) if i not in (e, g)] + [M.args[1]]
    if not any(C(t) is C(then) or C(fld(t, VS, "states")) is C(then) for t in src) or not any(x is X for x in atoms(M.args[2])):
        return ctx.unk("branch", w, "the variants are paired with %s" % clip(show(C(L.inits[g]))))
    H = [call(HOLDS, st(E, "condition"), Seq(Var("conditions"), atom(v))) for v in (1, 0)]
    steps = [Out(o.ret, frozenset(C(x) for x in o.facts if not any(y.op == "call" and y.args[0] == "HashMap::get_mut" for y in atoms(x)))) for o in L.steps[e]]
    # (nothing is claimed of a variant that may take either branch)
    ctx.first_match("branch", SimpleNamespace(outcomes=steps, opaque={HOLDS}, fid=a.fid, I=a.I), [
        Case([H[0], H[1]], ANY, "a variant that may take either"), Case([H[0]], O, "the stacks after the then branch"), Case([], E, "the stacks after the else branch")], where=w)


def opcode_var(ctx, f):
    """the opcode a statement's name is looked up as"""
    a = ctx.run(f, opaque=STACKS, argv={0: generator(), 1: stmt((expr(0),) * 9, (Var("out"),) * 9)})
    if a is None:
        return None
    ms = {x for o in a.outcomes for g in list(o.facts) + [o.ret] for x in atoms(g) if x.op == "mget"}
    want = mk("disp", fld(at_start("OpcodeStmt"), "OpcodeStmt", "ident"))
    ms = [m for m in ms if m.args[1] is want]
    if len(ms) != 1:
        ctx.unk("statement", ctx.where(f), "how the opcode is found from the name is not recognised")
        return None
    return ms[0]


def statements(ctx):
    pushed(ctx)
    branches(ctx)
    f = inherent(ctx, "run_opcode", "GenerateScript")
    if f:
        m = opcode_var(ctx, f)
        if m is not None:
            functions(ctx, f, m)
            n = 0
            for name, (_, kind, ins, outs) in OPS.items():
                n += opcode(ctx, f, m, name, kind, ins, outs)
            ctx.floor("opcode statements", n, 300)


def pushed(ctx):
    """the statements that push: values, and the depths of items"""
    f = inherent(ctx, "run_push", "GenerateScript")
    facts = frozenset((FEW,))
    for nm in (NONE, Some(Var("out"))) if f else ():
        for debug in (0, 1):
            a = ctx.run(f, opaque=STACKS, argv={0: generator(debug), 1: at_start("PushStmt", output_name=nm)}, facts=facts)
            if a is None:
                continue
            it = new_item(ANY, Int(1), ANY) if nm is NONE else new_item(disp(Var("out")), Int(0), ANY)
            ctx.first_match("push-statement", SimpleNamespace(outcomes=results(a, generator(), {}), opaque=CALLS, fid=a.fid, I=a.I),
                            [Case([], Tup(OK_, after("push", V0, it)), "the value is pushed")], where="%s: %s" % (ctx.where(f), "named" if nm is not NONE else "unnamed"))


def functions(ctx, f, m):
    """depth_of, depth_of_offset and transmute; nothing else is a function"""
    text = disp(fld(at_start("OpcodeStmt"), "OpcodeStmt", "ident"))
    who = Var("in0")
    found = op("find_item", V0, who)
    d = path_t(ok_of(found), 0)
    for name, k in (("depth_of", 1), ("depth_of_offset", 2), ("transmute", 2), ("other", 1)):
        facts = frozenset((Not(is_some(m)), FEW) + ((TM.teq(text, Str(name)),) if name != "other" else tuple(Not(TM.teq(text, Str(x))) for x in ("depth_of", "depth_of_offset", "transmute"))))
        for args, good in ((None, 0), ([], 0), ([ident(0)], 1), ([expr(0)], 0), ([ident(0), expr(1)], 2), ([expr(0), expr(1)], 0), ([ident(0), expr(1), expr(2)], 0)):
            for ns in (None, [Var("out")]):
                w = "%s: %s%s%s" % (ctx.where(f), "" if ns is None else "let out = ", name, "" if args is None else "(%s)" % ", ".join(arg(t) for t in args))
                a = ctx.run(f, opaque=STACKS, argv={0: generator(), 1: stmt(args, ns)}, facts=facts)
                if a is None:
                    continue
                for o in a.I.obl.values():
                    if not o.ok:
                        ctx.unk("function", w, "%s possible: %s" % (o.kind, o.why))
                # finding an item changes no stack (decided above)
                rs = results(a, generator(), {after("find_item", V0, who): V0})
                if good != k or name == "other":
                    ctx.check(not any(o.ret.op == "tup" for o in rs), "function", w, "compiled", "function|" + name)
                    continue
                if name == "transmute":
                    cases = [Case([Not(TM.teq(who, ns[0]))], ERR, "renamed")] if ns else []
                    cases += [Case([is_err(found)], ERR, "no such item"), Case([], Tup(OK_, V0), "the stacks are unchanged")]
                else:
                    # (a depth is an Integer: it is at most 2^31 - 1)
                    it = [new_item(ANY, Int(1), Some(adt("Integer", d))), new_item(disp(Var("out")), Int(0), Some(adt("Integer", d)))][ns is not None]
                    cases = [Case([is_err(found)], ERR, "no such item"), Case([le(d, Int((1 << 31) - 1))], Tup(OK_, after("push", V0, it)), "the depth is pushed, and known"), Case([], ERR, "too deep")]
                ctx.first_match("function", SimpleNamespace(outcomes=rs, opaque=CALLS, fid=a.fid, I=a.I), cases, where=w)


def opcode(ctx, f, m, name, kind, ins, outs):
    x = some_of(m)
    facts = frozenset((is_some(m), isvar(x, "Opcode", name), FEW))
    own = {"OP_TOALTSTACK": alt, "OP_FROMALTSTACK": alt, "OP_PICK": deep, "OP_ROLL": deep}.get(name)
    if kind == "push":
        return 0
    if kind != "op":
        a = ctx.run(f, opaque=STACKS, argv={0: generator(), 1: stmt(None, None)}, facts=facts)
        if a is not None:
            ctx.check(not any(is_ok_t(o.ret) for o in a.outcomes), "statement", ctx.where(f), "%s has no definite effect but is compiled" % name, "statement|" + name)
        return 1
    k, l = (1, 1) if own else (len(ins), len(outs))
    shapes = []
    argss = [None, [expr(i) for i in range(k)]] + ([[ident(i) for i in range(k)]] if k in (1, 2) or k == 3 and ctx.tier == "thorough" else []) if not own else [None, [ident(0)]]
    if k > 2:
        argss += [[ident(j) if i == j else expr(i) for i in range(k)] for j in range(k)]
    wrong = [[expr(i) for i in range(j)] for j in {k + 1, max(k - 1, 0)} - {k}]
    names = [None, [Var("out%d" % i) for i in range(l)]]
    wrong_out = [[Var("out%d" % i) for i in range(j)] for j in {l + 1, max(l - 1, 0)} - {l}]
    few = l if l <= 3 or ctx.tier == "thorough" else 0
    if not few and l:
        names = [None] + [[Var("out%d" % i) if i == j else Var("__%d" % i) for i in range(l)] for j in range(l)]
    for args in argss:
        shapes += [(args, None, True)]
    for ns in names[1:]:
        shapes.append((argss[-1] if k <= 2 else argss[1], ns, True))
    shapes += [(w, None, False) for w in wrong] + [(None, w, False) for w in wrong_out]
    for args, ns, good in shapes:
        us = [TM.teq(disp(t), Str("__")) for t in ns or () if t.args[0].startswith("__")]
        if k > 3 and ctx.tier == "quick":
            # (the names of the items that are not named here only are quoted for debugging)
            us += [Not(fld(x, IT_, "has_generated_name")) for x, t in zip(inputs(k), args or [None] * k) if t is None or not is_ident(t)]
        a = ctx.run(f, opaque=STACKS, argv={0: generator(int(args is not None or ns is not None)), 1: stmt(args, ns)}, facts=facts.union(us))
        if a is None:
            continue
        w = "%s: %s%s%s" % (ctx.where(f), "" if ns is None else "let (%s) = " % ", ".join(arg(t) for t in ns), name, "" if args is None else "(%s)" % ", ".join(arg(t) for t in args))
        for o in a.I.obl.values():
            if not o.ok:
                ctx.unk("statement", w, "%s possible: %s" % (o.kind, o.why))
        if not good:
            ctx.check(not any(is_ok_t(o.ret) for o in a.outcomes), "statement", w, "compiled with a wrong number of names", "statement|" + name)
            continue
        alias = {}
        cases = (own or plain)(name, ins, outs, args, ns, alias)
        ctx.first_match("statement", SimpleNamespace(outcomes=results(a, generator(), alias), opaque=CALLS, fid=a.fid, I=a.I), cases, where=w)
    return len(shapes)


def arg(t):
    return t.args[0] if t.op in ("var", "str") else t.args[2].args[0]


def new_item(name, gen, integer, of=ANY):
    return struct(IT_, ident=of, name=name, has_generated_name=gen, integer=integer)


def again(x, of=ANY):
    """the item x once more, under another identifier"""
    return struct(IT_, ident=of, **{n: fld(x, IT_, n) for n in ("name", "has_generated_name", "integer")})


def disp(x):
    return mk("disp", x)


def named(x, args, alias):
    """[refused unless the item is named so]"""
    if args is None:
        return []
    return [Case([Not(TM.teq(disp(args[0].args[2]), fld(x, IT_, "name")))], ERR, "another name")]


def renamed(x, ns, exact=None):
    if ns is None:
        return x if exact is None else exact
    return new_item(disp(ns[0]), Int(0), fld(x, IT_, "integer"), fld(x, IT_, "ident"))


def alt(name, ins, outs, args, ns, alias):
    src, dst = ("pop", "push_alt") if name == "OP_TOALTSTACK" else ("pop_alt", "push")
    x = ok_of(op(src, V0))
    return [Case([is_err(op(src, V0))], ERR, "no item")] + named(x, args, alias) + [
        Case([], Tup(OK_, after(dst, after(src, V0), renamed(x, ns))), "the item changes stacks")]


def deep(name, ins, outs, args, ns, alias):
    how = "pick" if name == "OP_PICK" else "roll"
    d = ok_of(op("pop", V0))
    V1 = after("pop", V0)
    i = fld(d, IT_, "integer")
    n = fld(some_of(i), "Integer", "0")
    cases = [Case([is_err(op("pop", V0))], ERR, "no depth")] + named(d, args, alias) + [Case([is_some(i), lt(n, Int(0))], ERR, "a negative depth")]
    for gs, k in (([is_some(i)], n), ([], Int(0))):
        x = ok_of(op(how, V1, k))
        cases += [Case(gs + [is_err(op(how, V1, k))], ERR, "no item that deep"),
                  Case(gs, Tup(OK_, after("push", after(how, V1, k), renamed(x, ns))), "the item is %sed" % how)]
    return cases


def is_err(t):
    return Not(is_ok(t))


def inputs(n):
    """the items a statement takes, deepest first"""
    V, xs = V0, []
    for _ in range(n):
        xs.insert(0, ok_of(op("pop", V)))
        V = after("pop", V)
    return xs


def is_ident(t):
    return t.args[1] == variant(aid("OpcodeInput"), "Ident")


def plain(name, ins, outs, args, ns, alias):
    V, xs, cases = V0, [], []
    for _ in ins:
        p = op("pop", V)
        cases.append(Case([is_err(p)], ERR, "too few items"))
        xs.insert(0, ok_of(p))
        V = after("pop", V)
    for x, t in zip(xs, args or ()):
        if not is_ident(t):
            continue
        id_ = t.args[2]
        nm = fld(x, IT_, "name")
        alias[TM.teq(nm, id_)] = TM.teq(disp(id_), nm)
        other = Not(TM.teq(disp(id_), Str("__")))
        cases += [Case([other, fld(x, IT_, "has_generated_name")], ERR, "an item without a name"), Case([other, Not(TM.teq(disp(id_), nm))], ERR, "an item of another name")]
    items = []
    for i, t in enumerate(outs):
        src = ins.index(t) if t in ins and t.isupper() else None
        keep = again(xs[src]) if src is not None else None
        if ns is None:
            items.append([([], keep or new_item(ANY, Int(1), NONE))])
        elif ns[i].args[0].startswith("__") and keep is not None:
            items.append([([], keep)])
        else:
            g = TM.teq(disp(ns[i]), Str("__"))
            if keep is None:
                cases.append(Case([g], ERR, "`__` for an item that is new"))
            items.append(([([g], keep)] if keep is not None else []) + [([Not(g)], new_item(disp(ns[i]), Int(0), NONE))])
    for combo in itertools.product(*items):
        W = V
        for _, it in combo:
            W = after("push", W, it)
        cases.append(Case([g for gs, _ in combo for g in gs], Tup(OK_, W), "outputs pushed"))
    return cases
