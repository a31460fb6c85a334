"""C06: both script parsers read operations exactly as the consensus grammar says, and agree with each other."""
from spec import *
from common import *

TECHNIQUE = "abstract interpretation of MIR: loop transition relations of both parsers compared with one grammar"
EXPLANATION = ("Each parser's loop is summarised as a transition relation over the remaining bytes (congruent position counters are identified "
               "inductively); per iteration the operation produced and the bytes left are compared, for every opcode byte class and push form, "
               "with one grammar, which is therefore also the proof that the two parsers agree.  Truncated pushes must be errors, the loop may "
               "end only when nothing remains, and no arithmetic, index or slice may fail.  The script decoders on top are compared with it.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std / byteorder used by the analyser (sa/models.py)"]


def known_opcode(b):
    runs = []
    for d in sorted(TM.DISCR[aid("Opcode")]):
        if runs and runs[-1] == d - 1:
            runs[-1] = d
        else:
            runs += [d, d]
    return mk("pred", "in", b, mk("ranges", *[Int(x) for x in runs]))


def grammar(S):
    """[(guards, length bytes, start of data, length of data)] for the pushes at the head of S"""
    b0 = Idx(S, ZERO)
    n = Len(S)
    return [([le(ONE, b0), le(b0, Int(75))], 1, b0, "direct push"),
            ([int_eq(b0, Int(76))], 2, Idx(S, ONE), "PUSHDATA1"),
            ([int_eq(b0, Int(77))], 3, unle(2, Slice(S, ONE, Int(3)), "u16"), "PUSHDATA2"),
            ([int_eq(b0, Int(78))], 5, unle(4, Slice(S, ONE, Int(5)), "u32"), "PUSHDATA4")]


def minimal_term(form, S, D):
    """[(extra guards, is it the prefix the serialiser would choose)]"""
    L = Len(D)
    d0 = Idx(D, ZERO)
    one = int_eq(L, ONE)
    if form == "direct push":
        return [([le(Int(2), L)], TRUE), ([one, int_eq(d0, ZERO)], TRUE), ([one, le(ONE, d0), le(d0, Int(16))], FALSE),
                ([one, le(Int(17), d0), Not(int_eq(d0, Int(0x81)))], TRUE), ([one, int_eq(d0, Int(0x81))], FALSE)]
    lo = {"PUSHDATA1": 0x4c, "PUSHDATA2": 0x100, "PUSHDATA4": 0x10000}[form]
    return [([le(L, Int(lo - 1))], FALSE), ([le(Int(lo), L)], TRUE)]


def op(name, *f):
    return adt("Op", *f, var=name)


def iteration_cases(S):
    """operations and rests"""
    b0 = Idx(S, ZERO)
    n = Len(S)
    base = [le(ONE, n)]
    items, rests, errs = [], [], []
    opc = aid("Opcode")
    items.append(Case(base + [int_eq(b0, ZERO)], Seq(item(op("Code", mk("adt", opc, variant(opc, "OP_0"))))), "OP_0"))
    rests.append(Case(base + [int_eq(b0, ZERO)], Slice(S, ONE, n), "OP_0"))
    for g, w, L, nm in grammar(S):
        W = Int(w)
        if w > 1:
            errs.append(Case(base + g + [lt(n, W)], ERR, nm + ", length cut off"))
        errs.append(Case(base + g + [le(W, n), lt(n, add(W, L))], ERR, nm + ", data cut off"))
        e = add(W, L)
        D = Slice(S, W, e)
        ok = base + g + [le(W, n), le(e, n)]
        rests.append(Case(ok, Slice(S, e, n), nm))
        for g2, m in minimal_term(nm, S, D):
            items.append(Case(ok + g2, Seq(item(op("PushByteArray", D, m))), nm + (" (minimal)" if m is TRUE else " (not minimal)")))
    kn = known_opcode(b0)
    hi = base + [le(Int(79), b0)]
    items.append(Case(hi + [kn], Seq(item(op("Code", FromDiscr(opc, b0)))), "opcode"))
    items.append(Case(hi + [Not(kn)], Seq(item(op("Invalid", b0))), "unassigned byte"))
    rests.append(Case(hi, Slice(S, ONE, n), "opcode"))
    return items, rests, errs


def parser(ctx, f, rule):
    a = ctx.run(f)
    if not a:
        return
    w = ctx.where(f)
    L = LoopView(a, unify=True)
    if not L.ok:
        ctx.unk(rule, w, "no loop to compare: " + L.why)
        return
    ctx.no_panics(rule + "-total", a)
    p = a.params[0]
    # the state is the remaining bytes, or a position in the input
    i0 = [i for i in range(len(L.inits)) if L.rep_of[i] == i]
    if len(i0) != 1:
        ctx.unk(rule, w, "the loop state has %d independent parts" % len(i0))
        return
    i = i0[0]
    v = L.vars[i]
    for x, y in L.diverge:
        sx, sy = L.steps[x], L.steps[y]
        for o in sx:
            for q in sy:
                fs = o.facts
                for g in q.facts:
                    fs = fs and assume_facts(fs, g)
                if not fs or contradictory(fs) or norm(o.ret, fs) is norm(q.ret, fs):
                    continue
                ctx.bad(rule + "-position", w, "the two positions the parser keeps come apart: one becomes %s, the other %s; after %s" % (
                    clip(show(o.ret), 120), clip(show(q.ret), 120), clip(showfacts(tuple(fs)), 200)))
    if L.inits[i] is p:
        S, rest = v, lambda x: x
        pos = []
    elif L.inits[i] is ZERO:
        S, rest = Slice(p, v, Len(p)), lambda x: Slice(p, x, Len(p))
        pos = [le(ZERO, v)]
    else:
        ctx.bad(rule, w, "parsing does not start with the whole input: state starts as %s" % clip(show(L.inits[i])))
        return
    items, rests, errs = iteration_cases(S)
    for c in items + rests + errs:
        c.guards = pos + c.guards
    # one iteration
    nit = 0
    for r, its in L.items.items():
        nit += 1
        ctx.compare(rule + "-operation", w, its, items)
    ctx.compare(rule + "-rest", w, L.steps[i], rests, proj=lambda o: rest(o.ret))
    outs = [L.outcome(o) for o in a.outcomes]
    er = [o for o in outs if o.ret.op == "adt" and o.ret.args[1] == 1]
    good = [(o, v2) for o, v2 in zip(a.outcomes, outs) if not (v2.ret.op == "adt" and v2.ret.args[1] == 1)]
    # what an error looks like; a complete operation must not fail
    ctx.compare(rule + "-truncated", w, er, errs + [Case(c.guards, mk("no error"), c.name + " complete") for c in rests], cover=False)
    for c in errs:
        if not any(feasible(o.facts, c.guards) for o in er):
            ctx.bad(rule + "-truncated", w, "%s is not an error" % c.name)
    for o, v2 in good:
        ctx.check(entails(v2.facts, le(Len(S), ZERO)) is True, rule + "-complete", w, "ends only when nothing remains; known: %s" % clip(showfacts(tuple(v2.facts))))
        r = o.ret
        isrep = r.op == "adt" and r.args[1] == 0 and r.args[2].op == "seq" and len(r.args[2].args) == 1 and r.args[2].args[0] in L.items
        if isrep:
            ctx.ok(rule + "-list", w, "the result is the operations in order")
        else:
            ctx.unk(rule + "-list", w, "result %s" % clip(show(r)))
    ctx.check(bool(good), rule + "-list", w, "some script parses")
    return nit


# whole scripts of a known shape: the bytes are arbitrary where None, an opcode that pushes nothing where "op"
SHAPES = [[], [0], ["op"], ["op", "op"], [0, "op"], ["op", 0], [1, None], [1], [1, None, "op"], ["op", 1, None], [2, None, None], [2, None], [2, None, None, "op"],
          [3, None, None, None, 0], [2, None, None, 1, None], [76], [76, 0], [76, 0, "op"], [76, 1, None], [76, 1], [76, 2, None, None], [76, 2, None], [76, 2, None, None, "op"],
          [77], [77, 1], [77, 0, 0], [77, 1, 0], [77, 1, 0, None, "op"], [77, 2, 0, None, None], [77, 2, 0, None], [78], [78, 1, 0, 0], [78, 0, 0, 0, 0, "op"],
          [78, 2, 0, 0, 0, None, None], [78, 2, 0, 0, 0, None], ["op", "op", "op"]]


def whole(S):
    """the cases of a script whose opcodes and lengths are known"""
    n = len(S.args)
    if n == 0:
        return [([], [], True)]
    items, rests, errs = iteration_cases(S)
    r = []
    live = lambda c: feasible(frozenset(), c.guards)
    for c in errs:
        if live(c):
            r.append((c.guards, [], False))
    for c in items:
        if not live(c):
            continue
        for q in rests:
            if not feasible(frozenset(), c.guards + q.guards):
                continue
            rest = canon(q.want)
            if rest.op != "seq":
                continue
            for g, ops, fine in whole(rest):
                r.append((c.guards + g, [c.want] + ops, fine))
    return r


def shapes(ctx, f, rule):
    """scripts of every short shape parse to their operations, whatever the bytes"""
    for sh in SHAPES:
        xs, facts = [], []
        for i, b in enumerate(sh):
            x = Int(b) if isinstance(b, int) else Var("byte%d" % i)
            if not isinstance(b, int):
                TM.TYP.setdefault(x, "u8")
            if b == "op":
                facts.append(le(Int(79), x))
            xs.append(item(x))
        S = Seq(*xs)
        a = ctx.run(f, argv={0: S}, facts=frozenset(facts))
        if not a:
            continue
        cases = [Case(facts + g, Ok(Seq(*[y for o in ops for y in o.args])) if fine else ERR, "script %s" % " ".join("%02x" % b if isinstance(b, int) else "op" if b else "xx" for b in sh))
                 for g, ops, fine in whole(S) if feasible(frozenset(), facts + g)]
        ctx.expect(rule + "-short", a, cases, cover=False)
        ctx.no_panics(rule + "-short-total", a)


def feasible(facts, guards):
    fs = facts
    for g in guards:
        fs = assume_facts(fs, norm(g, fs))
        if fs is None:
            return False
    return not contradictory(fs)


def check(ctx):
    n = 0
    for nm in ("deserialize_ops", "deserialize_ops_byte_array"):
        f = ctx.one("script::" + nm)
        if f:
            n += 1
            parser(ctx, f, nm)
            shapes(ctx, f, nm)
    ctx.floor("script parsers", n, 2)
    # the decoders on top
    DO = "deserialize_ops_byte_array"
    def script_of(r):
        tag = lambda x: struct("TaggedOp", op=x, **{k: ANY for k in tagged_fields() if k != "op"})
        return struct("Script", ops=Seq(Rep(0, Len(ok_of(r)), (((), (item(tag(Idx(ok_of(r), mk("k", 0)))),)),))))
    f = ctx.one("Script::deser_ops")
    if f:
        a = ctx.run(f, opaque=(DO,))
        if a:
            r = call(DO, a.params[0])
            ctx.expect("script-from-bytes", a, [Case([is_ok(r)], Ok(script_of(r)), "operations"), Case([Not(is_ok(r))], ERR, "malformed")], calls=[DO])
    D = methods(ctx, "deser_rest", "BitcoinCode")
    if "Script" in D:
        a = ctx.run(D["Script"], opaque=(DO, "ByteArray::deser_rest"))
        if a:
            q = call("ByteArray::deser_rest", a.params[0])
            r = call(DO, TFld(ok_of(q), 0))
            ctx.expect("script-from-wire", a, [
                Case([is_ok(q), is_ok(r)], Ok(Tup(script_of(r), TFld(ok_of(q), 1))), "operations"),
                Case([Not(is_ok(q))], ERR, "bad length"),
                Case([is_ok(q), Not(is_ok(r))], ERR, "malformed")], calls=[DO, "ByteArray::deser_rest"])


def tagged_fields():
    F = load_facts("main")
    return [f["name"] for f in F.adts[aid("TaggedOp")]["variants"][0]["fields"]]
