"""C07: re-serialising a parsed script reproduces its bytes."""
from spec import *
from common import *
from checks.c05 import push_cases
from checks.c06 import grammar, iteration_cases, feasible

TECHNIQUE = "abstract interpretation of MIR: composition of the parser's transition relation with the serialiser's summary"
EXPLANATION = ("Every operation the parser can produce (one class per opcode byte class, push form and length class) is fed, as a symbolic value "
               "under the facts of its parsing path, to the abstract interpreter's summary of serialize_op; the bytes must be the very bytes the "
               "parser consumed.  By induction over the loop (C06) and concatenation (C05) the whole script then round-trips.  The over-long push "
               "forms, which the operation type cannot represent, are recorded known findings, one per form.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std / byteorder used by the analyser (sa/models.py)"]


def check(ctx):
    ser = ctx.one("script::serialize_op")
    n = 0
    for nm in ("deserialize_ops", "deserialize_ops_byte_array"):
        f = ctx.one("script::" + nm)
        if not f or not ser:
            continue
        a = ctx.run(f)
        if not a:
            continue
        w = ctx.where(f)
        L = LoopView(a, unify=True)
        i0 = [i for i in range(len(L.inits)) if L.rep_of[i] == i] if L.ok else []
        if len(i0) != 1 or not L.items:
            ctx.unk("round-trip", w, "no loop to compare: %s" % (L.why or "state"))
            continue
        v = L.vars[i0[0]]
        p = a.params[0]
        S = v if L.inits[i0[0]] is p else Slice(p, v, Len(p))
        forms = [([int_eq(Idx(S, ZERO), ZERO)], [], ONE, "OP_0")] + [(g, None, None, x) for g, _, _, x in ()]
        for g, wd, n_, x in grammar(S):
            forms.append((g, wd, n_, x))
        for r, its in L.items.items():
            for o in its:
                if o.ret.op != "seq" or len(o.ret.args) != 1 or o.ret.args[0].op != "item":
                    ctx.unk("round-trip", w, "an iteration appends %s" % clip(show(o.ret)))
                    continue
                fs = assume_facts(o.facts, le(ONE, Len(S)))
                if fs is None:
                    continue
                opv = norm(o.ret.args[0].args[0], fs)
                name, used = consumed(S, fs)
                if name is None:
                    ctx.unk("round-trip", w, "push form not determined for %s" % clip(show(opv)))
                    continue
                b = ctx.run(ser, argv={0: opv}, facts=fs)
                if not b:
                    continue
                for q in b.outcomes:
                    if contradictory(q.facts):
                        continue
                    n += 1
                    got = norm(q.ret, q.facts)
                    want = norm(Ok(used), q.facts)
                    if got is want:
                        ctx.ok("round-trip", w, name)
                    elif fuzzy(got, atoms(want), b.opaque) or IT.LOSSY in q.facts:
                        ctx.unk("round-trip", w, "%s: %s" % (name, clip(show(got))))
                    else:
                        ctx.bad("round-trip", w, "%s: read from %s, written as %s; path: %s" % (
                            name, clip(show(want), 120), clip(show(got), 120), clip("; ".join(sorted(show(x) for x in q.facts)), 300)),
                            key="round-trip|%s|%s" % (nm, classify(name, q.facts, S, got)))
    ctx.floor("operation classes", n, 20)


def consumed(S, fs):
    """which form the path reads, and the bytes it takes"""
    b0 = Idx(S, ZERO)
    if entails(fs, int_eq(b0, ZERO)) is True or entails(fs, le(Int(79), b0)) is True:
        return "one byte", Seq(item(b0))
    for g, wd, L, nm in grammar(S):
        if all(entails(fs, norm(x, fs)) is True for x in g):
            head = [item(b0)]
            if wd == 2:
                head.append(item(Idx(S, ONE)))
            elif wd > 2:
                head.append(Slice(S, ONE, Int(wd)))
            return nm, Seq(*head, Slice(S, Int(wd), add(Int(wd), L)))
    return None, None


def classify(name, fs, S, got):
    """the over-long forms, when written as the explicit push of the same data with the shortest prefix"""
    for g, wd, L, nm in grammar(S):
        if nm == name and nm != "direct push":
            lim = {"PUSHDATA1": 0x4b, "PUSHDATA2": 0xff, "PUSHDATA4": 0xffff}[nm]
            if entails(fs, le(L, Int(lim))) is True:
                D = Slice(S, Int(wd), add(Int(wd), L))
                want = [c.want for c in push_cases(D, FALSE) if all(entails(fs, norm(g, fs)) is True for g in c.guards)]
                if len(want) == 1 and norm(want[0], fs) is got:
                    return "overlong %s" % nm
    return name
