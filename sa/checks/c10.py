"""C10: byte arrays hold exactly their bytes, and the recorded history of a byte array reproduces them."""
from spec import *
from common import *

TECHNIQUE = "abstract interpretation of MIR: summaries of every byte-array operation over data, function and recorded preimage, with an inductive invariant for splitting"
EXPLANATION = ("Each operation on byte arrays is summarised over arbitrary data, function and preimage, and compared with what it must do to the bytes, the function and the "
               "preimage, so that the parts recorded for a concatenation always concatenate to the data.  Joining many parts and splitting are loops: their steps are "
               "checked against an invariant relating the position reached to the split position, assuming the recursive calls split correctly (induction on nesting).")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std used by the analyser (sa/models.py)",
               "a part recorded as preimage is itself well formed (induction on nesting); from_preimage leaves this to its caller"]
BA = lambda: ("adt", aid("ByteArray"), ())
COW = ("adt", "alloc::borrow::Cow", (("lt",), ("p", "str")))
VEC = ("adt", "alloc::vec::Vec", (("p", "u8"),))
NONE_ = mk("adt", OPTION, 0)
KEEP = ("Plain", "Num2Bin", "EcdsaSign", "SchnorrSign", "ToDataSig")


def F_(x, n):
    return fld(x, "ByteArray", n)


def ba(data, name=NONE_, function=None, preimage=NONE_):
    return struct("ByteArray", data=data, name=name, function=function if function is not None else fn("Plain"), preimage=preimage)


def fn(n):
    return adt("Function", var=n)


def run(ctx, item, args=None, **kw):
    f = inherent(ctx, item, "ByteArray")
    if not f:
        ctx.unk("operation", item, "no such operation")
        return None
    return ctx.run(f, args=args, transparent=False, **kw)


def check(ctx):
    make(ctx)
    concat(ctx)
    parts(ctx)
    split(ctx)
    from_int(ctx)
    traits(ctx)
    a = None
    f = inherent(ctx, "should_keep_intact", "Function")
    if f:
        a = ctx.run(f)
        if a:
            names = [v["name"] for v in ctx.F.adts[aid("Function")]["variants"]]
            ctx.expect("keep", a, [Case([isvar(a.params[0], "Function", n)], FALSE if n in KEEP else TRUE, n) for n in names])
    ctx.floor("byte-array operations", len(ctx.fns), 25)


def make(ctx):
    for item, args, want in (
            ("new", (COW, VEC), lambda p: ba(p[1], Some(p[0]))), ("new_unnamed", (VEC,), lambda p: ba(p[0])),
            ("from_preimage", None, lambda p: ba(p[0], p[1], p[2], p[3])), ("from_slice", (COW,), lambda p: ba(p[1], Some(p[0]))),
            ("from_slice_unnamed", None, lambda p: ba(p[0])),
            ("named", (COW,), lambda p: ba(F_(p[0], "data"), Some(p[1]), F_(p[0], "function"), F_(p[0], "preimage"))),
            ("named_option", None, lambda p: ba(F_(p[0], "data"), p[1], F_(p[0], "function"), F_(p[0], "preimage"))),
            ("apply_function", (VEC,), lambda p: ba(p[1], NONE_, p[2], Some(items(p[0])))),
            ("function", None, lambda p: F_(p[0], "function")), ("data", None, lambda p: F_(p[0], "data")), ("as_slice", None, lambda p: F_(p[0], "data"))):
        a = run(ctx, item, args)
        if a:
            ctx.expect("operation", a, [Case([], want(a.params), item)])
            ctx.no_panics("operation-total", a)
    for item, f in (("preimage", "preimage"), ("preimage_arc", "preimage"), ("name", "name"), ("name_arc", "name")):
        a = run(ctx, item)
        if a:
            v = F_(a.params[0], f)
            ctx.expect("operation", a, [Case([isv(v, OPTION, 0)], NONE_, item), Case([Not(isv(v, OPTION, 0))], v, item)])


def concat(ctx):
    for item, args, name in (("concat_named_option", (BA(),), lambda p: p[2]), ("concat", (BA(),), lambda p: NONE_),
                             ("concat_named", (("adt", "alloc::sync::Arc", (COW,)), BA()), lambda p: Some(p[1]))):
        a = run(ctx, item, args)
        if not a:
            continue
        x = a.params[0]
        y = a.params[2 if item == "concat_named" else 1]
        data = Seq(F_(x, "data"), F_(y, "data"))
        plain = lambda z: isvar(F_(z, "function"), "Function", "Plain")
        nopre = lambda z: isv(F_(z, "preimage"), OPTION, 0)
        pre = lambda z: some_of(F_(z, "preimage"))
        cases = [Case([Not(plain(x))], [item_(x), item_(y)], "left computed"), Case([plain(x), Not(plain(y))], [item_(x), item_(y)], "right computed")]
        for gx, px, nx in ((nopre(x), item_(x), "atom"), (Not(nopre(x)), pre(x), "parts")):
            for gy, py, ny in ((nopre(y), item_(y), "atom"), (Not(nopre(y)), pre(y), "parts")):
                cases.append(Case([plain(x), plain(y), gx, gy], [px, py], nx + " and " + ny))
        for c in cases:
            c.want = ba(data, name(a.params), fn("Plain"), Some(Seq(*c.want)))
        ctx.expect("concat", a, cases)
        ctx.no_panics("concat-total", a, allow=("alloc",))


def item_(x):
    return mk("item", x)


def parts(ctx):
    a = run(ctx, "from_parts", opaque=("ByteArray::concat",))
    if not a:
        return
    where = ctx.where(a.fid)
    L = LoopView(a)
    if not L.ok:
        return ctx.unk("parts", where, "the joining loop is not in the recognised form: " + L.why)
    if len(set(L.rep_of)) != 1:
        return ctx.unk("parts", where, "joining keeps %d state components" % len(set(L.rep_of)))
    S = L.vars[0]
    k = mk("k", L.d)
    p = Idx(a.params[0], k)
    if L.inits[0] is Idx(a.params[0], ZERO):
        # joining starts from the first part and goes over the rest
        nxt = Idx(a.params[0], TM.add(k, ONE))
        ctx.compare("parts", where, L.steps[0], [Case([], call("ByteArray::concat", S, nxt), "a further part")], calls=["ByteArray::concat"], vocab=[S])
        none = int_eq(Len(a.params[0]), ZERO)
        for o in a.outcomes:
            ns = {m.args[1] for m in atoms(o.ret) if m.op == "mu"}
            ctx.check(entails(o.facts, none) is True or ns == {TM.sub(Len(a.params[0]), ONE)}, "parts", where, "every part is joined (%s of %s)" % (", ".join(show(n) for n in ns), show(Len(a.params[0]))))
        ctx.compare("parts", where, [L.outcome(o) for o in a.outcomes], [Case([none], ba(EMPTY), "no parts"), Case([Not(none)], S, "joined")], vocab=[S])
        return
    ctx.check(L.inits[0] is NONE_, "parts", where, "joining starts from nothing, not %s" % clip(show(L.inits[0])))
    ctx.compare("parts", where, L.steps[0], [Case([isv(S, OPTION, 0)], Some(p), "first part"),
                                             Case([Not(isv(S, OPTION, 0))], Some(call("ByteArray::concat", some_of(S), p)), "a further part")],
                calls=["ByteArray::concat"], vocab=[S])
    for o in a.outcomes:
        ns = {m.args[1] for t in [o.ret] + list(o.facts) for m in atoms(t) if m.op == "mu"}
        ctx.check(ns == {Len(a.params[0])}, "parts", where, "every part is joined (%s of %s)" % (", ".join(show(n) for n in ns), show(Len(a.params[0]))))
    ctx.compare("parts", where, [L.outcome(o) for o in a.outcomes], [Case([isv(S, OPTION, 0)], ba(EMPTY), "no parts"), Case([Not(isv(S, OPTION, 0))], some_of(S), "joined")], vocab=[S])


def split(ctx):
    f = inherent(ctx, "split", "ByteArray")
    if not f:
        return ctx.unk("split", "ByteArray::split", "no such operation")
    SP = "ByteArray::split"
    a = ctx.run(f, opaque=(SP,), transparent=False)
    if not a:
        return
    X, AT = a.params
    data = F_(X, "data")
    n = Len(data)
    pre = F_(X, "preimage")
    where = ctx.where(f)
    halves = (Slice(data, ZERO, AT), Slice(data, AT, n))
    none = isv(pre, OPTION, 0)
    # the bytes, the error, and what becomes of function and preimage
    bad_err = lambda o: o.ret.op == "adt" and o.ret.args[:2] == (RESULT, 1) and any(x.op == "call" and x.args[0] == SP for x in atoms(o.ret))
    good = [o for o in a.outcomes if not bad_err(o)]
    cases = [Case([le(add(n, ONE), AT)], ERR, "beyond the end")]
    within = le(AT, n)
    plainf = fn("Plain")
    whole = lambda f_, p1, p2: Ok(mk("tup", ba(halves[0], NONE_, f_, p1), ba(halves[1], NONE_, f_, p2)))
    cases.append(Case([within, none], whole(plainf, NONE_, NONE_), "no parts"))
    for v in [w["name"] for w in ctx.F.adts[aid("Function")]["variants"]]:
        g = [within, Not(none), isvar(F_(X, "function"), "Function", v)]
        cases.append(Case(g, whole(plainf, Some(wild(0)), Some(wild(1))) if v in KEEP else whole(fn("UnexpectedSplit"), NONE_, NONE_), v))
    ctx.compare("split", where, good, cases, calls=[SP], vocab=[x for o in good for x in atoms(o.ret) if x.op in ("mu", "self")] + [x for o in good for f_ in o.facts for x in atoms(f_)])
    # the parts
    for v in KEEP:
        fs = frozenset([isvar(F_(X, "function"), "Function", v), Not(none)])
        b = ctx.run(f, opaque=(SP,), transparent=False, facts=fs)
        if b:
            split_parts(ctx, b, SP, v)


def split_parts(ctx, a, SP, fname):
    where = ctx.where(a.fid)
    X, AT = a.params
    L = LoopView(a)
    if not L.ok:
        return ctx.unk("split-parts", where, "the loop over the parts is not in the recognised form: " + L.why)
    if len(set(L.rep_of)) != 1 or L.inits[0] not in (TRUE, FALSE):
        return ctx.unk("split-parts", where, "the loop over the parts keeps other state than a flag")
    P = some_of(F_(X, "preimage"))
    k = mk("k", L.d)
    part = Idx(P, k)
    plen = Len(F_(part, "data"))
    sums = {x for r in L.items for o in L.items[r] for f in o.facts for x in atoms(f) if x.op == "sum" and x.args[1] is k}
    if len(sums) != 1:
        return ctx.unk("split-parts", where, "the position of a part is not a running sum of lengths")
    pos, = sums
    d = pos.args[0]
    each = pos.args[2]
    if len(each) != 1 or each[0][0] or subst(each[0][1], {mk("k", d): k}) is not plen:
        return ctx.unk("split-parts", where, "the position of a part is %s" % clip(show(pos)))
    B = L.vars[0]
    left0 = L.inits[0]
    # invariant: while the flag has its first value the position is at most the split, afterwards at least
    inv = {True: le(pos, AT), False: le(AT, pos)}
    flag = B if left0 is TRUE else Not(B)
    nxt = add(pos, plen)
    nonneg = [le(ZERO, pos), le(ZERO, plen), le(ZERO, AT)]

    def under(fs, extra):
        for g in list(extra) + nonneg:
            fs = assume_facts(fs, norm(g, fs))
            if fs is None:
                return None
        return None if contradictory(fs) else fs
    for o in L.steps[0]:
        for left in (True, False):
            fs = under(o.facts, [flag if left else Not(flag), inv[left]])
            if fs is None:
                continue
            r = norm(o.ret, fs)
            for val in (TRUE, FALSE):
                if r.op == "int" and r is not val:
                    continue
                g = fs if r.op == "int" else assume_facts(fs, r if val is TRUE else Not(r))
                if g is None:
                    continue
                now = val is left0
                need = le(nxt, AT) if now else le(AT, nxt)
                e = entails(g, norm(need, g))
                if norm(need, g) is TRUE or e:
                    ctx.ok("split-parts", where, "invariant kept (%s)" % fname)
                else:
                    ctx.bad("split-parts", where, "after a part the loop %s although %s is not implied; path: %s" % (
                        "stays on the left" if now else "goes to the right", clip(show(need)), clip("; ".join(sorted(show(x) for x in g)), 300)))
    r = call(SP, part, sub(AT, pos))
    sides = (TFld(ok_of(r), 0), TFld(ok_of(r), 1))
    pf = F_(part, "function")
    keep = [isvar(pf, "Function", v) for v in KEEP]

    def broken(s):
        return struct("ByteArray", data=F_(s, "data"), name=F_(s, "name"), function=fn("UnexpectedSplit"), preimage=F_(s, "preimage"))
    # which of the recorded sequences is which: the outcome tells
    got = set()
    for o in a.outcomes:
        t = o.ret
        if t.op != "adt" or t.args[:2] != (RESULT, 0) or t.args[2].op != "tup" or any(h.op != "adt" for h in t.args[2].args):
            continue
        i = 2 + fieldno(aid("ByteArray"), 0, "preimage")
        for side, h in enumerate(t.args[2].args):
            p = h.args[i]
            if p.op == "adt" and p.args[1] == 1:
                q = p.args[2]
                q = q.args[0] if q.op == "seq" and len(q.args) == 1 else q
                if q in L.items:
                    got.add((side, q))
    if len(got) != 2:
        return ctx.unk("split-parts", where, "the parts of the halves are not collected by one loop")
    for side, q in sorted(got, key=lambda x: x[0]):
        ctx.check(q.args[1] is Len(P), "split-parts", where, "every part is distributed")
        outs = []
        for o in L.items[q]:
            for left in (True, False):
                fs = under(o.facts, [flag if left else Not(flag), inv[left]])
                if fs is not None:
                    outs.append(Out(o.ret, fs))
        inside = [le(add(pos, ONE), AT), le(add(AT, ONE), nxt)]
        cases = [Case([le(nxt, AT), le(add(pos, ONE), AT)], Seq(item(part)) if side == 0 else EMPTY, "a part before the split"),
                 Case([le(AT, pos), le(ONE, plen)], Seq(item(part)) if side == 1 else EMPTY, "a part after the split")]
        for v in [w["name"] for w in ctx.F.adts[aid("Function")]["variants"]]:
            cases.append(Case(inside + [isvar(pf, "Function", v)], Seq(item(sides[side] if v in KEEP else broken(sides[side]))), "a part across the split, " + v))
        ctx.compare("split-parts", where, outs, cases, calls=[SP], vocab=[B, pos])
    # a failing recursive call would need a split position beyond the part
    for o in a.outcomes:
        t = o.ret
        if t.op == "adt" and t.args[:2] == (RESULT, 1):
            c = t.args[2]
            while c.op == "fld":
                c = c.args[0]
            if c.op != "call" or c.args[0] != SP:
                continue
            need = le(c.args[2], Len(F_(c.args[1], "data")))
            ctx.check(norm(need, o.facts) is TRUE or entails(o.facts, need) is True, "split-parts", where,
                      "the position passed on (%s) is within the part" % clip(show(c.args[2])))


def from_int(ctx):
    a = run(ctx, "from_int")
    if not a:
        return
    i, n = (Fld(p, aid("Integer"), 0, 0) for p in a.params)
    rng = [le(Int(-0x7fffffff), i), le(i, Int(0x7fffffff)), le(Int(-0x7fffffff), n), le(n, Int(0x7fffffff))]
    cases = [Case(rng + [le(n, ZERO)], ERR, "no bytes")]
    for c in (1, 2, 3, 4, None):
        size = [int_eq(n, Int(c))] if c else [le(Int(5), n)]
        N = Int(c) if c else n
        m = (1 << min(8 * (c or 5) - 1, 31)) - 1
        for neg in (False, True):
            v = scale(i, -1) if neg else i
            b = Slice(LeB(4, v), ZERO, N) if c else Seq(LeB(4, v), mk("repeat", ZERO, sub(N, Int(4))))
            if neg:
                b = mk("updi", b, sub(N, ONE), bitop("or", Int(128), Idx(b, sub(N, ONE))))
            g = [le(i, Int(-1)), le(Int(-m), i)] if neg else [le(ZERO, i), le(i, Int(m))]
            cases.append(Case(rng + size + g, Ok(ba(b, NONE_, fn("Num2Bin"), NONE_)), "%s %s bytes" % ("negative in" if neg else "in", c or "more")))
        if m < 0x7fffffff:
            cases.append(Case(rng + size + [le(Int(m + 1), i)], ERR, "too big for %d" % c))
            cases.append(Case(rng + size + [le(i, Int(-m - 1))], ERR, "too small for %d" % c))
    ctx.expect("num2bin", a, cases)
    ctx.no_panics("num2bin-total", a)


def traits(ctx):
    fixed = aid("FixedByteArray")
    for i, f in sorted(ctx.F.fns.items()):
        s = f.get("impl_self")
        if not s or s[0] != "adt" or s[1] not in (aid("ByteArray"), fixed) or not f.get("body"):
            continue
        isf = s[1] == fixed
        D = (lambda x: F_(fld(x, "FixedByteArray", "byte_array"), "data")) if isf else (lambda x: F_(x, "data"))
        if isf and (f.get("trait") or "").split("::")[-1] not in ("Deref", "AsRef", "PartialEq", "Hash"):
            continue
        tr = (f.get("trait") or "").split("::")[-1]
        it = f["item"]
        if (tr, it) == ("From", "from"):
            src = f["sig_in"][0]
            if src[0] == "adt" and (ctx.F.adts.get(src[1]) or {}).get("local"):
                continue      # digests: C09
            a = ctx.run(i, transparent=False)
            if a:
                ctx.expect("view", a, [Case([], ba(a.params[0]), "from bytes")])
        elif (tr, it) in (("Deref", "deref"), ("AsRef", "as_ref")):
            a = ctx.run(i, transparent=False)
            if a:
                ctx.expect("view", a, [Case([], D(a.params[0]), it)])
        elif (tr, it) == ("PartialEq", "eq"):
            a = ctx.run(i, transparent=False)
            if a:
                ctx.expect("view", a, [Case([], teq(D(a.params[0]), D(a.params[1])), it)])
        elif (tr, it) == ("Default", "default"):
            a = ctx.run(i, transparent=False)
            if a:
                ctx.expect("view", a, [Case([], ba(EMPTY), it)])
        elif (tr, it) == ("Index", "index"):
            a = ctx.run(i, transparent=False)
            if a:
                ctx.notes.append("index: " + clip(show(a.outcomes[0].ret)))
        elif (tr, it) == ("Hash", "hash"):
            a = ctx.run(i, transparent=False)
            if a:
                hashes(ctx, a, D(a.params[0]))


def hashes(ctx, a, data):
    for o in a.outcomes:
        seen = [e.args[0] for e in o.events if e.op == "hashed"]
        if seen == [data]:
            ctx.ok("view", ctx.where(a.fid), "hashes the bytes only")
        elif any(fuzzy(x, set(), PURE) is not None for x in seen):
            ctx.unk("view", ctx.where(a.fid), "hashes %s" % clip("; ".join(show(x) for x in seen)))
        else:
            ctx.bad("view", ctx.where(a.fid), "equal byte arrays must hash alike: hashes %s" % clip("; ".join(show(x) for x in seen) or "nothing"))
