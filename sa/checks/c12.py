"""C12: cash addresses are encoded and decoded as the specification says, for every hash and prefix."""
from spec import *
from common import *
from bits import bitnorm, bitvec, join
import bits as B

TECHNIQUE = "abstract interpretation of MIR: bit-provenance of every address character, polynomial transition relation, and decoding cases compared with the cashaddr specification"
EXPLANATION = ("The checksum polynomial's loop is summarised to its transition relation and compared, for all 32 top-bit combinations, with the specified "
               "generators.  The text of an address is summarised for an arbitrary 20-byte hash, type and prefix; every character's bits are traced to the bits of the "
               "version, hash and checksum.  Decoding is summarised over an arbitrary text, with the letter table, the regrouping of bits (every payload length up to a "
               "bound, all bit patterns) and the checksum analysed on their own, and compared case by case.")
ASSUMPTIONS = ["str::to_ascii_lowercase, str::find and slicing are as documented", "rustc's MIR is the program that is compiled",
               "regrouping of 5-bit groups is compared for payloads of up to 48 letters; longer ones are rejected by the length test that follows"]

GEN = {1: 0x98f2bc8e61, 2: 0x79b76d99e2, 4: 0xf33e5fb3c4, 8: 0xae2eabe2a8, 16: 0x1e4f43e470}
CHARSET = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l"
POLY, CONV, B32 = "_poly_mod", "_convert_bits", "_map_from_b32"
TAB = Bytes(CHARSET)


def check(ctx):
    poly(ctx)
    encode(ctx)
    letters(ctx)
    regroup(ctx)
    decode(ctx)
    serde(ctx)
    accessors(ctx)


def untable(t):
    m = {x: x.args[0] for x in atoms(t) if x.op == "table"}
    return subst(t, m) if m else t


def poly(ctx):
    f = ctx.one(POLY)
    if not f:
        return
    w = ctx.where(f)
    V = Var("values")
    TYP.setdefault(Idx(V, Var("k")), "u8")
    a = ctx.run(f, argv={0: mk("it", V)})
    if a is None:
        return
    L = LoopView(a)
    if not L.ok:
        return ctx.unk("checksum", w, L.why)
    live = sorted({i for i in range(len(L.inits)) if L.rep_of[i] == i})
    if len(live) != 1:
        return ctx.unk("checksum", w, "the loop keeps %d values" % len(live))
    i = live[0]
    S = L.vars[i]
    ctx.check(L.inits[i] is ONE, "checksum", w, "starts with %s, specified 1" % show(L.inits[i]))
    k = mk("k", L.d)
    want0 = xorform(bitop("xor", mul(Int(32), bitop("and", S, Int(0x7ffffffff))), Idx(V, k)), 64)
    rel = set(range(35, 40))
    for s in L.steps[i]:
        for g in s.facts:
            rel |= {b[1] for b in guard_bits(g) if isinstance(b, tuple) and b[0] is S}
    rel = sorted(rel)
    if len(rel) > 10:
        return ctx.unk("checksum", w, "paths depend on %d bits of the state" % len(rel))
    done = 0
    for n in range(1 << len(rel)):
        asg = {(S, b): n >> j & 1 for j, b in enumerate(rel)}
        gen = 0
        for j in range(5):
            gen ^= GEN[1 << j] if asg[(S, 35 + j)] else 0
        want = fixbits([None if b is None else b ^ (frozenset([1]) if gen >> x & 1 else frozenset()) for x, b in enumerate(want0)], asg)
        hit = False
        for s in L.steps[i]:
            hs = [holds(g, asg) for g in s.facts]
            if False in hs:
                continue
            if any(fuzzy(g, {S, k, V}, PURE) is not None for g, h in zip(s.facts, hs) if h is None):
                ctx.unk("checksum", w, "a step's path depends on more than the state: %s" % clip(showfacts(s.facts)))
                return
            hit = True
            got = fixbits(xorform(s.ret, 64), asg)
            if None in got:
                ctx.unk("checksum", w, "bits of a step not traced: %s" % clip(show(s.ret)))
                return
            bad = [x for x in range(64) if got[x] != want[x]]
            if bad:
                ctx.bad("checksum", w, "step for state bits %s: %s, bit %d differs from the specified generators" % (
                    {b: asg[(S, b)] for b in rel}, clip(show(s.ret)), bad[0]))
            else:
                done += 1
        if not hit:
            ctx.unk("checksum", w, "no step for %s" % asg)
    ctx.ok("checksum", w, "%d steps agree with the generators" % done)
    ctx.instances["top-bit combinations"] = done
    for o in a.outcomes:
        v = L.outcome(o)
        ctx.compare("checksum", w, [v], [Case([], bitop("xor", S, ONE), "result")])


def guard_bits(g):
    h = g.args[0] if g.op == "not" else g
    return bitvec(pos(h.args[0]), 64) if h.op in ("eq0", "le0") else []


def pos(l):
    """l, -l or their successor without the constant"""
    c, ps = lin_parts(l)
    return mk_lin(0, {t: abs(k) for t, k in ps}.items()) if ps and all(k < 0 for t, k in ps) else mk_lin(0, ps)


def holds(g, asg):
    """a guard about the state's bits under an assignment of them; a guard not about the state is no condition"""
    if g.op == "not":
        r = holds(g.args[0], asg)
        return None if r is None else not r
    if g.op not in ("eq0", "le0"):
        return None
    S = next(iter(asg))[0]
    if S not in atoms(g):
        return True if g.op == "le0" else None
    v = 0
    c, ps = lin_parts(g.args[0])
    for t, k in ps:
        b = [asg.get(x, x) if isinstance(x, tuple) else x for x in bitvec(t, 64)]
        if any(x not in (0, 1) for x in b):
            return None
        v += k * sum(x << i for i, x in enumerate(b))
    return v + c == 0 if g.op == "eq0" else v + c <= 0


def fixbits(v, asg):
    r = []
    for b in v:
        if b is not None:
            out = frozenset()
            for x in b:
                y = asg.get(x, x) if isinstance(x, tuple) else x
                out ^= frozenset() if y == 0 else frozenset([y])
            b = out
        r.append(b)
    return r


def xorform(t, w):
    """bits as sets of atom bits xored together (a constant 1 is the element 1)"""
    if t.op == "xor":
        r = [frozenset()] * w
        for x in t.args:
            r = [None if p is None or q is None else p ^ q for p, q in zip(r, xorform(x, w))]
        return r
    return [None if b is None else frozenset() if b == 0 else frozenset([b]) for b in bitvec(t, w)]


def group(bits):
    """5 bits, most significant first, as an integer term"""
    return join(list(reversed(bits)))


def encode(ctx):
    f = methods(ctx, "from_hash").get("Address")
    if not f or not ctx.one(POLY):
        return ctx.unk("encode", "Address::from_hash", "not found")
    H = [Var("h%d" % i) for i in range(20)]
    for h in H:
        TYP[h] = "u8"
    hb = digest_of("Hash160", items(*H))
    a = ctx.run(f, opaque=(POLY,), argv={2: hb}, secs=120)
    if not a:
        return
    w = ctx.where(f)
    P, T = a.params[0], a.params[1]
    PF = call("into", P, mk("ty", None))
    # the converted prefix
    got = [o.ret for o in a.outcomes if o.ret.op == "adt"]
    pf = None
    for g in got:
        pf = Fld(g, aid("Address"), 0, fieldno(aid("Address"), 0, "prefix"))
    if pf is None or not (pf.op == "call" and pf.args[1] is P or pf is P):
        return ctx.unk("encode", w, "prefix kept as %s" % (clip(show(pf)) if pf is not None else "?"))
    ps = fld(pf, "AddressPrefix", "prefix_str")
    ver = mk("discr", T, aid("AddressType"))
    bs = []
    for x in [ver] + H:
        bs += list(reversed(bitvec(x, 8)))
    bs += [0, 0]
    groups = [group(bs[i:i + 5]) for i in range(0, 170, 5)]
    k = mk("k", 0)
    low = Rep(0, Len(ps), (((), (item(bitop("and", Idx(ps, k), Int(31))),)),))
    pm = call(POLY, Seq(low, item(ZERO), *[item(g) for g in groups], *[item(ZERO)] * 8))
    TYP.setdefault(pm, "u64")
    chk = [bitop("and", shift("shr", pm, Int(5 * (7 - i))), Int(31)) for i in range(8)]
    want = Seq(ps, item(Int(58)), *[item(Idx(TAB, g)) for g in groups], *[item(Idx(TAB, c)) for c in chk])
    ctx.compare("encode", w, [Out(bitnorm(untable(canon(o.ret))), o.facts) for o in a.outcomes],
                [Case([], bitnorm(canon(struct("Address", addr_type=T, hash=hb, cash_addr=want, prefix=pf))), "address of a hash")], calls=[POLY, "into"])
    ctx.instances["address characters traced"] = len(groups) + 8
    ctx.no_panics("encode-total", a)


def letters(ctx):
    f = ctx.one(B32)
    if not f:
        return
    w = ctx.where(f)
    a = ctx.run(f)
    if not a:
        return
    S = a.params[0]
    N = Len(S)
    k = Var("letter")
    TYP.setdefault(k, "usize")
    for o in a.outcomes:
        if o.ret.op != "adt" or o.ret.args[0] != RESULT:
            ctx.unk("letters", w, "yields %s" % clip(show(o.ret)))
            continue
        if o.ret.args[1] == 0:
            outs = ctx.each("letters", w, o.ret.args[2], N, k, what="one value per letter")
            fs = o.facts
            for r in outs or ():
                p = seq_parts(r.ret)
                x = p[0].args[0] if len(p) == 1 and p[0].op == "item" else None
                if x is not None and x.op == "first" and position_of(untable(x), Idx(S, k)):
                    ctx.ok("letters", w, "each letter becomes its position in the alphabet")
                elif x is not None and x.op == "first":
                    ctx.bad("letters", w, "letter %s" % clip(show(untable(x), 12), 900))
                else:
                    ctx.unk("letters", w, "letter becomes %s" % clip(show(r.ret)))
        else:
            e = o.ret.args[2]
            firsts = [x for x in atoms(e) if x.op == "first" and canon(x.args[1]) is canon(N)]
            if len(set(firsts)) != 1:
                ctx.unk("letters", w, "error %s" % clip(show(e)))
                continue
            k2 = firsts[0]
            want = adt("CashAddrError", k2, Idx(S, k2), var="InvalidBase32Letter")
            if canon(untable(e)) is not canon(untable(want)):
                ctx.bad("letters", w, "error %s, specified %s" % (clip(show(e)), clip(show(want))))
                continue
            # no alphabet letter equals it
            ok = any(g.op == "all" and g.args[1] is Int(32) and mismatch_all(untable(g), Idx(S, k2)) for g in o.facts)
            (ctx.ok if ok else ctx.unk)("letters", w, "the first letter outside the alphabet is reported" if ok else "error path %s" % clip(showfacts(o.facts), 600))
    ctx.no_panics("letters-total", a)


def position_of(x, c):
    """x is the first index of the alphabet holding c"""
    if x.args[1] is not Int(32):
        return False
    d = x.args[0]
    hit = int_eq(Idx(TAB, mk("k", d)), untable(c))
    # continues only past other letters
    return all(any(untable(g) is Not(hit) for g in gs) for gs in x.args[2])


def mismatch_all(g, c):
    d = g.args[0]
    hit = int_eq(Idx(TAB, mk("k", d)), untable(c))
    return all(Not(hit) in gs for gs in g.args[2])


def regroup(ctx):
    f = ctx.one(CONV)
    if not f:
        return
    w = ctx.where(f)
    top = 48 if ctx.tier == "thorough" else 48
    n_ok = 0
    for n in range(top + 1):
        vs = []
        for i in range(n):
            v = Var("g%d" % i)
            TYP[v] = "u8"
            vs.append(bitop("and", v, Int(31)))
        a = ctx.run(f, argv={0: mk("it", items(*vs)), 1: Int(5), 2: Int(8), 3: FALSE}, secs=60)
        if not a:
            return
        bs = []
        for v in vs:
            bs += list(reversed(bitvec(v, 5)))
        r = 5 * n % 8
        pad = bs[len(bs) - r:] if r else []
        want = items(*[join(list(reversed(bs[i:i + 8]))) for i in range(0, 5 * n - r, 8)])
        good = bad = 0
        for o in a.outcomes:
            states = zero_states(o.facts, pad)
            if states is None:
                ctx.unk("regroup", w, "%d letters: path depends on %s" % (n, clip(showfacts(o.facts))))
                continue
            got = bitnorm(o.ret)
            for v in states:
                some = r < 5 and v
                exp = Some(want) if some else NONE_
                if got is exp:
                    good += 1
                elif fuzzy(got, atoms(exp), PURE) is None and not any(x.op in B.OPS for x in atoms(got)):
                    bad += 1
                    ctx.bad("regroup", w, "%d letters, padding bits %s: yields %s, specified %s" % (n, "zero" if v else "not zero", clip(show(got)), clip(show(exp))))
                else:
                    ctx.unk("regroup", w, "%d letters: bits of %s not traced" % (n, clip(show(got))))
        n_ok += bool(good and not bad)
        for ob in a.I.obl.values():
            if not ob.ok:
                ctx.bad("regroup-total", "%s (%s)" % (ob.fn, ob.span), "%s may fail for %d letters: needs %s" % (ob.kind, n, clip(ob.why)))
    ctx.ok("regroup", w, "payloads of 0..%d letters, %d lengths agree" % (top, n_ok))
    ctx.instances["payload lengths"] = top + 1
    # a group outside 0..31
    v = Var("big")
    TYP[v] = "u8"
    a = ctx.run(f, argv={0: mk("it", items(v)), 1: Int(5), 2: Int(8), 3: FALSE})
    if a:
        ctx.expect("regroup", a, [Case([lt(Int(31), v)], NONE_, "a value of more than five bits")])


NONE_ = mk("adt", OPTION, 0)


def zero_states(facts, pad):
    """which of "the padding is zero" (True) and "is not" (False) a path can be taken with; None if unclear"""
    pad = set(pad)
    zero, some = set(), []
    for g in facts:
        neg, h = (True, g.args[0]) if g.op == "not" else (False, g)
        if h.op == "le0":
            continue
        if h.op != "eq0":
            return None
        b = {x for x in bitvec(h.args[0], 64) if x != 0}
        if not all(isinstance(x, tuple) for x in b):
            return None
        if neg:
            some.append(b)
        else:
            zero |= b
    feasible = lambda z: not any(b <= z for b in some)
    return [v for v in (True, False) if feasible(zero | pad if v else zero) and (v or not pad <= zero)]


def decode(ctx):
    f = methods(ctx, "from_cash_addr").get("Address")
    if not f or not all(ctx.one(x) for x in (POLY, CONV, B32)):
        return
    a = ctx.run(f, opaque=(POLY, CONV, B32), secs=100)
    if not a:
        return
    S = next((x for o in a.outcomes for t in [o.ret] + list(o.facts) for x in atoms(t) if x.op == "call" and x.args[0] == "into"), a.params[0])
    low = call("str::to_ascii_lowercase", S)
    fnd = call("str::find", low, Int(58))
    p = some_of(fnd)
    TYP.setdefault(p, "usize")
    cases = []
    BCH, SLP = Str("bitcoincash"), Str("simpleledger")
    kinds = {n: mk("adt", OPTION, 1, adt("Prefix", var=n)) for n in ("BitcoinCash", "SimpleLedger")}
    for has in (False, True):
        g0 = [is_some(fnd)] if has else [Not(is_some(fnd))]
        pre = Slice(low, ZERO, p) if has else BCH
        b32 = Slice(low, add(p, ONE), Len(low)) if has else low
        r = call(B32, b32)
        D = ok_of(r)
        k = mk("k", 0)
        lowbits = Rep(0, Len(pre), (((), (item(bitop("and", Idx(pre, k), Int(31))),)),)) if has else items(*[Int(c & 31) for c in b"bitcoincash"])
        pm = call(POLY, Seq(lowbits, item(ZERO), D))
        TYP.setdefault(pm, "u64")
        cv = call(CONV, Slice(D, ZERO, tmax(ZERO, sub(Len(D), Int(8)))), Int(5), Int(8), FALSE)
        X = some_of(cv)
        ca = lambda *e: mk("adt", RESULT, 1, adt("Error", adt("CashAddrError", *e[1:], var=e[0]), var="InvalidCashAddr"))
        t = " after a prefix" if has else " without prefix"
        TYP.setdefault(Idx(X, ZERO), "u8")
        cases += [Case(g0 + [Not(is_ok(r))], mk("adt", RESULT, 1, adt("Error", err_of(r), var="InvalidCashAddr")) if False else ERR, "a letter outside the alphabet" + t),
                  Case(g0 + [is_ok(r), Not(int_eq(pm, ZERO))], ca("InvalidChecksum"), "wrong checksum" + t),
                  Case(g0 + [is_ok(r), int_eq(pm, ZERO), Not(is_some(cv))], ca("InvalidPayload"), "bad padding" + t)]
        g1 = g0 + [is_ok(r), int_eq(pm, ZERO), is_some(cv)]
        cases += [Case(g1 + [int_eq(Len(X), ZERO)], ERR, "no payload" + t)]
        g1 = g1 + [Not(int_eq(Len(X), ZERO))]
        cases += [Case(g1 + [Not(int_eq(Len(X), Int(21)))], ERR, "hash of another length" + t),
                  Case(g1 + [int_eq(Len(X), Int(21)), Not(int_eq(Idx(X, ZERO), ZERO)), Not(int_eq(Idx(X, ZERO), Int(8)))], ERR, "unknown version" + t)]
        for v, ty in ((0, "P2PKH"), (8, "P2SH")):
            g2 = g1 + [int_eq(Len(X), Int(21)), int_eq(Idx(X, ZERO), Int(v))]
            for kind, g3 in ((kinds["BitcoinCash"], [teq(pre, BCH)]), (kinds["SimpleLedger"], [teq(pre, SLP)]), (NONE_, [Not(teq(pre, BCH)), Not(teq(pre, SLP))])):
                if not has and kind is not kinds["BitcoinCash"]:
                    continue
                cases.append(Case(g2 + (g3 if has else []), Ok(struct(
                    "Address", addr_type=adt("AddressType", var=ty), hash=digest_of("Hash160", Slice(X, ONE, Len(X))), cash_addr=S,
                    prefix=struct("AddressPrefix", prefix_str=pre, prefix_kind=kind))), ty + t))
    ctx.expect("decode", a, cases, calls=["str::to_ascii_lowercase", "str::find", "into"])
    ctx.no_panics("decode-total", a)


FH, FC = "Address::from_hash", "Address::from_cash_addr"


def serde(ctx):
    A = aid("Address")
    HR, HRD, SE, DE = "Serializer::is_human_readable", "Deserializer::is_human_readable", "Serialize::serialize", "Deserialize::deserialize"
    f = methods(ctx, "serialize", "Serialize").get("Address")
    if f:
        a = ctx.run(f, opaque=tuple(x for x in (ser_of(ctx, "SerAddress", "serialize"),) if x))
        if a:
            x, s = a.params
            h = call(HR, s)
            hb = bytes_of(fld(x, "Address", "hash"), "Hash160")
            sa_ = lambda: struct("SerAddress", addr_type=fld(x, "Address", "addr_type"), hash=hb, prefix=path(x, ("Address", "prefix"), ("AddressPrefix", "prefix_str")))
            for o in a.outcomes:
                t = o.ret
                if entails(o.facts, h) is False and t.op == "call" and len(t.args) == 3:
                    ctx.compare("serde-write", ctx.where(f), [Out(t.args[1], o.facts)], [Case([int_eq(Len(hb), Int(20))], sa_(), "binary")], calls=[HR])
                elif entails(o.facts, h) is True:
                    ctx.compare("serde-write", ctx.where(f), [o], [Case([], call(SE, fld(x, "Address", "cash_addr"), s), "text")], calls=[HR, SE])
                else:
                    ctx.unk("serde-write", ctx.where(f), "outcome %s" % clip(show(t)))
    f = methods(ctx, "deserialize", "Deserialize").get("Address")
    if f:
        op = [FH, FC] + [x for x in (ser_of(ctx, "SerAddress", "deserialize"),) if x]
        a = ctx.run(f, opaque=tuple(op))
        if a:
            d = a.params[0]
            h, r = call(HRD, d), call(DE, d)
            fc = call(FC, ok_of(r))
            cases = [Case([h, is_ok(r), is_ok(fc)], Ok(ok_of(fc)), "text"), Case([h, is_ok(r), Not(is_ok(fc))], ERR, "bad text"), Case([h, Not(is_ok(r))], ERR, "no text")]
            r2 = next((x for o in a.outcomes for g in o.facts for x in atoms(g) if x.op == "call" and x.args[0].endswith("deserialize") and x is not r), r)
            y = ok_of(r2)
            fh = call(FH, fld(y, "SerAddress", "prefix"), fld(y, "SerAddress", "addr_type"), digest_of("Hash160", fld(y, "SerAddress", "hash")))
            cases += [Case([Not(h), is_ok(r2)], Ok(fh), "binary"), Case([Not(h), Not(is_ok(r2))], ERR, "no binary")]
            ctx.expect("serde-read", a, cases, calls=[HRD, DE, FH, FC, "Error::custom"])
            ctx.no_panics("serde-read-total", a)


def ser_of(ctx, ty, item):
    for i, f in ctx.F.fns.items():
        if f.get("item") == item and f.get("body") and f.get("impl_self") and methods(ctx, item, None, ty).get(ty) == i:
            return i
    return None


def accessors(ctx):
    A = lambda x, n: fld(x, "Address", n)
    pf = lambda x, n: path(x, ("Address", "prefix"), ("AddressPrefix", n))
    spec = {"hash": lambda x: A(x, "hash"), "prefix_str": lambda x: pf(x, "prefix_str"), "prefix_kind": lambda x: pf(x, "prefix_kind"),
            "cash_addr": lambda x: A(x, "cash_addr"), "addr_type": lambda x: A(x, "addr_type"), "to_owned_address": lambda x: x, "into_owned_address": lambda x: x}
    for n, want in spec.items():
        f = inherent(ctx, n, "Address")
        if not f:
            ctx.unk("accessor", n, "not found")
            continue
        a = ctx.run(f)
        if a:
            x = a.params[0]
            w = want(x)
            ctx.compare("accessor", ctx.where(f), a.outcomes, [Case([], w, n)])
    # names of prefixes, both ways
    f = methods(ctx, "prefix_str").get("Prefix")
    BCH, SLP = Str("bitcoincash"), Str("simpleledger")
    if f:
        a = ctx.run(f)
        if a:
            x = a.params[0]
            ctx.expect("prefix-name", a, [Case([isvar(x, "Prefix", "BitcoinCash")], BCH, "BitcoinCash"), Case([isvar(x, "Prefix", "SimpleLedger")], SLP, "SimpleLedger")])
    kind = lambda s: [([teq(s, BCH)], Some(adt("Prefix", var="BitcoinCash"))), ([Not(teq(s, BCH)), teq(s, SLP)], Some(adt("Prefix", var="SimpleLedger"))),
                      ([Not(teq(s, BCH)), Not(teq(s, SLP))], NONE_)]
    f = methods(ctx, "from_prefix_str").get("Prefix")
    if f:
        a = ctx.run(f)
        if a:
            ctx.expect("prefix-name", a, [Case(g, v, "name to prefix") for g, v in kind(a.params[0])])
    for i, f in sorted(ctx.F.fns.items()):
        if f.get("item") in ("into", "from") and f.get("body") and f["crate"] == "bitcoin_cash" and "AddressPrefix" in f["name"]:
            a = ctx.run(i)
            if a:
                x = a.params[0]
                if f["name"].find("String") >= 0 or "str" in f["name"].split("for")[-1]:
                    ctx.expect("prefix-name", a, [Case(g, struct("AddressPrefix", prefix_str=x, prefix_kind=v), "prefix of a text") for g, v in kind(x)])
                else:
                    ctx.expect("prefix-name", a, [Case([isvar(x, "Prefix", n)], struct("AddressPrefix", prefix_str=s, prefix_kind=Some(adt("Prefix", var=n))), n)
                                                  for n, s in (("BitcoinCash", BCH), ("SimpleLedger", SLP))])
    f = methods(ctx, "default", "Default").get("Prefix")
    if f:
        a = ctx.run(f)
        ctx.expect("prefix-name", a, [Case([], adt("Prefix", var="BitcoinCash"), "default")])
    # from keys and scripts
    f = methods(ctx, "from_pk").get("Address")
    if f:
        a = ctx.run(f, opaque=(FH,))
        if a:
            h = digest_of("Hash160", mk("digest", "ripemd160", mk("digest", "sha256", Fld(a.params[1], aid("Pubkey"), 0, 0))))
            ctx.expect("from-key", a, [Case([], call(FH, a.params[0], adt("AddressType", var="P2PKH"), h), "hash160 of the key")], calls=[FH])
    f = methods(ctx, "from_redeem_script").get("Address")
    if f:
        a = ctx.run(f, opaque=(FH, "Script::ser_ops"))
        if a:
            h = digest_of("Hash160", mk("digest", "ripemd160", mk("digest", "sha256", call("Script::ser_ops", a.params[1]))))
            ctx.expect("from-script", a, [Case([], Ok(call(FH, a.params[0], adt("AddressType", var="P2SH"), h)), "hash160 of the script")], calls=[FH, "Script::ser_ops"])
    f = methods(ctx, "with_prefix").get("Address")
    if f:
        a = ctx.run(f, opaque=(FH,))
        if a:
            x = a.params[0]
            ctx.expect("with-prefix", a, [Case([], call(FH, a.params[1], A(x, "addr_type"), A(x, "hash")), "same hash and type")], calls=[FH])
