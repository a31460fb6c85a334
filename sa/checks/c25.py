"""C25: relative lock times, limits and default values are those of the protocol."""
from spec import *
from common import *
import terms as TM

TECHNIQUE = "abstract interpretation of MIR; a result over one 16-bit number is compared with its specification at every value"
EXPLANATION = ("CsvTimedelta::sequence is summarised for each kind with the number left open, and its result compared at all 65536 values; constants and the hand-written Default "
               "implementations are evaluated from their MIR and compared field by field.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "derived Default gives every field its default"]


def values(ctx, rule, where, got, want, x, n, text):
    """equal for all values of x below n?"""
    if canon(got) is canon(want):
        return ctx.ok(rule, where, text)
    for v in range(n):
        g, w = canon(subst(got, {x: Int(v)})), canon(subst(want, {x: Int(v)}))
        if g.op != "int":
            return ctx.unk(rule, where, "%s: %s at %d" % (text, clip(show(g)), v))
        if g is not w:
            return ctx.bad(rule, where, "%s: yields %s for %d, specified %s" % (text, show(g), v, show(w)))
    ctx.ok(rule, where, text)


def sequence(ctx):
    f = inherent(ctx, "sequence", "CsvTimedelta")
    if not f:
        return ctx.unk("sequence", "CsvTimedelta", "no method sequence")
    A = aid("CsvTimedelta")
    x = Var("n")
    TM.TYP.setdefault(x, "u16")
    base = frozenset([le(ZERO, x), le(x, Int(0xffff))])
    for v, w in (("Blockheight", lambda n: n), ("Seconds512", lambda n: add(n, Int(1 << 22)))):
        i = variant(A, v)
        a = ctx.run(f, argv={0: Adt(A, i, x)}, facts=base)
        if not a:
            continue
        ctx.no_panics("sequence-total", a)
        where = ctx.where(f)
        for o in a.outcomes:
            fs = [g for g in o.facts if g not in base and canon(g) is not TRUE]
            if not fs:
                values(ctx, "sequence", where, o.ret, w(x), x, 0x10000, v)
                continue
            if any(atoms(g) - {x} and {y for y in atoms(g) if y.op == "var"} != {x} for g in fs):
                ctx.unk("sequence", where, "%s: under %s" % (v, clip("; ".join(map(show, fs)))))
                continue
            bad = None
            for n in range(0x10000):
                gs = [canon(subst(g, {x: Int(n)})) for g in fs]
                if FALSE in gs:
                    continue
                r = canon(subst(o.ret, {x: Int(n)}))
                if set(gs) != {TRUE} or r.op != "int":
                    bad = "unk"
                    break
                if r is not canon(subst(w(x), {x: Int(n)})):
                    bad = n
                    break
            if bad == "unk":
                ctx.unk("sequence", where, "%s: %s" % (v, clip(show(o.ret))))
            elif bad is not None:
                ctx.bad("sequence", where, "%s: yields %s for %d" % (v, clip(show(o.ret)), bad))
            else:
                ctx.ok("sequence", where, v)


CONST = {"sequence::CSV_TYPE_FLAG": 1 << 22, "tx::DEFAULT_SEQUENCE": 0xffffffff, "tx::MAX_SIGNATURE_SIZE": 72, "tx_builder::DUST_AMOUNT": 546,
         "tx_builder::DEFAULT_FEE_PER_KB": 1000, "integer::MAX_SCRIPT_INTEGER": 2**31 - 1, "integer::MIN_SCRIPT_INTEGER": 1 - 2**31,
         "Integer::ZERO": 0, "UInteger::ZERO": 0}


def constants(ctx):
    n = 0
    for name, want in CONST.items():
        fs = ctx.find(name, need=False)
        if len(fs) != 1:
            continue
        a = ctx.run(fs[0])
        if not a:
            continue
        n += 1
        r = {canon(o.ret) for o in a.outcomes}
        r = r.pop() if len(r) == 1 else None
        if r is None or r.op not in ("int", "adt"):
            ctx.unk("limit", ctx.where(fs[0]), "no constant")
            continue
        while r.op == "adt" and len(r.args) == 3:
            r = r.args[2]
        ctx.check(r is Int(want), "limit", ctx.where(fs[0]), "%s is %s, specified %d" % (name, show(r), want))
    ctx.floor("constants", n, 5)


def defaults(ctx):
    D = methods(ctx, "default", "Default")
    zero = lambda n: mk("repeat", ZERO, Int(n))
    digest = lambda t, n: adt(t, struct("FixedByteArray", phantom=ANY, byte_array=zero(n)))
    W = {"UnhashedTx": lambda: struct("UnhashedTx", version=ONE, inputs=Seq(), outputs=Seq(), lock_time=ZERO),
         "Script": lambda: struct("Script", ops=Seq()),
         "TxOutpoint": lambda: struct("TxOutpoint", tx_hash=digest("Sha256d", 32), vout=ZERO),
         "Pubkey": lambda: adt("Pubkey", zero(33)), "ByteArray": lambda: Seq(), "Integer": lambda: adt("Integer", ZERO), "bool": None,
         "IntegerResult": lambda: adt("IntegerResult", Ok(adt("Integer", ZERO)))}
    for t, n in (("Sha1", 20), ("Ripemd160", 20), ("Sha256", 32), ("Sha256d", 32), ("Hash160", 20)):
        W[t] = lambda t=t, n=n: digest(t, n)
    n = 0
    for t, w in W.items():
        f = D.get(t)
        a = f and w and ctx.run(f)
        if not a:
            continue
        n += 1
        ctx.expect("default", a, [Case([], w(), t)])
        ctx.no_panics("default-total", a)
    ctx.floor("defaults", n, 11)


def check(ctx):
    sequence(ctx)
    constants(ctx)
    defaults(ctx)
