"""C20: SLP outputs are laid out as the token protocol prescribes."""
from types import SimpleNamespace
from spec import *
from common import *

TECHNIQUE = "abstract interpretation of MIR: the operations of each SLP output summarised for arbitrary parameters and compared, field by field, with the protocol's layout"
EXPLANATION = ("The output built for a token genesis and for a send is summarised for every token type, with and without a mint baton, over arbitrary texts, "
               "amounts (any number of them) and token ids; value, operations, pushed bytes and the form of the pushes are compared with the layout of the "
               "SLP token type 1 and NFT1 specifications.  Token ids are compared both ways, and a parsed SLP transaction with the transaction it wraps.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std used by the analyser (sa/models.py)", "the byte form of a push that is not minimal is C05's"]
TYPES = (("Fungible", 0x01), ("Nft1Child", 0x41), ("Nft1Group", 0x81))


def check(ctx):
    amounts(ctx)
    genesis(ctx)
    send(ctx)
    token_id(ctx)
    unwrapped(ctx)


def raw_bytes(t):
    """texts as their bytes"""
    if t.op == "str":
        return Seq(*[item(Int(b)) for b in t.args[0].encode()])
    if t.op == "seq":
        return Seq(*[raw_bytes(p) if p.op in ("str", "seq") else p for p in t.args])
    return t


def flat(x):
    """a push's bytes with texts spelled out"""
    if x.op == "adt" and x.args[0] == aid("Op") and x.args[1] == variant(aid("Op"), "PushByteArray"):
        i = fieldno(aid("Op"), x.args[1], "array")
        return mk("adt", *[raw_bytes(v) if k == i + 2 and is_t(v) else v for k, v in enumerate(x.args)])
    return x


def op_items(s, wrapped):
    """the operations of a list (of TaggedOp: what is in them)"""
    out = []
    for p in s.args if s.op == "seq" else (s,):
        if p.op == "item":
            out.append(item(flat(path(p.args[0], ("TaggedOp", "op")) if wrapped else p.args[0])))
        elif p.op == "rep":
            lo, hi, alts = p.args
            out.append(mk("rep", lo, hi, tuple((g, tuple(y for x in ps for y in op_items(Seq(x), wrapped))) for g, ps in alts)))
        else:
            out.append(p)
    return out


def ops_of(o):
    """what an output holds: its value, its operations"""
    r = o.ret
    ops = norm(path(r, ("TxOutput", "script"), ("Script", "ops")), o.facts)
    return mk("tuple", norm(fld(r, "TxOutput", "value"), o.facts), Seq(*op_items(ops, True)))


def push(b):
    O = aid("Op")
    fs = load_facts("main").adts[O]["variants"][variant(O, "PushByteArray")]["fields"]
    return mk("adt", O, variant(O, "PushByteArray"), *[{"array": b, "is_minimal": FALSE}[f["name"]] for f in fs])


def text(s):
    return Seq(*[item(Int(b)) for b in s])


def head(ty, kind):
    return [item(adt("Op", adt("Opcode", var="OP_RETURN"), var="Code"))] + [item(push(text(b))) for b in (b"SLP\0", bytes([ty]), kind)]


def amount_list(x):
    k = mk("k", 0)
    return Rep(0, Len(x), (((), (item(push(call_be(Idx(x, k)))),)),))


def call_be(x):
    TYP.setdefault(x, "u64")
    return BeB(8, x)


def amounts(ctx):
    f = ctx.one("slp_amount_ops")
    a = f and ctx.run(f)
    if a:
        ctx.expect("amounts", a, [Case([], Seq(amount_list(a.params[0])), "one push of eight bytes, big end first, per amount")], proj=lambda o: Seq(*op_items(o.ret, False)))
        ctx.no_panics("amounts", a)


def genesis(ctx):
    f = ctx.one("slp_genesis_output")
    if not f:
        return
    G = aid("SlpGenesisParams")
    n = 0
    for name, b in TYPES:
        for baton in (False, True):
            v = {x["name"]: Var("params." + x["name"]) for x in ctx.F.adts[G]["variants"][0]["fields"]}
            for x in ctx.F.adts[G]["variants"][0]["fields"]:
                TM.VAR_TY[v[x["name"]]] = tuple(x["ty"]) if isinstance(x.get("ty"), list) else x.get("ty")
            v["slp_token_type"] = adt("SlpTokenType", var=name)
            vout = Var("baton's output")
            TYP.setdefault(vout, "u8")
            TYP.setdefault(v["decimals"], "u8")
            v["mint_baton_vout"] = Some(vout) if baton else mk("adt", OPTION, 0)
            a = ctx.run(f, argv={0: struct("SlpGenesisParams", **v)})
            if not a:
                continue
            n += 1
            want = Seq(*head(b, b"GENESIS"), *[item(push(x)) for x in (v["token_ticker"], v["token_name"], v["token_document_url"], v["token_document_hash"], Seq(item(v["decimals"])),
                                                                     Seq(item(vout)) if baton else EMPTY, call_be(v["initial_token_mint_quantity"]))])
            ctx.expect("genesis", a, [Case([], mk("tuple", ZERO, want), "%s, %s mint baton" % (name, "a" if baton else "no"))], proj=ops_of)
            ctx.no_panics("genesis", a)
    ctx.floor("forms of genesis", n, 6)


def send(ctx):
    f = ctx.one("slp_send_output")
    if not f:
        return
    n = 0
    for name, b in TYPES:
        a = ctx.run(f, argv={0: adt("SlpTokenType", var=name)})
        if not a:
            continue
        n += 1
        tid, am = a.params[1:]
        want = Seq(*head(b, b"SEND"), item(push(Rev(bytes_of(fld(tid, "TokenId", "0"), "Sha256d")))), amount_list(am))
        ctx.expect("send", a, [Case([], mk("tuple", ZERO, want), name)], proj=ops_of)
        ctx.no_panics("send", a)
    ctx.floor("forms of send", n, 3)


def token_id(ctx):
    S = lambda x: fld(x, "TokenId", "0")
    for item_, want in (("as_slice_be", lambda x: bytes_of(S(x), "Sha256d")), ("to_vec", lambda x: Rev(bytes_of(S(x), "Sha256d"))), ("hash", S), ("from_hash", lambda x: adt("TokenId", x))):
        f = inherent(ctx, item_, "TokenId")
        a = f and ctx.run(f)
        if not f:
            ctx.unk("token-id", "TokenId::" + item_, "no such method")
        if a:
            ctx.expect("token-id", a, [Case([], want(a.params[0]), item_)])
            ctx.no_panics("token-id", a)
    f = inherent(ctx, "from_slice", "TokenId")
    a = f and ctx.run(f)
    if a:
        x = a.params[0]
        ctx.first_match("token-id", a, [Case([int_eq(Len(x), Int(32))], Ok(adt("TokenId", digest_of("Sha256d", Rev(x)))), "32 bytes, read in the order they are shown"), Case([], ERR, "any other length")],
                        proj=lambda o: ERR if o.ret.op == "adt" and o.ret.args[:2] == (RESULT, 1) else o.ret)
        ctx.no_panics("token-id", a)


def unwrapped(ctx):
    f = inherent(ctx, "into_unhashed_tx", "SlpTx")
    a = f and ctx.run(f)
    if not f:
        ctx.unk("unwrapped", "SlpTx::into_unhashed_tx", "no such method")
    if a:
        x = a.params[0]
        k = mk("k", 0)
        col = lambda n, T, g: Seq(Rep(0, Len(fld(x, "SlpTx", n)), (((), (item(fld(Idx(fld(x, "SlpTx", n), k), T, g)),)),)))
        ctx.expect("unwrapped", a, [Case([], struct("UnhashedTx", version=fld(x, "SlpTx", "version"), inputs=col("inputs", "SlpTxInput", "input"), outputs=col("outputs", "SlpTxOutput", "output"),
                                                   lock_time=fld(x, "SlpTx", "lock_time")), "the transaction without its token data")])
        ctx.no_panics("unwrapped", a)
    f = methods(ctx, "default", "Default").get("SlpAction")
    a = f and ctx.run(f)
    if a:
        ctx.expect("unwrapped", a, [Case([], adt("SlpAction", var="NonSlp"), "an output is no token unless said so")])
