"""C26: both signature back ends use exactly the key, message and signature they are given."""
from spec import *
from common import *
import analyse
from terms import isv

TECHNIQUE = "abstract interpretation of MIR with the curve library's functions uninterpreted: provenance of every argument and of every result, per back end"
EXPLANATION = ("sign, verify, derive_pubkey and normalize_sig of each back end are summarised with the functions of the secp256k1 library as uninterpreted symbols, for the C back end in "
               "the build of the workspace and for the Rust back end in a build with its feature, and compared with their specification: which library function is applied to "
               "which bytes, and what is returned when it succeeds and when it fails.")
ASSUMPTIONS = ["the functions of the secp256k1 and libsecp256k1 libraries do what they are documented to (the C library produces low-S signatures and rejects others)", "rustc's MIR is the program that is compiled"]

KNOWN = ["SecretKey::from_slice", "SecretKey::parse_slice", "Message::from_slice", "Message::parse_slice", "Signature::from_der", "Signature::from_der_lax", "Signature::from_compact",
         "Signature::parse_der", "Signature::parse_der_lax", "Signature::parse_slice", "PublicKey::from_slice", "PublicKey::parse_slice", "PublicKey::from_secret_key", "PublicKey::serialize", "PublicKey::serialize_compressed",
         "Signature::serialize_der", "Signature::serialize_compact", "Signature::normalize_s#0", "Signature::normalize_s", "Secp256k1::sign", "Secp256k1::verify", "secp256k1::sign", "secp256k1::verify"]


def back_end(ctx, which, ty):
    F = analyse.load_facts(which)
    M = {m: methods(ctx, m, "ECC", F=F) for m in ("sign", "verify", "derive_pubkey", "normalize_sig")}
    n = 0
    old = ctx.F
    ctx.F = F
    analyse._F["main"], keep = F, analyse._F.get("main")
    try:
        for m, fs in M.items():
            f = fs.get(ty)
            if not f:
                ctx.unk("back end", "%s::%s" % (ty, m), "not found")
                continue
            a = ctx.run(f, which=which)
            if not a:
                continue
            n += 1
            ctx.expect(m, a, CASES[m](a, ty), proj=lambda o: lows(o.ret), calls=KNOWN)
            ctx.no_panics(m + "-total", a)
    finally:
        ctx.F = old
        analyse._F["main"] = keep
    return n


NORM = "Signature::normalize_s#0"


def lows(t):
    """normalising a signature that is normalised changes nothing"""
    while True:
        m = {y: y.args[1] for y in atoms(t) if y.op == "call" and y.args[0] == NORM and y.args[1].op == "call" and y.args[1].args[0] in (NORM, "Secp256k1::sign")}
        if not m:
            return t
        t = subst(t, m)


def names(ty):
    C = ty == "CECC"
    return C, "from_slice" if C else "parse_slice", "from_der" if C else "parse_der"


def into(a, x):
    """the bytes `impl Into<ByteArray>` stands for in this summary"""
    for o in a.outcomes:
        for t in list(o.facts) + [o.ret]:
            for y in atoms(t):
                if y.op == "call" and y.args[0] == "into" and y.args[1] is x:
                    return y
    return x


def sign(a, ty):
    C, fs, der = names(ty)
    me, key, m = a.params
    m = into(a, m)
    K, M = call("SecretKey::" + fs, key), call("Message::" + fs, m)
    if C:
        s = call("Secp256k1::sign", fld(me, "CECC", "curve"), ok_of(M), ok_of(K))
    else:
        s = call("Signature::normalize_s#0", TFld(call("secp256k1::sign", ok_of(M), ok_of(K)), 0))
    return [Case([Not(is_ok(K))], ERR, "no secret key"), Case([is_ok(K), Not(is_ok(M))], ERR, "no message"),
            Case([is_ok(K), is_ok(M)], Ok(call("Signature::serialize_der", s)), "signature of this message under this key")]


def verify(a, ty):
    C, fs, der = names(ty)
    me, pk, m, sig = a.params
    M, S = call("Message::" + fs, m), call("Signature::" + der, sig)
    P = call("PublicKey::" + fs, pk) if C else call("PublicKey::" + fs, pk, ANY)
    if not C:
        # which formats of keys are accepted is left open
        for o in a.outcomes:
            for t in list(o.facts) + [o.ret]:
                for y in atoms(t):
                    if y.op == "call" and y.args[0] == "PublicKey::" + fs and y.args[1] is pk:
                        P = y
    cs = [Case([Not(is_ok(M))], ERR, "no message"), Case([is_ok(M), Not(is_ok(S))], ERR, "no signature"), Case([is_ok(M), is_ok(S), Not(is_ok(P))], ERR, "no public key")]
    g = [is_ok(M), is_ok(S), is_ok(P)]
    if not C:
        return cs + [Case(g, Ok(call("secp256k1::verify", ok_of(M), ok_of(S), ok_of(P))), "verdict of the library")]
    V = call("Secp256k1::verify", fld(me, "CECC", "curve"), ok_of(M), ok_of(S), ok_of(P))
    cs.append(Case(g + [is_ok(V)], Ok(ONE), "valid"))
    A = [(i, next(n for n, v in enumerate(d["variants"]) if v["name"] == "IncorrectSignature")) for i, d in analyse.load_facts("main").adts.items()
         if d["name"].split("::")[-1] == "Error" and any(v["name"] == "IncorrectSignature" for v in d["variants"])]
    if len(A) != 1:
        return cs + [Case(g + [Not(is_ok(V))], ANY, "not valid")]
    wrong = isv(err_of(V), *A[0])
    return cs + [Case(g + [Not(is_ok(V)), wrong], Ok(ZERO), "another signature"), Case(g + [Not(is_ok(V)), Not(wrong)], ERR, "any other failure")]


def derive(a, ty):
    C, fs, der = names(ty)
    me, key = a.params
    K = call("SecretKey::" + fs, key)
    p = call("PublicKey::serialize", call("PublicKey::from_secret_key", fld(me, "CECC", "curve"), ok_of(K))) if C else \
        call("PublicKey::serialize_compressed", call("PublicKey::from_secret_key", ok_of(K)))
    return [Case([Not(is_ok(K))], ERR, "no secret key"), Case([is_ok(K)], Ok(adt("Pubkey", p)), "compressed key of this secret key")]


def normalize(a, ty):
    C, fs, der = names(ty)
    S = call("Signature::%s_lax" % der, a.params[1])
    return [Case([Not(is_ok(S))], ERR, "no signature"), Case([is_ok(S)], Ok(call("Signature::serialize_der", call("Signature::normalize_s#0", ok_of(S)))), "the same signature with low S")]


CASES = {"sign": sign, "verify": verify, "derive_pubkey": derive, "normalize_sig": normalize}


def check(ctx):
    n = back_end(ctx, "main", "CECC") + back_end(ctx, "rust_ecc", "RustECC")
    ctx.floor("operations of back ends", n, 8)
