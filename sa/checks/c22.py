"""C22: derive(BitcoinCode) codes every field that is not marked as skipped, in the order of declaration, and no other."""
import importlib
from spec import *
from common import *
import terms as TM
c19 = importlib.import_module("checks.c19")

TECHNIQUE = "abstract interpretation of MIR with a model of token streams: the code the derive macro emits, per shape of struct and field attribute, compared with its specification"
EXPLANATION = ("The generator behind derive(BitcoinCode) is summarised over structs of up to five fields of arbitrary name and type, with arbitrary attributes on the struct and on a field.  "
               "From the tokens it emits the fields written and the fields read are listed, with their types and their order, and compared with the declaration; which fields are left out is "
               "decided by the conditions on the attribute under which that code is emitted.")
ASSUMPTIONS = ["quote! builds the tokens it is given, in order", "Ident equality and display are by name", "rustc's MIR is the program that is compiled"]
CALLS = {"Attribute::parse_meta", "Punctuated::iter", "tokens", "tok", "group", "Ident::new", "LitStr::value", "Spanned::span", "Error::new"}
GEN = "bitcoin_cash_code::generate"


def sty(n):
    return next(i for i in load_facts("main").adts if i.startswith("syn::") and i.endswith("::" + n))


def sfld(x, ty, name):
    return Fld(x, sty(ty), 0, fieldno(sty(ty), 0, name))


def field(i, attrs=EMPTY):
    return c19.syn("Field", attrs=attrs, ident=mk("adt", OPTION, 1, Var("name%d" % i)), ty=Var("type%d" % i))


def struct_(fs, attrs=EMPTY, shape="Named"):
    F = load_facts("main")
    v = variant(sty("Fields"), shape)
    inner = c19.syn("FieldsNamed", named=Seq(*[item(x) for x in fs])) if shape == "Named" else Var("unnamed")
    return c19.syn("ItemStruct", attrs=attrs, ident=Var("Struct"), fields=mk("adt", sty("Fields"), v, *([] if shape == "Unit" else [inner])))


def flat(ns):
    for n in ns:
        yield n
        if n.k == "g":
            yield from flat(n.sub)


def body(ns, name):
    """the body of a function"""
    for i, n in enumerate(ns):
        if n == c19.word("fn") and i + 1 < len(ns) and ns[i + 1] == c19.word(name):
            for m in ns[i + 2:]:
                if m.k == "g" and m.v == "Brace":
                    return list(m.sub)
        if n.k == "g":
            b = body(list(n.sub), name)
            if b is not None:
                return b
    return None


def index(n, what):
    """which field (by name or type) a node is"""
    for i in range(8):
        if n == (c19.idt(Var("name%d" % i)) if what == "name" else c19.val(Var("type%d" % i))):
            return i
    return None


def written(b):
    """the fields a function takes from self, in order"""
    fl = list(flat(b))
    return [index(n, "name") for i, n in enumerate(fl) if i > 1 and fl[i - 2] == c19.word("self") and fl[i - 1] == c19.word(".") and index(n, "name") is not None]


def read(b):
    """what is bound from the data, in order: ("read", field, type) or ("default", field)"""
    r = []
    for st in c19.split(b, ";"):
        if c19.word("let") not in st or c19.word("=") not in st:
            continue
        e = st.index(c19.word("="))
        names = [index(n, "name") for n in flat(st[:e]) if index(n, "name") is not None]
        rhs = list(flat(st[e:]))
        if not names:
            continue
        if c19.word("deser_rest") in rhs or c19.word("deser") in rhs:
            r.append(("read", names[0], next((index(n, "type") for n in rhs if index(n, "type") is not None), None)))
        elif c19.word("default") in rhs:
            r.append(("default", names[0]))
        else:
            return None
    return r


def labels(b):
    """the names given to the parts written, in order"""
    fl = list(flat(b))
    return [list(n.sub)[0] for i, n in enumerate(fl) if i and n.k == "g" and n.v == "Parenthesis" and fl[i - 1] == c19.word("named") and len(list(n.sub)) == 1]


def label(i):
    return c19.T("x", canon(mk("disp", mk("disp", Var("name%d" % i)))))


def built(b):
    """the fields the value is built of"""
    fl = list(flat(b))
    for i, n in enumerate(fl):
        if n.k == "g" and n.v == "Brace" and i and (fl[i - 1] == c19.idt(Var("Struct")) or fl[i - 1] == c19.word("Self")):
            return [index(x, "name") for x in n.sub if index(x, "name") is not None]
    return None


def template(n, skip, crate):
    w, t, g = c19.word, c19.toks, c19.grp
    N = lambda i: c19.idt(Var("name%d" % i))
    C = crate
    P = "__serialize_parts"
    ser = t("let mut " + P + " = Vec :: with_capacity", g("(", c19.val(Int(n))), ";")
    for i in range(n):
        if i not in skip:
            ser += t(P + " . push", g("(", *t("self .", N(i), ". ser", g("("), ". named", g("(", label(i)))), ";")
    ser += t(*C, ":: ByteArray :: from_parts", g("(", w(P)))
    de, names = [], []
    for i in range(n):
        if i in skip:
            de += t("let", N(i), "= Default :: default", g("("), ";")
        else:
            de += t("let", g("(", *t(N(i), ", data")), "= <", c19.val(Var("type%d" % i)), "as", *C, ":: BitcoinCode > :: deser_rest", g("(", w("data")), "? ;")
        names += ([w(",")] if names else []) + [N(i)]
    S = c19.idt(Var("Struct"))
    de += t("Ok", g("(", g("(", *t(S, g("{", *names), ", data ,"))))
    return t("impl", *C, ":: BitcoinCode for", S, g("{", *t(
        "fn ser", g("(", *t("& self")), "->", *C, ":: ByteArray", g("{", *ser),
        "fn deser_rest", g("(", *t("data :", *C, ":: ByteArray")), "-> std :: result :: Result <", g("(", *t("Self ,", *C, ":: ByteArray")), ",", *C, ":: error :: Error >", g("{", *de))))


def emitted(ctx, where, ns, n, skip, what, crate=None):
    """the tokens code the fields of a struct of n fields, but for those skipped"""
    keep = [i for i in range(n) if i not in skip]
    s, d = body(ns, "ser"), body(ns, "deser_rest")
    if s is None or d is None:
        return ctx.unk("fields", where, "%s: no functions found in %s" % (what, clip(repr(ns), 200)))
    wr, rd, bt = written(s), read(d), built(d)
    ctx.check(wr == keep, "fields-written", where, "%s: writes the fields %s, declared are %s" % (what, wr, keep))
    lb = labels(s)
    (ctx.ok if lb == [label(i) for i in keep] else ctx.bad if len(lb) == len(keep) and all(x.k == "t" or x in [label(j) for j in range(n)] for x in lb) else ctx.unk)(
        "fields-named", where, "%s: the parts are named %s" % (what, clip(repr(lb), 150)))
    if rd is None or None in [x[-1] for x in rd if x[0] == "read"]:
        ctx.unk("fields-read", where, "%s: reads %s" % (what, rd))
    else:
        ctx.check([x for x in rd if x[0] == "read"] == [("read", i, i) for i in keep], "fields-read", where, "%s: reads (field, type) %s, declared are %s" % (what, [x[1:] for x in rd if x[0] == "read"], keep))
        ctx.check(sorted(x[1] for x in rd if x[0] == "default") == sorted(skip), "fields-skipped", where, "%s: gives a default to %s, skipped are %s" % (what, [x[1] for x in rd if x[0] == "default"], sorted(skip)))
    if bt is None:
        ctx.unk("fields-built", where, "%s: the value is not built of its fields" % what)
    else:
        ctx.check(sorted(bt) == list(range(n)), "fields-built", where, "%s: built of %s" % (what, bt))
    if crate is not None:
        c19.agree(ctx, "emitted-code", where, ns, template(n, skip, crate), what)


def ok(o):
    return o.ret.op == "adt" and o.ret.args[:2] == (RESULT, 0)


def marks(at):
    """the conditions under which an attribute says that the field is skipped"""
    m = call("Attribute::parse_meta", at)
    meta = ok_of(m)
    M = sty("Meta")
    v = variant(M, "List")
    l = Fld(meta, M, v, 0)
    nested = call("Punctuated::iter", sfld(l, "MetaList", "nested"))
    text = lambda x: mk("disp", Seq(item(call("tokens", x))))
    return [is_ok(m), TM.isv(meta, M, v), TM.teq(text(sfld(l, "MetaList", "path")), Str("bitcoin_code")), TM.eq0(TM.sub(Len(nested), ONE)), TM.teq(text(Idx(nested, ZERO)), Str("skip"))]


def under(o, guards):
    """the outcome's facts with the guards, or None"""
    fs = o.facts
    for g in guards:
        fs = assume_facts(fs, norm(g, fs)) if fs is not None else None
    return None if fs is None or contradictory(fs) else fs


def attributes(ctx, where, ats, n, at_field):
    """a field is skipped exactly if one of its attributes says so; what is not understood is an error"""
    fs = [field(i, Seq(*[item(x) for x in ats]) if i == at_field else EMPTY) for i in range(n)]
    a = ctx.run(GEN, argv={0: struct_(fs)})
    if a is None:
        return 0
    cs = [marks(x) for x in ats]
    what = "attribute" if len(ats) == 1 else "%d attributes" % len(ats)
    count = 0
    # which marks hold: every combination of "this one is a mark" and "its i-th condition fails"
    combos = [[]]
    for c in cs:
        combos = [x + [y] for x in combos for y in [(True, c)] + [(False, c[:i] + [Not(g)]) for i, g in enumerate(c)]]
    seen = set()
    for o in a.outcomes:
        z = None
        for f in o.facts:
            z = z or fuzzy(f, set(), CALLS)
        for combo in combos:
            if under(o, [g for m, gs in combo for g in gs]) is None:
                continue
            marked = any(m for m, gs in combo)
            if not ok(o):
                # an error: allowed unless all there is, is marks
                if all(m for m, gs in combo):
                    (ctx.unk if z is not None else ctx.bad)("skip-mark", where, "%s: marked fields are refused" % what)
                continue
            ns = c19.tree(o.ret.args[2])
            s = body(ns, "ser")
            wr = written(s) if s is not None else None
            skip = [at_field] if marked else []
            good = wr == [i for i in range(n) if i not in skip]
            count += 1
            d = "%s: %s: writes %s" % (what, "marked bitcoin_code(skip)" if marked else "not marked (%s)" % clip(show(combo[-1][1][-1]), 120), wr)
            if good:
                key = (tuple(map(repr, ns)), marked)
                if key not in seen:
                    seen.add(key)
                    emitted(ctx, where, ns, n, skip, "field %d of %d %s" % (at_field, n, "marked" if marked else "with another attribute"), ["bitcoin_cash"])
                ctx.ok("skip-mark", where, d)
            elif z is not None or wr is None:
                ctx.unk("skip-mark", where, d)
            else:
                ctx.bad("skip-mark", where, d)
    if not any(ok(o) and under(o, [g for c in cs for g in c]) is not None for o in a.outcomes):
        ctx.unk("skip-mark", where, "no code is emitted for a marked field")
    return count


def crate_name(ctx, where):
    """the crate the emitted code refers to is the one named on the struct"""
    at = Var("attribute")
    c = marks(at)[:3]
    M = sty("Meta")
    nested = call("Punctuated::iter", sfld(Fld(ok_of(call("Attribute::parse_meta", at)), M, variant(M, "List"), 0), "MetaList", "nested"))
    a = ctx.run(GEN, argv={0: struct_([field(0)], attrs=Seq(item(at)))}, facts=frozenset((TM.eq0(TM.sub(Len(nested), ONE)),)))
    if a is None:
        return
    nv = Fld(Fld(Idx(nested, ZERO), sty("NestedMeta"), variant(sty("NestedMeta"), "Meta"), 0), M, variant(M, "NameValue"), 0)
    n = 0
    for o in a.outcomes:
        if not ok(o):
            continue
        ns = c19.tree(o.ret.args[2])
        n += 1
        if under(o, c) is None:
            emitted(ctx, where, ns, 1, [], "another attribute on the struct", ["bitcoin_cash"])
            continue
        emitted(ctx, where, ns, 1, [], "a crate is named")
        i = next((i for i, x in enumerate(ns) if x == c19.word("impl")), None)
        crate = ns[i + 1] if i is not None and i + 1 < len(ns) else None
        lit = sfld(nv, "MetaNameValue", "lit")
        if crate is None or crate.k == "t":
            ctx.bad("crate-name", where, "a crate is named, the code refers to %r" % crate)
        elif any(lit in atoms(subst(x.args[3], {mk("k", x.args[0]): ZERO}) if x.op == "lastof" else x) for x in [crate.v, *atoms(crate.v)]):
            ctx.ok("crate-name", where, "the crate named")
            c19.agree(ctx, "emitted-code", where, ns, template(1, [], [crate]), "a crate is named")
        else:
            ctx.unk("crate-name", where, "the code refers to %s" % clip(repr(crate)))
    ctx.floor("ways to name the crate", n, 3)


def check(ctx):
    if GEN not in ctx.F.fns:
        return ctx.unk("anchor", GEN, "no such function")
    where = ctx.where(GEN)
    for n in range(6):
        a = ctx.run(GEN, argv={0: struct_([field(i) for i in range(n)])})
        for o in a.outcomes if a else ():
            if ok(o):
                emitted(ctx, where, c19.tree(o.ret.args[2]), n, [], "%d fields" % n, ["bitcoin_cash"])
            else:
                z = next((z for z in (fuzzy(f, set(), CALLS) for f in o.facts) if z is not None), None)
                (ctx.unk if z is not None else ctx.bad)("fields", where, "a struct of %d plain fields is refused" % n)
    n = 0
    for k in range(3):
        n += attributes(ctx, where, [Var("attribute")], 3, k)
    n += attributes(ctx, where, [Var("attribute0"), Var("attribute1")], 2, 1)
    ctx.floor("combinations of attributes", n, 8)
    crate_name(ctx, where)
    for shape in ("Unnamed", "Unit"):
        a = ctx.run(GEN, argv={0: struct_([], shape=shape)})
        if a:
            ctx.expect("named-fields-only", a, [Case([], ERR, shape)], calls=CALLS)
    entry(ctx)


def entry(ctx):
    f = next((i for i, f in ctx.F.fns.items() if f.get("item") == "serialize_macro"), None)
    if not f:
        return ctx.unk("anchor", "serialize_macro", "no such function")
    a = ctx.run(f, opaque=("generate",))
    if a is None:
        return
    n = 0
    for o in a.outcomes:
        g = [x for x in atoms(o.ret) if x.op == "call" and x.args[0] == "generate"]
        fs = [x for f in o.facts for x in atoms(f) if x.op == "call" and x.args[0] == "generate"]
        if not fs:
            continue
        yes = under(o, [is_ok(fs[0])]) is not None
        n += 1
        if yes:
            good = ok_of(fs[0]) in atoms(o.ret)
            (ctx.ok if good else ctx.unk)("entry", ctx.where(f), "generated code is %s" % clip(show(o.ret)))
        else:
            good = err_of(fs[0]) in atoms(o.ret)
            (ctx.ok if good else ctx.unk)("entry", ctx.where(f), "an error is %s" % clip(show(o.ret)))
    ctx.floor("outcomes of the derive macro", n, 2)
