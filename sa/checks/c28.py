"""C28: the script macro's attributes and parameters become the variants, conditions and inputs they say."""
import itertools
from spec import *
from common import *
import terms as TM

TECHNIQUE = "abstract interpretation of MIR: what the macro's front end builds from every form of attribute and parameter, compared with the specification path by path"
EXPLANATION = ("parse_attrs and parse_script_input are summarised for up to three attributes of unknown content, and what they yield is compared with the specification for every combination of "
               "kinds of attribute; conditions, the list of parameters and the assembly of the parts are summarised for every input.  syn and the splitting of strings are uninterpreted.")
ASSUMPTIONS = ["syn, proc_macro2 and str::split do what they are documented to", "rustc's MIR is the program that is compiled"]
NM, META, MNV, PATH, SEG, LIT = "syn::attr::NestedMeta", "syn::attr::Meta", "syn::attr::MetaNameValue", "syn::path::Path", "syn::path::PathSegment", "syn::lit::Lit"
IR = "bitcoin_cash_script_macro::ir::"


def f_(x, A, name, var=None):
    vi = variant(A, var) if var else 0
    return Fld(x, A, vi, fieldno(A, vi, name))


def is_(x, A, var):
    return isv(x, A, variant(A, var))


def whole(A, **kw):
    fs = load_facts("main").adts[A]["variants"][0]["fields"]
    return mk("adt", A, 0, *[kw[f["name"]] for f in fs])


def single(p):
    """(is a path one word, the word)"""
    s = f_(p, PATH, "segments")
    return int_eq(Len(s), ONE), f_(Idx(s, ZERO), SEG, "ident")


def word(i, s):
    return TM.teq(mk("disp", i), mk("str", s))


def attrs(ctx):
    f, p = ctx.one("parse::parse_attrs"), ctx.one("parse::parse_predicate")
    if not f or not p:
        return 0
    n = 0
    for more in range(4 if ctx.tier == "quick" else 5):
        xs = [Var("attr%d" % i) for i in range(more + 1)]
        a = ctx.run(f, opaque=(p,), argv={0: Seq(*[item(x) for x in xs])})
        if not a:
            continue
        n += 1
        m = [f_(x, NM, "0", "Meta") for x in xs]
        one, name0 = single(f_(m[0], META, "0", "Path"))
        first = [is_(xs[0], NM, "Meta"), is_(m[0], META, "Path"), one]
        cases = [Case([is_(xs[0], NM, "Lit")], ERR, "no input struct"), Case([is_(xs[0], NM, "Meta"), Not(is_(m[0], META, "Path"))], ERR, "no input struct"),
                 Case(first[:2] + [Not(one)], ERR, "input struct with a module")]
        kinds = []
        for x, y in list(zip(xs, m))[1:]:
            nv = f_(y, META, "0", "NameValue")
            ok, name = single(f_(nv, MNV, "path"))
            lit = f_(nv, MNV, "lit")
            s = call("LitStr::value", f_(lit, LIT, "0", "Str"))
            b = f_(f_(lit, LIT, "0", "Bool"), "syn::lit::LitBool", "value")
            form = [is_(x, NM, "Meta"), is_(y, META, "NameValue"), ok]
            cr, de = word(name, "crate"), word(name, "debug")
            pr = call("parse::parse_predicate", lit)
            pr = next((z for o in a.outcomes for g in list(o.facts) + [o.ret] for z in atoms(g) if z.op == "call" and "parse_predicate" in z.args[0] and z.args[1] is lit), pr)
            sv = whole(IR + "ScriptVariant", name=name, predicate=ok_of(pr))
            kinds.append([("crate", form + [cr, is_(lit, LIT, "Str")], s), ("debug", form + [Not(cr), de, is_(lit, LIT, "Bool")], b),
                          ("variant", form + [Not(cr), Not(de), is_ok(pr)], sv)])
        for ks in itertools.product(*kinds):
            g, crate, debug, vs = list(first), NONE, NONE, []
            for k, gs, t in ks:
                g += gs
                if k == "crate":
                    crate = Some(call("Ident::new", t, ANY))
                elif k == "debug":
                    debug = Some(t)
                else:
                    vs.append(item(t))
            cases.append(Case(g, Ok(Tup(name0, crate, Seq(*vs), debug)), "attributes: %s" % (", ".join(k for k, _, _ in ks) or "none")))
        # one attribute of no valid form, the ones before it of any valid form
        for i in range(len(kinds)):
            y = m[i + 1]
            nv = f_(y, META, "0", "NameValue")
            ok, _ = single(f_(nv, MNV, "path"))
            for before in itertools.product(*kinds[:i]):
                g = list(first) + [z for _, gs, _ in before for z in gs]
                X = xs[i + 1]
                cases += [Case(g + [is_(X, NM, "Lit")], ERR, "a bare literal"), Case(g + [is_(X, NM, "Meta"), Not(is_(y, META, "NameValue"))], ERR, "no name and value"),
                          Case(g + [is_(X, NM, "Meta"), is_(y, META, "NameValue"), Not(ok)], ERR, "a variant with a module")]
                for _, gs, _ in kinds[i]:
                    cases.append(Case(g + gs[:-1] + [Not(gs[-1])], ERR, "a value of the wrong kind"))
        ctx.expect("attributes", a, cases, calls=["LitStr::value", "Ident::new", "Ident::span"])
    a = ctx.run(f, argv={0: Seq()})
    if a:
        n += 1
        ctx.expect("attributes", a, [Case([], ERR, "no attributes")])
    return n


def predicate(ctx):
    f = ctx.one("parse::parse_predicate")
    a = f and ctx.run(f)
    if not a:
        return 0
    w = ctx.where(f)
    lit = a.params[0]
    s = call("LitStr::value", f_(lit, LIT, "0", "Str"))
    split = lambda x, y: call("str::split", x, mk("str", y))
    D = split(s, "||")
    C = split(Idx(D, mk("k", 0)), "&&")
    A = Idx(C, mk("k", 1))
    neg = TM.teq(Slice(A, ZERO, ONE), mk("str", "!"))
    atom_ = lambda t, b: item(whole(IR + "VariantPredicateAtom", var_name=t, is_positive=b))
    good = [o for o in a.outcomes if o.ret.op == "adt" and o.ret.args[:2] == (RESULT, 0)]
    n = 0
    for o in good:
        t = o.ret.args[2]
        ok = t.op == "adt" and t.args[0] == IR + "VariantPredicate"
        r = t.args[2].args[0] if ok and t.args[2].op == "seq" and len(t.args[2].args) == 1 else None
        if r is None or r.op != "rep":
            ctx.unk("condition", w, "yields %s" % clip(show(o.ret)))
            continue
        decide(ctx, w, "the alternatives", r.args[1], Len(D))
        for g, ps in r.args[2]:
            if len(ps) != 1 or ps[0].op != "item" or ps[0].args[0].op != "adt" or ps[0].args[0].args[2].op != "seq" or len(ps[0].args[0].args[2].args) != 1:
                ctx.unk("condition", w, "an alternative yields %s" % clip("; ".join(map(show, ps))))
                continue
            q = ps[0].args[0].args[2].args[0]
            if q.op != "rep":
                ctx.unk("condition", w, "an alternative yields %s" % clip(show(q)))
                continue
            decide(ctx, w, "the atoms", q.args[1], Len(C))
            for g1, ps1 in q.args[2]:
                if len(ps1) != 1 or ps1[0].op != "item":
                    ctx.bad("condition", w, "an atom yields %d atoms under %s" % (len(ps1), clip("; ".join(map(show, g1))))) if not ps1 else ctx.unk("condition", w, "an atom yields %s" % clip("; ".join(map(show, ps1))))
                    continue
                ctx.compare("condition", w, [Out(ps1[0].args[0], frozenset(g1))],
                            [Case([neg], atom_(Slice(A, ONE, Len(A)), FALSE).args[0], "an atom with an exclamation mark"), Case([Not(neg)], atom_(A, TRUE).args[0], "an atom without")],
                            calls=["str::split", "LitStr::value", "char::is_alphanumeric"], cover=False)
                n += 1
    ctx.floor("forms of atoms", n, 2)
    strs = is_(lit, LIT, "Str")
    for o in a.outcomes:
        if Not(strs) in o.facts or entails(o.facts, strs) is False:
            ctx.check(o.ret.op == "adt" and o.ret.args[:2] == (RESULT, 1), "condition", w, "a condition that is no string is refused")
    return 1


def decide(ctx, w, what, got, want):
    if got is want:
        return ctx.ok("condition", w, what)
    known = all(x.op != "call" or x.args[0] in ("str::split", "LitStr::value") for x in atoms(got))
    (ctx.bad if known else ctx.unk)("condition", w, "%s are counted %s, specified %s" % (what, clip(show(got)), clip(show(want))))


def inputs(ctx):
    f, p = ctx.one("parse::parse_script_inputs"), ctx.one("parse::parse_script_input")
    n = 0
    if not f or not p:
        return n
    FA = "syn::item::FnArg"
    for k in range(8 if ctx.tier == "quick" else 16):
        xs = [Var("par%d" % i) for i in range(k)]
        a = ctx.run(f, opaque=(p,), argv={1: mk("it", Seq(*[item(x) for x in xs]))})
        if not a:
            continue
        n += 1
        if not k:
            ctx.expect("parameters", a, [Case([], ERR, "no parameter")], calls=["Error::new"])
            continue
        ty = lambda x: f_(x, FA, "0", "Typed")
        typed = [is_(x, FA, "Typed") for x in xs]
        r = [call("parse::parse_script_input", a.params[0], ty(x)) for x in xs]
        r = [next((z for o in a.outcomes for g in list(o.facts) + [o.ret] for z in atoms(g) if z.op == "call" and "parse_script_input" in z.args[0] and z.args[-1] is ty(x)), y) for x, y in zip(xs, r)]
        cases = [Case([Not(typed[0])], ERR, "a method")]
        g = [typed[0]]
        for i in range(1, k):
            cases += [Case(g + [Not(typed[i])], ERR, "a receiver"), Case(g + [typed[i], Not(is_ok(r[i]))], ERR, "a parameter of no valid form")]
            g += [typed[i], is_ok(r[i])]
        cases.append(Case(g, Ok(Tup(Seq(*[item(ok_of(y)) for y in r[1:]]), f_(ty(xs[0]), "syn::pat::PatType", "ty"))), "%d parameters" % k))
        ctx.expect("parameters", a, cases, calls=["Error::new"])
    return n


def one_input(ctx):
    f = ctx.one("parse::parse_script_input")
    if not f:
        return 0
    n = 0
    PT, AT, ML = "syn::pat::PatType", "syn::attr::Attribute", "syn::attr::MetaList"
    for k in range(4):
        xs = [Var("attribute%d" % i) for i in range(k)]
        pat, ty = Var("pattern"), Var("type")
        x = whole(PT, attrs=Seq(*[item(y) for y in xs]), pat=pat, colon_token=Var("colon"), ty=ty)
        a = ctx.run(f, argv={1: x})
        if not a:
            continue
        n += 1
        PM = "Attribute::parse_meta"
        ident = is_(pat, "syn::pat::Pat", "Ident")
        name = f_(f_(pat, "syn::pat::Pat", "0", "Ident"), "syn::pat::PatIdent", "ident")
        kinds = []
        for y in xs:
            one, w = single(f_(y, AT, "path"))
            is_variant = [one, word(w, "variant")]
            r = call(PM, y)
            m = ok_of(r)
            ok1, v1 = single(f_(m, META, "0", "Path"))
            it = call("Punctuated::iter", f_(f_(m, META, "0", "List"), ML, "nested"))
            e = Idx(it, mk("k", 0))
            q = f_(e, NM, "0", "Meta")
            okk, vk = single(f_(q, META, "0", "Path"))
            every = mk("all", 0, Len(it), ((is_(e, NM, "Meta"), is_(q, META, "Path"), okk),))
            every = next((z for o in a.outcomes for z in o.facts if z.op == "all" and z.args[1] is Len(it)), every)
            kinds.append([("path", is_variant + [is_ok(r), is_(m, META, "Path"), ok1], Seq(item(v1)), None),
                          ("list", is_variant + [is_ok(r), is_(m, META, "List"), every], Seq(Rep(0, Len(it), (((), (item(vk),)),))), None),
                          ("other", [one, Not(word(w, "variant"))], None, y), ("path of many words", [Not(one)], None, y)])
        cases = []
        for ks in itertools.product(*kinds):
            g, vs, at = [ident], NONE, []
            for _, gs, v, o in ks:
                g += gs
                vs = Some(v) if v is not None else vs
                at += [item(o)] if o is not None else []
            cases.append(Case(g, Ok(whole(IR + "ScriptInput", token_stream=ANY, ident=name, ty=ty, variants=vs, attrs=Seq(*at))), "attributes: %s" % (", ".join(z[0] for z in ks) or "none")))
            cases.append(Case([Not(ident)] + g[1:], ERR, "no plain name"))
        # refused for an element of a list of variants: only one that is no single word
        outs = []
        for o in a.outcomes:
            es = {x for g in o.facts for x in atoms(g) if x.op == "idx" and has_op(x.args[1], "first")}
            if o.ret.op == "adt" and o.ret.args[:2] == (RESULT, 1) and es:
                bad_ = [z for e in es for z in (is_(e, NM, "Meta"), is_(f_(e, NM, "0", "Meta"), META, "Path"), single(f_(f_(e, NM, "0", "Meta"), META, "0", "Path"))[0])]
                (ctx.ok if any(entails(o.facts, z) is False for z in bad_) else ctx.unk)("input", ctx.where(f), "refused under %s" % clip("; ".join(map(show, o.facts))))
            else:
                outs.append(o)
        ctx.compare("input", ctx.where(f), outs, cases, calls=[PM, "Punctuated::iter", "Error::new", "tokens"], cover=False)
    return n


def assembly(ctx):
    f = ctx.one("parse::parse_script")
    ps = [ctx.one("parse::" + x) for x in ("parse_attrs", "parse_docs", "parse_script_inputs", "parse_stmts")]
    a = f and all(ps) and ctx.run(f, opaque=tuple(ps))
    if not a:
        return 0
    at, fn_ = a.params
    IF, SG, BL = "syn::item::ItemFn", "syn::item::Signature", "syn::stmt::Block"
    sig = f_(fn_, IF, "sig")

    def c(name, x):
        """the call of a part on exactly this"""
        return next((z for o in a.outcomes for g in list(o.facts) + [o.ret] for z in atoms(g) if z.op == "call" and z.args[0].split("::")[-1] == name and z.args[-1] is x), call(name, x))
    A = c("parse_attrs", at)
    I_ = c("parse_script_inputs", call("Punctuated::iter", f_(sig, SG, "inputs")))
    S_ = c("parse_stmts", f_(f_(fn_, IF, "block"), BL, "stmts"))
    no_ret = is_(f_(sig, SG, "output"), "syn::ty::ReturnType", "Default")
    t = ok_of(A)
    dbg = TFld(t, 3)
    none = isv(dbg, OPTION, 0)
    g = [is_ok(A), is_ok(I_), is_ok(S_), no_ret]
    want = lambda d: Ok(whole(IR + "Script", input_struct=TFld(t, 0), crate_ident=TFld(t, 1), script_variants=TFld(t, 2), attrs=f_(fn_, IF, "attrs"), vis=f_(fn_, IF, "vis"),
                              sig=sig, param_type=TFld(ok_of(I_), 1), inputs=TFld(ok_of(I_), 0), stmts=ok_of(S_), docs=ANY, enable_debug=d))
    ctx.expect("assembly", a, [Case(g + [none], want(TRUE), "debug by default"), Case(g + [Not(none)], want(some_of(dbg)), "debug given"),
                               Case([Not(is_ok(A))], ERR, "bad attributes"), Case([is_ok(A), Not(no_ret)], ERR, "a return type"),
                               Case([is_ok(A), no_ret, Not(is_ok(I_))], ERR, "bad parameters"), Case([is_ok(A), no_ret, is_ok(I_), Not(is_ok(S_))], ERR, "bad statements")],
               calls=["Error::new", "Spanned::span", "Punctuated::iter"])
    return 1


def check(ctx):
    n = attrs(ctx)
    ctx.floor("numbers of attributes", n, 5)
    n = predicate(ctx) + assembly(ctx)
    ctx.floor("conditions and assembly", n, 2)
    ctx.floor("numbers of parameters", inputs(ctx), 8)
    ctx.floor("numbers of attributes of an input", one_input(ctx), 4)
