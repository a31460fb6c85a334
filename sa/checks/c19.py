"""C19: the script macro emits the operations as written, in order, and binds each item to what its operation gives."""
import itertools
from types import SimpleNamespace
import importlib
from spec import *
from common import *
from optable import OPS
c18 = importlib.import_module("checks.c18")

TECHNIQUE = "abstract interpretation of MIR with a model of token streams: the tokens each statement is compiled to, compared with its specification; the grouping of OP_IF..OP_ENDIF as a transition relation and, exhaustively, for all short sequences of statements"
EXPLANATION = ("The token stream a statement, a branch and a whole script is compiled to is summarised as a tree of literal tokens and spliced values, and compared with the tokens it "
               "stands for: one operation per statement, its own, in source order, and the mock call that binds the items.  Parsing of statements is summarised over arbitrary "
               "syntax trees.  The loop that groups branches is summarised as a transition relation and, separately, evaluated over all sequences of up to six statements.")
ASSUMPTIONS = ["quote! builds the tokens it is given, in order", "Ident equality and display are by name", "rustc's MIR is the program that is compiled"]
PARSERS = ("parse_op_if", "parse_stmts", "parse_stmt", "parse_stmt_expr")
G_ = "GenerateScript"


def check(ctx):
    c18.STATE = c18.state_ty(ctx)
    if not c18.STATE:
        return ctx.unk("anchor", "State", "no such type")
    c18.SFIELD = {f["name"]: i for i, f in enumerate(ctx.F.adts[c18.STATE]["variants"][0]["fields"])}
    written(ctx)
    grouping(ctx)
    emitted(ctx)
    numbering(ctx)
    pushes(ctx)
    functions(ctx)
    dispatch(ctx)
    branches(ctx)
    script(ctx)
    lines(ctx)


def fn(ctx, name):
    """a free function of the macro"""
    r = [i for i, f in ctx.F.fns.items() if f.get("item") == name and i.startswith("bitcoin_cash_script_macro")]
    if len(r) != 1:
        ctx.unk("anchor", name, "no such function")
        return None
    return r[0]


def mty(n):
    """a type of the macro (other crates may have types of that name)"""
    F = load_facts("main")
    return next(i for i in F.adts if i.startswith("bitcoin_cash_script_macro") and i.endswith("::" + n))


def full(n, **kw):
    A = mty(n)
    return mk("adt", A, 0, *[kw.get(x["name"], Var("%s.%s" % (n, x["name"]))) for x in load_facts("main").adts[A]["variants"][0]["fields"]])


# ---------------------------------------------------------------- token trees
class T:
    """a node: literal token, group, value written as tokens, or spliced stream"""

    def __init__(self, k, v, sub=None):
        self.k, self.v, self.sub = k, v, sub

    def __eq__(self, o):
        return (self.k, self.v, self.sub) == (o.k, o.v, o.sub) if isinstance(o, T) else False

    def __hash__(self):
        return hash((self.k, self.v))

    def __repr__(self):
        if self.k == "t":
            return self.v
        if self.k == "g":
            return {"Parenthesis": "(%s)", "Brace": "{%s}", "Bracket": "[%s]"}.get(self.v, "<%s>") % " ".join(map(repr, self.sub))
        return "`%s`" % clip(show(self.v) if is_t(self.v) else str(self.v), 80)


def name_of(t):
    """what an identifier is called"""
    while True:
        if t.op == "call" and t.args[0] == "Ident::set_span#0":
            t = t.args[1]
        elif t.op == "call" and t.args[0] == "Ident::new":
            return canon(t.args[1])
        else:
            return canon(mk("disp", t))


def text_of(t):
    if t.op == "str":
        return t.args[0] if isinstance(t.args[0], str) else bytes(t.args[0]).decode()
    if t.op == "seq":
        b = [p.args[0] for p in t.args]
        if all(p.op == "item" for p in t.args) and all(x.op == "int" for x in b):
            return bytes(x.args[0] for x in b).decode()
    return None


def tree(t):
    """the tokens of a stream"""
    r = []
    for p in t.args if t.op == "seq" else (t,):
        if p.op != "item":
            if p.op == "seq":
                r += tree(p)
            else:
                r.append(T("s", p))
            continue
        x = p.args[0]
        if x.op == "call" and x.args[0] == "tok":
            s = text_of(x.args[1])
            r.append(T("t", s) if s is not None else T("x", canon(x.args[1])))
        elif x.op == "call" and x.args[0] == "group":
            d = x.args[1]
            r.append(T("g", variant_name(d), tuple(tree(x.args[2]))))
        elif x.op == "call" and x.args[0] == "tokens":
            y = x.args[1]
            s = text_of(y)
            if y.op == "call" and y.args[0] in ("Ident::new", "Ident::set_span#0"):
                r.append(T("x", name_of(y)))
            elif y.op in ("str",):
                r.append(T("lit", y))
            else:
                r.append(T("x", canon(mk("disp", y))))
        else:
            r.append(T("x", canon(mk("disp", x))))
    return r


def variant_name(d):
    for n in ("Parenthesis", "Brace", "Bracket", "None"):
        if n in show(d):
            return n
    return show(d)


def word(t):
    return T("t", t)


def grp(d, *xs):
    return T("g", {"(": "Parenthesis", "{": "Brace", "[": "Bracket"}[d], tuple(xs))


def val(t):
    """a value written as tokens"""
    return T("x", canon(mk("disp", t)))


def idt(t):
    return T("x", name_of(t))


def toks(*xs):
    """a token tree: words of strings, nodes as they are"""
    r = []
    for x in xs:
        r += [word(w) for w in x.split()] if isinstance(x, str) else [x]
    return r


def short(ns):
    """paths by their last segment"""
    r = []
    for n in ns:
        if n.k == "g":
            n = T("g", n.v, tuple(short(n.sub)))
        if r and r[-1].k == "t" and r[-1].v == "::":
            if len(r) > 1 and (r[-2].k in ("x", "s") or r[-2].k == "t" and (r[-2].v[:1].isalpha() or r[-2].v[:1] == "_")):
                del r[-2:]
        r.append(n)
    return r


def split(ns, sep):
    r = [[]]
    for n in ns:
        if n == word(sep):
            r.append([])
        else:
            r[-1].append(n)
    return r if r[-1] else r[:-1]


def leaves(ns):
    for n in ns:
        if n.k == "g":
            yield ("g", n.v)
            yield from leaves(n.sub)
        else:
            yield (n.k, n.v)


def skeleton(ns):
    return [(("g", n.v, tuple(skeleton(n.sub))) if n.k == "g" else n.v if n.k == "t" else "_") for n in ns]


def agree(ctx, rule, where, got, want, what, key=None):
    """got is want; it is wrong if it is built of the same pieces, or has other values in the same places"""
    got, want = short(got), short(want)
    if got == want:
        return ctx.ok(rule, where, what)
    d = "%s: emits %s instead of %s" % (what, clip(repr(got), 300), clip(repr(want), 300))
    if skeleton(got) == skeleton(want) or set(leaves(got)) <= set(leaves(want)):
        return ctx.bad(rule, where, d, key)
    if misplaced(got, want) or {x for x in leaves(got) if x[0] == "t"} & REORDER - set(leaves(want)):
        return ctx.bad(rule, where, d, key)
    ctx.unk(rule, where, d)


REORDER = {("t", x) for x in "rev reverse skip take skip_while take_while step_by filter filter_map dedup truncate pop remove swap sort sort_by sort_by_key sort_unstable drain retain insert split_off chain".split()}


def misplaced(a, b):
    """the same but for other operators or numbers"""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.k == "g" and y.k == "g" and x.v == y.v:
            if not misplaced(list(x.sub), list(y.sub)):
                return False
        elif x != y and not (x.k == y.k == "t" and not str(x.v).isidentifier() and not str(y.v).isidentifier()):
            return False
    return True


def ops_in(ns):
    """the operations a stream pushes: [{field: tokens}]"""
    r = []
    for i, n in enumerate(ns):
        if n.k == "g":
            if n.v == "Brace" and i and ns[i - 1] == word("TaggedOp"):
                r.append({f[0].v: f[2:] for f in split(n.sub, ",") if len(f) > 2 and f[1] == word(":")})
            else:
                r += ops_in(n.sub)
    return r


# ---------------------------------------------------------------- statements as parsed
def syn(A, v=None, **kw):
    """a syntax tree node; what is not given is not known"""
    F = load_facts("main")
    i = next(k for k in F.adts if k.startswith("syn::") and k.split("::")[-1] == A)
    if v:
        return mk("adt", i, variant(i, v), *kw["of"])
    return mk("adt", i, 0, *[kw.get(x["name"], Var("%s.%s" % (A, x["name"]))) for x in F.adts[i]["variants"][0]["fields"]])


def syn_isv(x, A, v):
    F = load_facts("main")
    i = next(k for k in F.adts if k.startswith("syn::") and k.split("::")[-1] == A)
    return TM.isv(x, i, variant(i, v))


def path_(*ids):
    p = syn("Path", segments=Seq(*[item(syn("PathSegment", ident=x)) for x in ids]))
    return syn("Expr", "Path", of=[syn("ExprPath", attrs=EMPTY, path=p)])


def call_(f, *args):
    return syn("Expr", "Call", of=[syn("ExprCall", attrs=EMPTY, func=f, args=Seq(*[item(x) for x in args]))])


def pat_ident(x, **kw):
    return syn("Pat", "Ident", of=[syn("PatIdent", **dict(dict(attrs=EMPTY, by_ref=NONE, mutability=NONE, subpat=NONE, ident=x), **kw))])


def local(pat, e):
    return syn("Stmt", "Local", of=[syn("Local", attrs=EMPTY, pat=pat, init=NONE if e is None else Some(Tup(Var("="), e)))])


OTHER = Var("expression")



def plain(x):
    return frozenset(Not(syn_isv(x, "Expr", v)) for v in ("Path", "Call", "Block", "If", "ForLoop"))


def tagged(stmt):
    return full("TaggedStmt", token_stream=ANY, stmt=stmt)


def stmt_(v, x):
    A = mty("Stmt")
    return mk("adt", A, variant(A, v), x)


def opcode_(name, args, outs):
    return stmt_("Opcode", full("OpcodeStmt", expr_span=ANY, outputs_span=ANY, ident=name, input_names=NONE if args is None else Some(Seq(*[item(x) for x in args])),
                                output_names=NONE if outs is None else Some(Seq(*[item(x) for x in outs]))))


def push_(e, out):
    return stmt_("Push", full("PushStmt", span=ANY, expr=e, output_name=out))


def arg_(v, x):
    A = mty("OpcodeInput")
    return mk("adt", A, variant(A, v), x)


def exprs():
    """(what, expression, the opcode statement it is (given outputs), the value it pushes)"""
    id_, e = Var("name"), Var("arg")
    a, b = Var("a"), Var("b")
    no = None
    yield "a name", path_(id_), lambda outs: opcode_(id_, None, outs), no
    yield "a path of two names", path_(id_, a), no, no
    known = {"name": (path_(a), arg_("Ident", a)), "name2": (path_(b), arg_("Ident", b)), "path": (path_(a, b), arg_("Expr", path_(a, b))), "expr": (OTHER, arg_("Expr", OTHER)),
             "expr2": (Var("expression2"), arg_("Expr", Var("expression2"))), "call": (call_(path_(a)), arg_("Expr", call_(path_(a))))}
    for n in range(4):
        for ks in itertools.product(("name", "expr", "path", "call") if n < 2 else ("name", "name2", "expr2"), repeat=n):
            yield "a call of (%s)" % ", ".join(ks), call_(path_(id_), *[known[k][0] for k in ks]), (lambda ks: lambda outs: opcode_(id_, [known[k][1] for k in ks], outs))(ks), no
    yield "a call of a path of two names", call_(path_(id_, a)), no, no
    yield "a call of an expression", call_(OTHER), no, no
    yield "an expression", OTHER, no, OTHER


def written(ctx):
    """statements become what they say"""
    f = fn(ctx, "parse_opcode_inputs")
    a = f and ctx.run(f, opaque=PARSERS)
    for o in a.outcomes if a else ():
        args = a.params[0]
        if not is_ok_t(o.ret):
            ctx.bad("arguments", ctx.where(f), "refused: %s" % clip(show(o.ret)))
            continue
        r = ctx.each("arguments", ctx.where(f), o.ret.args[2], Len(args), Var("i"), facts=o.facts, what="one argument per expression")
        if r is None:
            continue
        x = Idx(args, Var("i"))
        segs = synfld(synfld(synas(x, "Expr", "Path"), "ExprPath", "path"), "Path", "segments")
        one = synfld(Idx(segs, Int(0)), "PathSegment", "ident")
        ctx.first_match("arguments", SimpleNamespace(outcomes=r, opaque=set(), fid=f, I=a.I), [
            Case([syn_isv(x, "Expr", "Path"), TM.eq0(TM.sub(Len(segs), Int(1)))], Seq(item(arg_("Ident", one))), "a name"), Case([], Seq(item(arg_("Expr", x))), "an expression")], where=ctx.where(f))
    f = fn(ctx, "parse_stmts")
    a = f and ctx.run(f, opaque=PARSERS)
    if a:
        S = a.params[0]
        n = 0
        for o in a.outcomes:
            if o.ret.op == "call" and o.ret.args[0] == "parse_op_if":
                n += 1
                r = ctx.each("statements", ctx.where(f), o.ret.args[1], Len(S), Var("i"), facts=o.facts, what="one group of statements per statement")
                want = Seq(ok_of(call("parse_stmt", Idx(S, Var("i")))))
                for x in r or ():
                    ctx.check(canon(x.ret) is canon(want), "statements", ctx.where(f), "a statement becomes %s" % clip(show(x.ret)))
            elif is_ok_t(o.ret):
                ctx.unk("statements", ctx.where(f), "not grouped by parse_op_if")
        ctx.check(n > 0, "statements", ctx.where(f), "statements are compiled")
    f = fn(ctx, "parse_stmt")
    if not f:
        return
    n = 0
    o1, o2, o3 = Var("o1"), Var("o2"), Var("o3")
    tup = lambda *ps: syn("Pat", "Tuple", of=[syn("PatTuple", attrs=EMPTY, elems=Seq(*[item(p) for p in ps]))])
    odd = Var("pattern")
    pats = [("let o1", pat_ident(o1), [o1]), ("let ()", tup(), []), ("let (o1,)", tup(pat_ident(o1)), [o1]), ("let (o1, o2)", tup(pat_ident(o1), pat_ident(o2)), [o1, o2]),
            ("let (o1, o2, o3)", tup(pat_ident(o1), pat_ident(o2), pat_ident(o3)), [o1, o2, o3]), ("let <pattern>", odd, None), ("let (o1, <pattern>)", tup(pat_ident(o1), odd), None),
            ("let mut o1", pat_ident(o1, mutability=Some(Var("mut"))), None), ("let ref o1", pat_ident(o1, by_ref=Some(Var("ref"))), None), ("let o1 @ ..", pat_ident(o1, subpat=Some(Var("sub"))), None)]
    facts = plain(OTHER) | plain(Var("expression2")) | frozenset(Not(syn_isv(odd, "Pat", v)) for v in ("Ident", "Tuple"))
    for what, e, as_op, as_push in exprs():
        forms = [("", syn("Stmt", "Expr", of=[e]), None), ("", syn("Stmt", "Semi", of=[e, Var(";")]), None)] + [(w + " = ", local(p, e), outs) for w, p, outs in pats]
        for w, s, outs in forms:
            if w and outs is None:
                want = ERR
            elif as_op:
                want = as_op(outs)
            elif as_push is not None and (outs is None or len(outs) == 1):
                want = push_(as_push, NONE if outs is None else Some(outs[0]))
            else:
                want = ERR
            n += 1
            parsed(ctx, f, s, facts, ERR if want is ERR else OK(Seq(item(tagged(want)))), w + what)
    parsed(ctx, f, local(pat_ident(o1), None), facts, ERR, "let o1;")
    parsed(ctx, f, syn("Stmt", "Item", of=[Var("item")]), facts, ERR, "an item")
    b = Var("statements")
    parsed(ctx, f, syn("Stmt", "Expr", of=[syn("Expr", "Block", of=[syn("ExprBlock", attrs=EMPTY, block=syn("Block", stmts=b))])]), facts, call("parse_stmts", b), "a block")
    ctx.floor("forms of statements", n, 300)


def OK(x):
    return mk("adt", RESULT, 0, x)


def parsed(ctx, f, s, facts, want, what):
    a = ctx.run(f, opaque=("parse_op_if", "parse_stmts"), argv={0: s}, facts=facts)
    if a is None:
        return
    w = "%s: %s" % (ctx.where(f), what)
    outs = [Out(ERR if o.ret.op == "adt" and o.ret.args[:2] == (RESULT, 1) else o.ret, o.facts) for o in a.outcomes]
    ctx.first_match("statement", SimpleNamespace(outcomes=outs, opaque={"parse_stmts"}, fid=f, I=a.I), [Case([], want, "refused" if want is ERR else "as written")], where=w)


def syn_adt(A):
    return next(k for k in load_facts("main").adts if k.startswith("syn::") and k.split("::")[-1] == A)


def synas(x, A, v):
    i = syn_adt(A)
    return Fld(x, i, variant(i, v), 0)


def synfld(x, A, n):
    i = syn_adt(A)
    return Fld(x, i, 0, [y["name"] for y in load_facts("main").adts[i]["variants"][0]["fields"]].index(n))


def is_ok_t(t):
    return c18.is_ok_t(t)


# ---------------------------------------------------------------- branches as grouped
def grouping(ctx):
    f = fn(ctx, "parse_op_if")
    if not f:
        return
    n = 0
    top = 8 if ctx.tier == "thorough" else 6
    full_ = 5 if ctx.tier == "thorough" else 4
    for k in range(top + 1):
        for ks in itertools.product("ienx", repeat=k):
            want = reference(ks)
            if k > full_ and want is None and (k > full_ + 2 or not closes(ks)):
                continue
            n += 1
            group(ctx, f, ks, want)
    ctx.floor("sequences of statements", n, 400)


def closes(ks):
    """wrong, if at all, only by its OP_ELSEs"""
    d = 0
    for k in ks:
        d += {"i": 1, "n": -1}.get(k, 0)
        if d < 0:
            return False
    return d == 0


def leaf(i, k):
    """the statement at position i, of a kind"""
    ts = Var("source%d" % i)
    if k == "x" and i % 2:
        return full("TaggedStmt", token_stream=ts, stmt=stmt_("Push", Var("push%d" % i))), frozenset()
    o = full("OpcodeStmt", expr_span=Var("span%d" % i), outputs_span=Var("span%d" % i), ident=Var("name%d" % i), input_names=Var("in%d" % i), output_names=Var("out%d" % i))
    words = ("OP_IF", "OP_NOTIF", "OP_ELSE", "OP_ENDIF")
    w = {"i": words[i % 2], "e": "OP_ELSE", "n": "OP_ENDIF"}.get(k)
    t = mk("disp", Var("name%d" % i))
    fs = frozenset([TM.teq(t, Str(w))]) if w else frozenset(Not(TM.teq(t, Str(x))) for x in words)
    return full("TaggedStmt", token_stream=ts, stmt=stmt_("Opcode", o)), fs


def reference(ks):
    """the statements with their branches: [position or (if, then, else, else branch, endif)]; None if they do not nest"""
    stack, out = [], []
    for i, k in enumerate(ks):
        if k == "i":
            stack.append([i, [], None, []])
            continue
        if k == "e":
            if not stack or stack[-1][2] is not None:
                return None
            stack[-1][2] = i
            continue
        x = i
        if k == "n":
            if not stack:
                return None
            x = tuple(stack.pop()) + (i,)
        (out if not stack else stack[-1][1] if stack[-1][2] is None else stack[-1][3]).append(x)
    return None if stack else out


def group(ctx, f, ks, want):
    lv = [leaf(i, k) for i, k in enumerate(ks)]
    a = ctx.run(f, argv={0: Seq(*[item(x) for x, _ in lv])}, facts=frozenset().union(*[g for _, g in lv]))
    if a is None:
        return
    st_ = lambda i: fld2(lv[i][0], "TaggedStmt", "stmt").args[2]
    ts = lambda i: Var("source%d" % i)

    def build(xs):
        return Seq(*[item(lv[x][0] if isinstance(x, int) else tagged(stmt_("ScriptIf", full(
            "ScriptIfStmt", if_token_stream=ts(x[0]), if_opcode=st_(x[0]), else_token_stream=NONE if x[2] is None else Some(ts(x[2])), else_opcode=NONE if x[2] is None else Some(st_(x[2])),
            endif_token_stream=ts(x[4]), endif_opcode=st_(x[4]), then_stmts=build(x[1]), else_stmts=build(x[3]))))) for x in xs])
    w = "%s: %s" % (ctx.where(f), " ".join({"i": ("OP_IF", "OP_NOTIF")[i % 2], "e": "OP_ELSE", "n": "OP_ENDIF", "x": "stmt"}[k] for i, k in enumerate(ks)) or "nothing")
    outs = [Out(ERR if o.ret.op == "adt" and o.ret.args[:2] == (RESULT, 1) else o.ret, o.facts) for o in a.outcomes]
    ctx.first_match("branches", SimpleNamespace(outcomes=outs, opaque=set(), fid=f, I=a.I), [Case([], ERR if want is None else OK(build(want)), "does not nest" if want is None else "grouped")], where=w)
    for o in a.I.obl.values():
        if not o.ok:
            ctx.unk("branches", w, "%s possible: %s" % (o.kind, o.why))


def fld2(x, n, f):
    A = mty(n)
    return Fld(x, A, 0, [y["name"] for y in load_facts("main").adts[A]["variants"][0]["fields"]].index(f))


# ---------------------------------------------------------------- opcodes
def run_opcode(ctx, f, m, name, debug, args, ns):
    facts = frozenset((is_some(m), isvar(some_of(m), "Opcode", name), c18.FEW))
    return ctx.run(f, opaque=c18.STACKS, argv={0: c18.generator(debug), 1: c18.stmt(args, ns)}, facts=facts)


def pushed_items(a, o):
    """the items put on the stack and on the altstack, in order"""
    V = fld(o.mem.get("self", c18.generator()), G_, "variant_states")
    xs, alt = [], []
    while V.op == "call" and V.args[0] in ("VariantStates::push#0", "VariantStates::push_alt#0"):
        (xs if V.args[0] == "VariantStates::push#0" else alt).insert(0, V.args[2])
        V = V.args[1]
    return xs, alt


def name_tokens(x, facts):
    """Some(name) of an item that has one, None of another"""
    g = entails(facts, fld(x, c18.IT_, "has_generated_name"))
    if g is None:
        g = {1: True, 0: False}.get(fld(x, c18.IT_, "has_generated_name").args[0]) if fld(x, c18.IT_, "has_generated_name").op == "int" else None
    if g is None:
        return None
    return toks("None") if g else toks("Some", grp("(", text(fld(x, c18.IT_, "name")), word("."), word("into"), grp("(")))


def text(t):
    s = text_of(t)
    return T("x", canon(mk("disp", t)))


def commas(xs):
    r = []
    for x in xs:
        r += ([word(",")] if r else []) + list(x)
    return r


def one_op(ctx, rule, w, o, got, code, names, alt, debug):
    """exactly one operation, the one given; its names are those of the items"""
    ops = ops_in(short(got))
    if not ops and any(n.k == "s" for n in got):
        return ctx.unk(rule, w, "what is spliced in is not known")
    key = "%s|ops" % rule
    if len(ops) != 1:
        return ctx.bad(rule, w, "emits %d operations: %s" % (len(ops), clip(repr([x.get("op") for x in ops]), 300)), key)
    agree(ctx, rule, w, ops[0].get("op", []), code, "the operation", key)
    # it goes to the script, and the script only
    me = T("s", canon(fld(c18.generator(), G_, "script_ident")))
    put = [x for x in split(short(got), ";") if ops_in(x)][0]
    hide = lambda ns: [T("g", n.v, ()) if n.k == "g" and n.v == "Brace" else T("g", n.v, tuple(hide(n.sub))) if n.k == "g" else n for n in ns]
    agree(ctx, rule, w, hide(put), [me] + toks(". push", grp("(", *toks("TaggedOp", grp("{")))), "where it goes", key)
    G = o.mem.get("self", c18.generator())
    ctx.check(fld(G, G_, "script_ident") is fld(c18.generator(), G_, "script_ident"), rule, w, "later operations go to %s" % clip(show(fld(G, G_, "script_ident"))), key)
    ctx.check(fld(G, G_, "stmt_idx") is Int(1), "lines", w, "%s source lines are quoted for one operation" % clip(show(fld(G, G_, "stmt_idx"))))
    if debug:
        agree(ctx, rule + "-source", w, ops[0].get("src_line", []) + ops[0].get("src_column", []) + ops[0].get("src_file", []), toks("line !", grp("("), "column !", grp("("), "file !", grp("("), ".", word("into"), grp("(")), "where it was written")
        for f, want in (("pushed_names", names), ("alt_pushed_names", alt)):
            if any(x is None for x in want):
                continue
            agree(ctx, rule + "-names", w, ops[0].get(f, []), toks("Some", grp("(", *toks("vec ! "), grp("[", *commas(want)))), "the names of the items (%s)" % f)


def code_of(x):
    return toks("Code", grp("(", idt(x)))


def emitted(ctx):
    f = inherent(ctx, "run_opcode", G_)
    m = f and c18.opcode_var(ctx, f)
    if not m:
        return
    n = 0
    for name, (_, kind, ins, outs) in OPS.items():
        if kind != "op":
            continue
        own = name in ("OP_TOALTSTACK", "OP_FROMALTSTACK", "OP_PICK", "OP_ROLL")
        k, l = (1, 1) if own else (len(ins), len(outs))
        for debug, args, ns in ((0, None, None), (1, None, None)) + (((1, None, [Var("out%d" % i) for i in range(l)]),) if l <= 3 or ctx.tier == "thorough" else ()) + (((1, [c18.ident(i) for i in range(k)], None),) if k and k <= 2 else ()):
            if name in ("OP_TOALTSTACK", "OP_FROMALTSTACK") and args is not None and name == "OP_FROMALTSTACK":
                continue
            a = run_opcode(ctx, f, m, name, debug, args, ns)
            if a is None:
                continue
            w = "%s: %s%s%s" % (ctx.where(f), "" if ns is None else "let .. = ", name, "" if args is None else "(..)")
            for o in a.outcomes:
                if not is_ok_t(o.ret):
                    continue
                n += 1
                statement(ctx, w, name, ins, o, a, debug)
    ctx.floor("compiled opcode statements", n, 300)


def statement(ctx, w, name, ins, o, a, debug):
    got = tree(o.ret.args[2])
    me = fld(c18.at_start("OpcodeStmt"), "OpcodeStmt", "ident")
    items, alt = pushed_items(a, o)
    fresh(ctx, w, o, items)
    names = [name_tokens(x, o.facts) for x in items]
    alts = [name_tokens(x, o.facts) for x in alt]
    one_op(ctx, "operation", w, o, got, code_of(me), names, alts, debug)
    if name in ("OP_TOALTSTACK", "OP_FROMALTSTACK"):
        return
    # the mock call: from the items taken to the items pushed
    stmts = [s for s in split(short(got), ";") if not ops_in(s)]
    ids = lambda xs: [[idt(fld(x, c18.IT_, "ident"))] for x in xs]
    deep = name in ("OP_PICK", "OP_ROLL")
    args = ids(c18.inputs(1 if deep else len(ins)))
    call_ = [idt(me), grp("(", *commas([x if deep else x + toks(".", word("clone"), grp("(")) for x in args]))]
    outs = ids(items)
    if deep:
        want = [call_]
    else:
        want = [toks("let") + (outs[0] if len(outs) == 1 else [grp("(", *commas(outs))]) + toks("=") + call_]
    agree(ctx, "binding", w, [x for s in stmts for x in s + [word(";")]], [x for s in want for x in s + [word(";")]], "the items")


def fresh(ctx, w, o, items):
    """made-up identifiers are not used twice: their number was not given out before, and will not be again"""
    N = c18.N_IDENT
    used = TM.sub(fld(o.mem.get("self", c18.generator()), G_, "n_ident"), N)
    if used.op != "int":
        return ctx.unk("fresh", w, "%s identifiers are given out" % clip(show(used)))
    seen = []
    for x in items:
        i = fld(x, c18.IT_, "ident")
        if N not in atoms(i):
            continue
        ns = [TM.sub(y.args[0], N) for y in (i.args[1].args if i.op == "call" and i.args[0] == "Ident::new" and i.args[1].op == "seq" else ()) if y.op == "disp"]
        ns += [TM.sub(y.args[0], N) for y in subterms_disp(i)] if not ns else []
        if len(ns) != 1 or ns[0].op != "int":
            ctx.unk("fresh", w, "an item is identified by %s" % clip(show(i)))
            continue
        k = ns[0].args[0]
        ctx.check(0 <= k < used.args[0] and k not in seen, "fresh", w, "identifier %s of an item is given out %s (%s are used up)" % (clip(show(i), 60), "twice" if k in seen else "again", show(used)))
        seen.append(k)


def subterms_disp(t):
    if t.op == "disp":
        yield t
        return
    for x in t.args:
        if is_t(x):
            yield from subterms_disp(x)


def numbering(ctx):
    f = inherent(ctx, "make_ident", G_)
    a = f and ctx.run(f, argv={0: c18.generator()}, facts=frozenset((c18.FEW,)))
    for o in a.outcomes if a else ():
        n = TM.sub(fld(o.mem["self"], G_, "n_ident"), c18.N_IDENT)
        w = ctx.where(f)
        if n.op != "int":
            ctx.bad("fresh", w, "the next identifier has number %s: numbers are given out again" % clip(show(fld(o.mem["self"], G_, "n_ident")))) if c18.N_IDENT in atoms(n) else ctx.unk("fresh", w, "numbers identifiers by %s" % clip(show(n)))
            continue
        ctx.check(n.args[0] >= 1, "fresh", w, "the next identifier has number +%d" % n.args[0])
        t = o.ret.args[1] if o.ret.op == "call" and o.ret.args[0] == "Ident::new" else None
        ds = list(subterms_disp(t)) if t is not None else []
        if len(ds) != 1:
            ctx.unk("fresh", w, "identifies by %s" % clip(show(o.ret)))
        else:
            k = TM.sub(ds[0].args[0], c18.N_IDENT)
            ctx.check(k.op == "int" and 0 <= k.args[0] < n.args[0], "fresh", w, "number %s is used, up to %s are given out" % (show(ds[0]), show(n)))


def pushes(ctx):
    f = inherent(ctx, "run_push", G_)
    w0 = ctx.where(f) if f else ""
    for nm in (NONE, Some(Var("out"))) if f else ():
        for debug in (0, 1):
            a = ctx.run(f, opaque=c18.STACKS, argv={0: c18.generator(debug), 1: c18.at_start("PushStmt", output_name=nm, expr=Var("expr"))}, facts=frozenset((c18.FEW,)))
            for o in a.outcomes if a is not None else ():
                if not is_ok_t(o.ret):
                    continue
                got = tree(o.ret.args[2])
                items, alt = pushed_items(a, o)
                fresh(ctx, w0, o, items)
                w = "%s: %s" % (ctx.where(f), "named" if nm is not NONE else "unnamed")
                e = [grp("(", val(Var("expr"))), word("."), word("to_pushop"), grp("(")]
                one_op(ctx, "push", w, o, got, e, [name_tokens(x, o.facts) for x in items], [], debug)
                if len(items) == 1:
                    bind(ctx, w, got, items[0], [grp("(", val(Var("expr")))])


def bind(ctx, w, got, it, e):
    rest = [x for s in split(short(got), ";") if not ops_in(s) for x in s + [word(";")]]
    agree(ctx, "binding", w, rest, toks("let", idt(fld(it, c18.IT_, "ident")), "=", *e, ".", word("to_data"), grp("("), ";"), "the item")


def functions(ctx):
    """depth_of pushes the depth, transmute pushes nothing"""
    f = inherent(ctx, "run_opcode", G_)
    m = f and c18.opcode_var(ctx, f)
    if not m:
        return
    text_ = mk("disp", fld(c18.at_start("OpcodeStmt"), "OpcodeStmt", "ident"))
    d = c18.path_t(ok_of(c18.op("find_item", c18.V0, Var("in0"))), 0)
    x = c18.path_t(ok_of(c18.op("find_item", c18.V0, Var("in0"))), 1)
    for name, args in (("depth_of", [c18.ident(0)]), ("depth_of_offset", [c18.ident(0), c18.expr(1)]), ("transmute", [c18.ident(0), c18.expr(1)])):
        for ns in (None, [Var("out")]):
            a = ctx.run(f, opaque=c18.STACKS, argv={0: c18.generator(), 1: c18.stmt(args, ns)}, facts=frozenset((Not(is_some(m)), c18.FEW, TM.teq(text_, Str(name)))))
            w = "%s: %s" % (ctx.where(f), name)
            for o in a.outcomes if a is not None else ():
                if not is_ok_t(o.ret):
                    continue
                got = tree(o.ret.args[2])
                if name == "transmute":
                    ctx.check(not ops_in(short(got)), "function", w, "emits an operation")
                    ctx.check(fld(o.mem.get("self", c18.generator()), G_, "stmt_idx") is Int(0), "lines", w, "a source line is quoted for no operation")
                    agree(ctx, "function", w, got, toks("let", idt(fld(x, c18.IT_, "ident")), "= <", val(Var("arg1")), "as Default > ::", word("default"), grp("("), ".", word("to_data"), grp("("), ";"), "the item's new type")
                    continue
                items, alt = pushed_items(a, o)
                fresh(ctx, w, o, items)
                off = val(Var("arg1")) if len(args) > 1 else word("0")
                e = grp("(", grp("(", val(d)), word("+"), grp("(", off))
                one_op(ctx, "function", w, o, got, [e, word("."), word("to_pushop"), grp("(")], [name_tokens(y, o.facts) for y in items], [], 1)
                if len(items) == 1:
                    bind(ctx, w, got, items[0], [e])


STMT = ("GenerateScript::run_push", "GenerateScript::run_opcode", "GenerateScript::run_if")


def dispatch(ctx):
    """each statement is compiled as what it is; loops and `if` are refused"""
    f = inherent(ctx, "run_stmt", G_)
    for v in ("Push", "Opcode", "ScriptIf", "ForLoop", "RustIf") if f else ():
        a = ctx.run(f, opaque=STMT, argv={0: c18.generator(), 1: stmt_(v, Var("statement"))}, facts=frozenset((c18.FEW,)))
        if a is None:
            continue
        w = "%s: %s" % (ctx.where(f), v)
        how = {"Push": "run_push", "Opcode": "run_opcode", "ScriptIf": "run_if"}.get(v)
        if how is None:
            ctx.check(not any(is_ok_t(o.ret) for o in a.outcomes), "dispatch", w, "compiled")
            continue
        want = call(G_ + "::" + how, c18.generator(), Var("statement"), a.params[2])
        for o in a.outcomes:
            r = o.ret
            if is_ok_t(r):
                r = subst(r.args[2], {ok_of(want): Var("its tokens")})
                agree(ctx, "dispatch", w, tree(r), [T("s", Var("its tokens"))], "the statement")
            elif r.op == "call":
                ctx.check(r is want, "dispatch", w, "compiled as %s" % clip(show(r)))


def spliced(ctx, t):
    """which statements a stream consists of: [(how, statement)], None if there is more to it"""
    r = []
    for p in t.args if t.op == "seq" else (t,):
        c = p.args[0] if p.op == "fld" else None
        if p.op == "item" or c is None or p.args[1] != RESULT or c.op != "call" or c.args[0] not in c18.RUN:
            return None
        r.append((c.args[0].split("_")[-1], canon(c.args[2])))
    return r


def branches(ctx):
    """a conditional: OP_IF, one branch, OP_ELSE, the other, OP_ENDIF"""
    f = inherent(ctx, "run_if", G_)
    for thens, elses, otherwise in ((1, 1, True), (2, 2, True), (3, 0, True), (0, 0, True), (2, 0, False), (0, 0, False)) if f else ():
        a = ctx.run(f, opaque=c18.RUN + (c18.HOLDS,), argv={0: c18.generator(), 1: c18.script_if(thens, elses, otherwise, c18.ident(0))}, facts=frozenset((c18.FEW,)))
        if a is None:
            continue
        w = "%s: %d statements in the then branch, %s" % (ctx.where(f), thens, "%d in the else branch" % elses if otherwise else "no else branch")
        S = c18.stmt([c18.ident(0)], None)
        want = [("opcode", S)] + [("stmt", Var("then%d" % i)) for i in range(thens)] + ([("opcode", Var("else"))] if otherwise else []) + [("stmt", Var("else%d" % i)) for i in range(elses)] + [("opcode", Var("endif"))]
        want = [(h, canon(x)) for h, x in want]
        ctx.check(any(is_ok_t(o.ret) for o in a.outcomes), "branch-order", w, "never compiled")
        for o in a.outcomes:
            if not is_ok_t(o.ret):
                continue
            in_order(ctx, "branch-order", w, o.ret.args[2], want)


def in_order(ctx, rule, w, t, want):
    got = spliced(ctx, t)
    sh = lambda xs: ", ".join("%s %s" % (h, clip(show(x), 60)) for h, x in xs)
    if got is None:
        return ctx.unk(rule, w, "emits %s" % clip(show(t)))
    ctx.check(got == want, rule, w, "emits %s" % sh(got))


def after_word(ns, w, d):
    """the first group of kind d after the word w, anywhere"""
    for i, n in enumerate(ns):
        if n == word(w):
            for x in ns[i + 1:]:
                if x.k == "g" and x.v == d:
                    return x
        if n.k == "g":
            r = after_word(n.sub, w, d)
            if r is not None:
                return r
    return None


def script(ctx):
    """the whole script: the statements in order; the inputs in order"""
    f = inherent(ctx, "run_script", G_)
    if not f:
        return
    for n_in, n_stmt, debug in ((0, 1, 0), (1, 1, 1), (2, 2, 0), (3, 3, 0)):
        one_script(ctx, f, n_stmt, debug, [], [None] * n_in)
    # (the statements do not depend on whether there are variants)
    for variants, ins in ((["A"], [None, None]), (["A", "B"], [["A"], ["B"], None]), (["A", "B"], [["B"], ["B", "A"], ["A"], None]), (["A", "B"], [["B"], ["C"]]), (["A", "B", "C"], [["A", "B", "C"], ["C", "A"]])):
        one_script(ctx, f, 0, 1, variants, ins)


def one_script(ctx, f, n_stmt, debug, variants, ins):
    n_in = len(ins)
    V = lambda v: Var("variant%s" % v)
    inp = lambda i: full("ScriptInput", ident=Var("in%d" % i), variants=NONE if ins[i] is None else Some(Seq(*[item(V(v)) for v in ins[i]])), ty=Var("type%d" % i),
                         token_stream=Var("source%d" % i), attrs=EMPTY)
    S = full("Script", inputs=Seq(*[item(inp(i)) for i in range(n_in)]), script_variants=Seq(*[item(full("ScriptVariant", name=V(v), predicate=Var("condition%s" % v))) for v in variants]),
             stmts=Seq(*[item(c18.tagged("s%d" % i)) for i in range(n_stmt)]), enable_debug=Int(debug), docs=full("ScriptDocs", input_struct=EMPTY, variants=mk("emptymap")), attrs=EMPTY)
    distinct = frozenset(Not(TM.teq(V(x), V(y))) for x in "ABC" for y in "ABC" if x != y)
    G = c18.generator()
    a = ctx.run(f, opaque=c18.RUN + c18.STACKS + ("format_stmts", "make_stmt_token_streams"), argv={0: G, 1: OK(S)}, facts=frozenset((c18.FEW,)) | distinct)
    if a is None:
        return
    w = "%s: %s, inputs %s, %d statements" % (ctx.where(f), "variants " + " ".join(variants) if variants else "no variants", ["all" if x is None else " ".join(x) for x in ins], n_stmt)
    known = all(x is None or set(x) <= set(variants) for x in ins)
    ctx.check(any(is_ok_t(o.ret) for o in a.outcomes) == known, "script", w, "is %scompiled" % ("not " if known else ""))
    name = Var("Script.input_struct")
    for o in a.outcomes if known else ():
        if not is_ok_t(o.ret):
            continue
        got = short(tree(at_root(o.ret.args[2])))
        # what the inputs are, and what they push
        decl = after_word(got, "enum" if variants else "struct", "Brace")
        ops = after_word(got, "ops", "Brace")
        body = next((g for g in groups(got) if word("return") in g.sub and word("let") in g.sub), None)
        if decl is None or ops is None or body is None:
            ctx.unk("script", w, "the parts of what is emitted are not recognised")
            continue
        one = lambda i: [val(Var("in%d" % i)), word(":"), val(Var("type%d" % i))]
        idn = lambda i: val(Var("in%d" % i))
        of = {v: [i for i in range(n_in) if ins[i] is None or v in ins[i]] for v in variants}
        if variants:
            agree(ctx, "inputs", w, list(decl.sub), commas([[idt(V(v)), grp("{", *commas([one(i) for i in of[v]]))] for v in variants]), "the inputs of each variant")
            m = after_word(ops.sub, "match", "Brace")
            if m is None:
                ctx.unk("inputs", w, "the operations of the inputs are not recognised")
                continue
            arms = [x for x in split(m.sub, ",")]
            agree(ctx, "inputs", w, [x for y in arms for x in y[:-1] + [grp("[")]], [x for v in variants for x in [idt(V(v)), grp("{", *commas([[idn(i)] for i in of[v]]))] + toks("=> vec !", grp("["))], "the variants' inputs")
            for v, arm in zip(variants, arms):
                input_ops(ctx, w + ": " + v, ops_in(arm), [[idn(i)] for i in of[v]], of[v], debug)
        else:
            agree(ctx, "inputs", w, list(decl.sub), commas([toks("pub") + one(i) for i in range(n_in)]), "the inputs")
            input_ops(ctx, w, ops_in(ops.sub), [toks("self .", idn(i)) for i in range(n_in)], range(n_in), debug)
        # the script: one vector, the inputs bound, the statements in order, the vector returned
        me = T("s", canon(fld(G, G_, "script_ident")))
        inputs = [x for i in range(n_in) for x in toks("let", idn(i), "= <", val(Var("type%d" % i)), "as Default > ::", word("default"), grp("("), ".", word("to_data"), grp("("), ";")]
        stmts = [T("s", "statement %d" % i) for i in range(n_stmt)]
        ss = {}
        for x in body.sub:
            if x.k == "s" and x.v.op == "fld" and x.v.args[0].op == "call" and x.v.args[0].args[0] == c18.RUN[1]:
                k = x.v.args[0].args[2]
                ss[x] = T("s", "statement %s" % k.args[0][1:] if k.op == "var" else show(k))
        gotb = [T("s", canon(at_root(x.v))) if x.k == "s" and x not in ss else ss.get(x, x) for x in body.sub]
        gotb = deep(gotb)
        use = toks("use BitcoinDataType ;")
        want = toks("let mut", me, "=", "new", grp("("), ";") + inputs + stmts + toks("return", "new", grp("(", me), ";")
        i = gotb.index(word("let"))
        agree(ctx, "order", w, gotb[i:], want, "the script")
        starts(ctx, w, o, G, variants, ins, n_stmt, name)


def deep(ns):
    return [T("g", n.v, tuple(deep(n.sub))) if n.k == "g" else T("s", canon(at_root(n.v))) if n.k == "s" and is_t(n.v) else n for n in ns]


def groups(ns):
    for n in ns:
        if n.k == "g":
            yield n
            yield from groups(n.sub)


def at_root(t):
    """statements do not change where operations are pushed to (decided for each)"""
    m = {}
    for x in atoms(t):
        if x.op == "fld" and x is fld(x.args[0], G_, "script_ident") and x.args[0].op == "call" and x.args[0].args[0] in [n + "#0" for n in c18.RUN]:
            y = x.args[0]
            while y.op == "call" and y.args[0] in [n + "#0" for n in c18.RUN]:
                y = y.args[1]
            m[x] = fld(y, G_, "script_ident")
    return subst(t, m) if m else t


def input_ops(ctx, w, ops, wants, idx, debug):
    if len(ops) != len(wants):
        return ctx.bad("inputs", w, "%d inputs are pushed by %d operations" % (len(wants), len(ops)))
    for op, x, i in zip(ops, wants, idx):
        agree(ctx, "inputs", w, op.get("op", []), x + toks(".", word("to_pushop"), grp("(")), "the operation of input %d" % i)
        if debug:
            agree(ctx, "inputs", w, op.get("pushed_names", []), toks("Some", grp("(", *toks("vec !", grp("[", *toks("Some", grp("(", text(mk("disp", Var("in%d" % i))), word("."), word("into"), grp("("))))))), "the name of input %d" % i)


def starts(ctx, w, o, G, variants, ins, n_stmt, name):
    """the stacks the statements start from: the inputs, in order"""
    Vs = fld(o.mem["self"], G_, "variant_states")
    while Vs.op == "fld" or Vs.op == "call" and Vs.args[0] in [n + "#0" for n in c18.RUN]:
        Vs = Vs.args[0] if Vs.op == "fld" else Vs.args[1]
    Vs = fld(Vs, G_, "variant_states") if Vs.op == "adt" and Vs.args[0] == aid(G_) else Vs
    xs = []
    while Vs.op == "call" and Vs.args[0] == "VariantStates::push#0":
        xs.insert(0, Vs.args[2])
        Vs = Vs.args[1]
    st = fld(Vs, "VariantStates", "states")
    got = {}
    while st.op == "minsert":
        got.setdefault(st.args[1], st.args[2])
        st = st.args[0]
    if st is not fld(gs0(G), "VariantStates", "states"):
        return ctx.unk("start", w, "the stacks start as %s" % clip(show(st)))
    names = {name: []} if not variants else {Var("variant%s" % v): [i for i, x in enumerate(ins) if x and v in x] for v in variants}
    it = lambda i: struct(c18.IT_, ident=Var("in%d" % i), name=c18.disp(Var("in%d" % i)), has_generated_name=Int(0), integer=NONE)
    ok = set(got) == set(names)
    want_common = [it(i) for i, x in enumerate(ins) if x is None]
    ok = ok and [canon(x) for x in xs] == [canon(x) for x in want_common]
    if ok:
        for v, own in names.items():
            stt = got[v]
            cond = Var("condition" + v.args[0][-1]) if variants else struct_of("VariantPredicate", EMPTY)
            ok = ok and c18.st(stt, "condition") is cond and c18.st(stt, "stack") is Seq(*[item(it(i)) for i in own]) and c18.st(stt, "alt_stack") is EMPTY
    ctx.check(ok, "start", w, "the stacks start as %s then %s" % (clip(str({show(k): show(v) for k, v in got.items()}), 300), clip(str([show(x) for x in xs]), 200)))


def struct_of(n, x):
    return mk("adt", mty(n), 0, x)


def gs0(G):
    return c18.gs_of(G)


def lines(ctx):
    """the source lines quoted with the operations: one per operation, in the order the operations are compiled"""
    f = fn(ctx, "make_stmt_token_streams")
    if f:
        word_ = mk("disp", Var("name"))
        o = full("OpcodeStmt", ident=Var("name"))
        ts = Var("source")
        t = lambda s: full("TaggedStmt", token_stream=ts, stmt=s)
        own = Seq(item(ts))
        rec = lambda x: call("make_stmt_token_streams", x)
        for what, s, fs, want in (("a push", stmt_("Push", Var("push")), [], own), ("an opcode", stmt_("Opcode", o), [Not(TM.teq(word_, Str("transmute")))], own),
                                  ("transmute", stmt_("Opcode", o), [TM.teq(word_, Str("transmute"))], EMPTY)):
            lined(ctx, f, what, t(s), fs, want)
        for e in (0, 1):
            i = full("ScriptIfStmt", if_token_stream=Var("if"), else_token_stream=Some(Var("else")) if e else NONE, endif_token_stream=Var("endif"), then_stmts=Var("thens"), else_stmts=Var("elses"))
            lined(ctx, f, "a conditional" + (" with OP_ELSE" if e else ""), t(stmt_("ScriptIf", i)), [],
                  Seq(item(Var("if")), rec(Var("thens")), *([item(Var("else"))] if e else []), rec(Var("elses")), item(Var("endif"))))
        a = ctx.run(f, argv={0: Seq(*[item(full("TaggedStmt", token_stream=Var("source%d" % i), stmt=stmt_("Push", Var("p")))) for i in range(3)])})
        for o in a.outcomes if a else ():
            ctx.check(canon(o.ret) is canon(Seq(*[item(Var("source%d" % i)) for i in range(3)])), "lines", ctx.where(f), "three statements are quoted as %s" % clip(show(o.ret)))
    f = inherent(ctx, "next_formatted_stmts", G_)
    if f:
        G = c18.at_start(G_, stmt_idx=Var("line"), formatted_lines=Seq(item(Var("lines0")), item(Var("lines1"))), max_line_widths=Seq(item(Var("width0")), item(Var("width1"))))
        TM.TYP.setdefault(Var("line"), "usize")
        a = ctx.run(f, argv={0: G}, facts=frozenset((le(Var("line"), Int(1 << 32)), lt(Var("line"), Len(Var("lines0"))), lt(Var("line"), Len(Var("lines1"))))))
        for o in a.outcomes if a else ():
            w = ctx.where(f)
            ctx.check(fld(o.mem["self"], G_, "stmt_idx") is TM.add(Var("line"), Int(1)), "lines", w, "the next line is %s" % clip(show(fld(o.mem["self"], G_, "stmt_idx"))))
            for i, x in enumerate(o.ret.args if o.ret.op == "seq" and len(o.ret.args) == 2 else ()):
                agree(ctx, "lines", w, tree(x.args[0]) if x.op == "item" else [], [grp("(", val(Var("width%d" % i)), word(","), text(Idx(Var("lines%d" % i), Var("line"))), word("."), word("into"), grp("("))], "the line quoted")
            if o.ret.op != "seq" or len(o.ret.args) != 2:
                ctx.unk("lines", w, "quotes %s" % clip(show(o.ret)))


def lined(ctx, f, what, s, facts, want):
    a = ctx.run(f, opaque=("make_stmt_token_streams",), argv={0: Seq(item(s))}, facts=frozenset(facts))
    if a is not None:
        ctx.first_match("lines", SimpleNamespace(outcomes=a.outcomes, opaque={"make_stmt_token_streams"}, fid=f, I=a.I), [Case([], want, "its lines")], where="%s: %s" % (ctx.where(f), what))
