"""C21: a transaction survives its JSON form."""
from spec import *
from common import *
import terms as TM
from analyse import param_names

TECHNIQUE = "abstract interpretation of MIR: the reader's summary applied to the result of the writer's summary, and an append-only analysis of the shared tables"
EXPLANATION = ("For every kind of operation, byte array and transaction the summary of the function that builds the JSON value is fed, outcome by outcome, to the summary of the "
               "function that reads it; the result must be the original, and no error may be possible.  References into the shared tables are resolved by lemmas that are "
               "themselves checked: the tables are only ever appended to, an index handed out denotes the entry just stored or found, and the reader finds there what was "
               "stored.  The derived serde implementations are compared field name by field name, writer against reader.")
ASSUMPTIONS = ["rustc's MIR is the program that is compiled", "the models of std used by the analyser (sa/models.py)",
               "serde_json reads back the values it wrote; serde's untagged enums choose a tuple variant by its length; base64::decode inverts base64::encode",
               "hash maps and bimaps of the crates used return what was inserted under an equal key",
               "integers lie in the range of their type (C11) and a hash holds as many bytes as its type says"]
JD = "JsonData"
MOD = "bitcoin_cash::serialize_json::"
STR = {"strings", "string_indices"}
DAT = {"data_b64", "data_indices"}
INSERTS = ("JsonData::insert_string", "JsonData::insert_string_arc")
CODEC = ("base64::decode", "base64::encode", "BiHashMap::get_by_right", "BiHashMap::get_by_left")
TABLES = ("strings", "data_b64", "byte_arrays")


def frames():
    j = aid(JD)
    s = {f: {0: (j, STR)} for f in INSERTS}
    s["JsonData::ensure_data"] = {0: (j, DAT)}
    s["JsonData::insert_byte_array"] = {0: (j, STR | DAT | {"byte_arrays"})}
    s["JsonData::get_byte_array"] = {0: (j, {"data_indices"})}
    s["JsonData::get_string"] = {}
    s["JsonTaggedOp::from_tagged_op"] = {0: (j, STR | DAT | {"byte_arrays"})}
    s["JsonTaggedOp::to_tagged_op"] = {1: (j, {"data_indices"})}
    s["JsonTx::make_ops"] = {0: (aid("JsonTx"), {"data"})}
    return s


def back(*names):
    """reading at an index that one of the functions returned gives what it was given"""
    def f(vals):
        x = vals[-1]
        if x.op == "call" and x.args[0] in names:
            return Adt(TM.RESULT, 0, x.args[-1])
    return f


def reread(vals):
    x = vals[0]
    if x.op == "call" and x.args[0] == "JsonTaggedOp::from_tagged_op":
        return Adt(TM.RESULT, 0, x.args[-1])


LEMMAS = {"JsonData::get_string": back(*INSERTS), "JsonData::get_byte_array": back("JsonData::insert_byte_array"), "JsonTaggedOp::to_tagged_op": reread}


def pre(I, st, vals):
    I.frame = frames()
    I.rewrite = LEMMAS
    return st


def run(ctx, f, opaque, **kw):
    return ctx.run(f, opaque=opaque, pre=pre, transparent=False, **kw)


def check(ctx):
    fns = {}
    for ty, names in (("JsonTx", ("from_tx", "make_tx", "make_ops")), ("JsonTaggedOp", ("from_tagged_op", "to_tagged_op")), ("JsonByteArray", ("from_tuple",)),
                      (JD, ("insert_string", "insert_string_arc", "get_string", "ensure_data", "insert_byte_array", "get_byte_array"))):
        for n in names:
            f = inherent(ctx, n, ty)
            if f is None:
                return
            fns[n] = f
    tables(ctx, fns)
    only_extended(ctx, fns)
    arrays(ctx, fns)
    inconsistent(ctx, fns)
    operations(ctx, fns)
    transactions(ctx, fns)
    entry(ctx, fns)
    tuples(ctx, fns)
    written_names(ctx)


# ---- the tables

def same(ctx, rule, w, o, pname, fields, own):
    """the fields a function has no business with are as they were"""
    t = o.mem.get(pname)
    for n in fields:
        v, x = fld(t, own, n), fld(Var(pname), own, n)
        if v is x:
            ctx.ok(rule, w, n)
        else:
            z = fuzzy(v, {x}, PURE)
            (ctx.unk if z is not None else ctx.bad)(rule, w, "changes %s to %s" % (n, clip(show(v))))


def tables(ctx, fns):
    both = {n for n in STR | DAT | {"byte_arrays"}}
    for name, own, table, index, enc in (("insert_string", STR, "strings", "string_indices", None), ("insert_string_arc", STR, "strings", "string_indices", None),
                                         ("ensure_data", DAT, "data_b64", "data_indices", "base64::encode")):
        a = ctx.run(fns[name], transparent=False)
        if a is None:
            continue
        w = ctx.where(fns[name])
        self_, x = a.params
        sn = self_.args[0]
        for o in a.outcomes:
            same(ctx, "unrelated-table", w, o, sn, sorted(both - own), JD)
            T, T2 = fld(self_, JD, table), fld(o.mem[sn], JD, table)
            X, X2 = fld(self_, JD, index), fld(o.mem[sn], JD, index)
            entry_ = call(enc, x) if enc else x
            found = TM.mk("mget", X, x)
            if T2 is T:
                want = some_of(found)
                if o.ret is want:
                    ctx.ok("index-denotes-entry", w, "the index found")
                elif fuzzy(o.ret, {found, TM.Len(T)}, PURE) is None:
                    ctx.bad("index-denotes-entry", w, "nothing is stored, but index %s is returned" % clip(show(o.ret)))
                else:
                    ctx.unk("index-denotes-entry", w, "returns %s" % clip(show(o.ret)))
            elif T2 is Seq(T, item(entry_)):
                if o.ret is TM.Len(T):
                    ctx.ok("index-denotes-entry", w, "the index of the entry appended")
                elif fuzzy(o.ret, {found, TM.Len(T)}, PURE) is None:
                    ctx.bad("index-denotes-entry", w, "an entry is appended at %s, but index %s is returned" % (show(TM.Len(T)), clip(show(o.ret))))
                else:
                    ctx.unk("index-denotes-entry", w, "returns %s" % clip(show(o.ret)))
            elif fuzzy(T2, {T, call(enc, x) if enc else x, x}, PURE | set(CODEC)) is None:
                ctx.bad("append-only", w, "makes %s of %s; only an appended %s is specified" % (clip(show(T2)), show(T), show(entry_)))
                continue
            else:
                ctx.unk("append-only", w, "makes %s of %s" % (clip(show(T2)), show(T)))
                continue
            ctx.ok("append-only", w)
            # the index knows only entries that are there
            y = X2
            while y.op == "minsert":
                m, k, v = y.args[:3]
                if k is x and (v is TM.Len(T) and T2 is not T or v is some_of(found) and T2 is T):
                    ctx.ok("index-faithful", w, "%s: %s" % (show(k), show(v)))
                elif fuzzy(k, {x}, PURE) is None and fuzzy(v, {TM.Len(T), found}, PURE) is None:
                    ctx.bad("index-faithful", w, "remembers %s for %s" % (clip(show(v)), clip(show(k))))
                else:
                    ctx.unk("index-faithful", w, "remembers %s for %s" % (clip(show(v)), clip(show(k))))
                y = m
            if y is X or y.op == "emptymap":
                ctx.ok("index-faithful", w)
            else:
                ctx.unk("index-faithful", w, "the index becomes %s" % clip(show(X2)))
    # reading a string
    a = ctx.run(fns["get_string"], transparent=False)
    if a is not None:
        self_, i = a.params
        T = fld(self_, JD, "strings")
        ctx.expect("get-string", a, [Case([TM.lt(i, TM.Len(T))], Adt(TM.RESULT, 0, TM.Idx(T, i)), "an index in range"), Case([TM.le(TM.Len(T), i)], ERR, "an index out of range")])
    # what the reader remembers about the data it decodes
    a = run(ctx, fns["get_byte_array"], tuple(frames()))
    if a is not None:
        w = ctx.where(a.fid)
        sn = a.params[0].args[0]
        D = fld(a.params[0], JD, "data_b64")
        for o in a.outcomes:
            y = fld(o.mem[sn], JD, "data_indices")
            while y.op == "minsert":
                m, k, v = y.args[:3]
                c = k.args[0] if k.op == "fld" else k
                if c.op == "call" and c.args[0] == "base64::decode" and c.args[1].op == "idx" and c.args[1].args[1] is v:
                    ctx.ok("index-faithful", w, "%s: %s" % (clip(show(k), 80), clip(show(v), 80)))
                elif c.op == "call" and c.args[0] == "base64::decode" and c.args[1].op == "idx":
                    ctx.bad("index-faithful", w, "remembers the data at %s under %s" % (clip(show(c.args[1].args[1])), clip(show(v))))
                else:
                    ctx.unk("index-faithful", w, "remembers %s for %s" % (clip(show(v)), clip(show(k))))
                y = m


def whole(x, ty):
    """a value as the list of its fields, so that each is followed on its own"""
    A = aid(ty)
    return mk("adt", A, 0, *[TM.Fld(x, A, 0, i) for i in range(len(ADT_FIELDS(ty)))])


def ADT_FIELDS(ty):
    return [f["name"] for f in load_facts("main").adts[aid(ty)]["variants"][0]["fields"]]


def inconsistent(ctx, fns):
    """reading JSON that no writer made: errors, not panics, and an end"""
    n = 0
    for name, k, ty in (("get_byte_array", 0, JD), ("get_string", None, None), ("to_tagged_op", 1, JD), ("make_tx", 0, "JsonTx"), ("from_tuple", None, None)):
        f = fns[name]
        argv = None
        if k is not None:
            nm = param_names(ctx.F.fns[f]["body"]).get(k + 1)
            x = Var(nm)
            TM.VAR_TY.setdefault(x, ("adt", aid(ty), ()))
            v = whole(x, ty)
            if ty == "JsonTx":
                i = ADT_FIELDS(ty).index("data")
                v = mk("adt", *[whole(p, JD) if n == i + 2 else p for n, p in enumerate(v.args)])
            argv = {k: v}
        calls = []

        def watching(I, st, vals):
            I.watch = {"JsonData::get_byte_array": lambda st, v: calls.append((v[1], entails(st.facts, TM.lt(v[1], vals[1]))))}
            return pre(I, st, vals)
        a = ctx.run(f, opaque=tuple(x for x in frames() if x != "JsonData::" + name or name == "get_byte_array"), argv=argv, transparent=False,
                    pre=watching if name == "get_byte_array" else pre)
        if a is None:
            continue
        ctx.no_panics("no-panic", a)
        n += 1
        w = ctx.where(f)
        me = a.params[1] if len(a.params) > 1 else None
        for i, e in calls:
            if e is True:
                ctx.ok("recursion-ends", w, clip(show(i)))
            else:
                (ctx.bad if fuzzy(i, {x for x in atoms(i) if x.op in ("first", "idx", "k")}, PURE) is None else ctx.unk)(
                    "recursion-ends", w, "reads entry %s for entry %s without knowing that it comes before it: an entry that refers to itself is read without end" % (clip(show(i)), show(me)))
    ctx.floor("functions that read JSON values", n, 5)


# ---- who writes to the tables

DESTROY = ("clear", "truncate", "pop", "remove", "swap_remove", "drain", "retain", "sort", "sort_by", "sort_by_key", "sort_unstable", "dedup", "reverse", "insert", "swap", "split_off", "take", "replace")


def accesses(ctx, f, ty=JD):
    """(table, how, where) for every place in f through which a table, or all of them, may be written"""
    b = ctx.F.fns[f]["body"]
    j = aid(ty)
    fields = [x["name"] for x in ctx.F.adts[j]["variants"][0]["fields"]]

    def walk(pl):
        t = b["locals"][pl[0]]
        for n, p in enumerate(pl[1:]):
            if t[0] == "adt" and t[1] == j and p[0] == "f":
                return fields[p[1]], t
            if p[0] == "*":
                t = t[2] if t[0] == "ref" else (t[1] if t[0] == "ptr" and not isinstance(t[1], bool) else ("?",))
                if isinstance(t, tuple) and t and t[0] == "lt":
                    t = ("?",)
            elif p[0] == "f":
                t = p[2]
        return None, t
    out = []
    for blk in b["blocks"]:
        borrowed = {}
        for s in blk["s"]:
            if s[0] != "=":
                continue
            n, t = walk(s[1])
            if n:
                out.append((n, "assigned", s[-1]))
            elif len(s[1]) > 1 and t[0] == "adt" and t[1] == j:
                out.append(("all tables", "assigned", s[-1]))
            r = s[2]
            if r[0] == "ref" and r[1]:
                n, t = walk(r[2])
                if n:
                    borrowed[s[1][0]] = (n, s[-1])
        t = blk["t"]
        if t[0] == "call":
            d = t[1].get("def") or ""
            last = d.rsplit("::", 1)[-1]
            for x in t[2]:
                m = x.get("m") or x.get("c") if isinstance(x, dict) else None
                if m and m[0] in borrowed:
                    n, where = borrowed.pop(m[0])
                    out.append((n, last, where))
            n, ty = walk(t[3]) if t[3] else (None, ("?",))
            if n:
                out.append((n, "assigned", None))
            elif t[3] and len(t[3]) > 1 and ty[0] == "adt" and ty[1] == j:
                out.append(("all tables", "assigned", None))
            if d.startswith("core::mem::") and last in ("swap", "replace", "take") and any(isinstance(g, tuple) and g[:2] == ("adt", j) for g in t[1].get("args") or ()):
                out.append(("all tables", last, None))
        for n, where in borrowed.values():
            out.append((n, "borrowed", where))
    return out


def module_calls(ctx):
    """caller -> callees among the functions of the module (closures belong to the function they are in)"""
    owner = lambda f: f.split("::{closure")[0]
    g = {}
    for f, d in ctx.F.fns.items():
        if not f.startswith(MOD) or not d.get("body"):
            continue
        c = g.setdefault(owner(f), set())
        for blk in d["body"]["blocks"]:
            t = blk["t"]
            if t[0] == "call":
                for k in ("def", "res"):
                    x = t[1].get(k)
                    if x and owner(x).startswith(MOD):
                        c.add(owner(x))
    return g


def reached(g, f):
    seen, todo = {f}, [f]
    while todo:
        for y in g.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def only_extended(ctx, fns):
    g = module_calls(ctx)
    proven = {fns["insert_string"]: {"strings", "string_indices"}, fns["insert_string_arc"]: {"strings", "string_indices"}, fns["ensure_data"]: {"data_b64", "data_indices"},
              fns["insert_byte_array"]: {"byte_arrays"}}
    for who, root in (("writer", fns["from_tx"]), ("reader", fns["make_tx"])):
        seen = reached(g, root)
        may = dict(proven) if who == "writer" else {fns["get_byte_array"]: {"data_indices"}}
        base = set(may)
        # helpers called by one of those only are part of its summary
        changed = True
        while changed:
            changed = False
            for y in seen:
                cs = [x for x in seen if y in g.get(x, ())]
                if y not in base and cs and all(x in may for x in cs):
                    m = set.union(*[may[x] for x in cs])
                    if may.get(y) != m:
                        may[y] = m
                        changed = True
        n = 0
        for f in sorted(ctx.F.fns):
            o = f.split("::{closure")[0]
            if o not in seen or not ctx.F.fns[f].get("body"):
                continue
            w = ctx.where(f)
            n += 1
            bad = False
            for table, how, where in accesses(ctx, f):
                if table in may.get(o, ()):
                    continue
                if table.endswith("_indices") and how not in ("assigned", "insert"):
                    continue         # forgetting an index costs space only
                bad = True
                at = where or w
                if how in DESTROY or how == "assigned" or table == "all tables":
                    ctx.bad("tables-extended-only", at, "the %s changes %s (%s): indices handed out before no longer denote their entries" % (who, table, how))
                else:
                    ctx.unk("tables-extended-only", at, "the %s may change %s (%s)" % (who, table, how))
            if not bad:
                ctx.ok("tables-extended-only", w)
        ctx.floor("functions of the " + who, n, 5)


    for f in sorted(ctx.F.fns):
        if f.split("::{closure")[0] == fns["make_ops"] and ctx.F.fns[f].get("body"):
            xs = [x for x in accesses(ctx, f, "JsonTx") if x[0] != "data"]
            for n, how, where in xs:
                ctx.unk("tables-extended-only", where or ctx.where(f), "changes %s of the JSON transaction (%s)" % (n, how))
            if not xs:
                ctx.ok("tables-extended-only", ctx.where(f), "only the tables")


# ---- writer, then reader

def resolve(t):
    """what is found under an index that ensure_data returned"""
    def f(x):
        if x.op == "fld" and x.args[0].op == "call":
            c = x.args[0]
            i = None
            if c.args[0] == "BiHashMap::get_by_right" and x.args[1] == TM.OPTION:
                i = c.args[-1]
            if c.args[0] == "base64::decode" and x.args[1] == TM.RESULT and x.args[2] == 0 and c.args[1].op == "idx":
                i = c.args[1].args[1]
            if i is not None and i.op == "call" and i.args[0] == "JsonData::ensure_data":
                return i.args[-1]
        return x
    return rebuild(t, f)


def rebuild(t, f, memo=None):
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]

    def go(a):
        if is_t(a):
            return rebuild(a, f, memo)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a
    args = tuple(go(a) for a in t.args)
    r = t
    if any(x is not y for x, y in zip(args, t.args)):
        r = {"adt": Adt, "fld": TM.Fld, "tup": lambda *a: TM.Tup(*a), "tfld": TM.TFld}.get(t.op, lambda *a: mk(t.op, *a))(*args)
    memo[t] = f(r)
    return memo[t]


def is_it(p, x, facts):
    """is p the value x, given the facts?"""
    if p is x:
        return True
    if p.op == "adt" and p.args[0].rsplit("::", 1)[-1] == "PhantomData":
        return True
    return p.op == "adt" and len(p.args) == 2 and entails(facts, TM.isv(x, p.args[0], p.args[1])) is True


def eta(t, facts):
    """a value put together again from its own parts is that value"""
    if t.op == "adt":
        ty, v = t.args[:2]
        ps = [eta(x, facts) if is_t(x) else x for x in t.args[2:]]
        for p in ps:
            if is_t(p) and p.op == "fld" and p.args[1:3] == (ty, v) and all(is_t(q) and is_it(q, TM.Fld(p.args[0], ty, v, i), facts) for i, q in enumerate(ps)):
                return p.args[0]
        return Adt(ty, v, *ps)
    if t.op == "tup":
        ps = [eta(x, facts) for x in t.args]
        if ps and ps[0].op == "tfld" and all(is_it(p, TM.TFld(ps[0].args[0], i), facts) for i, p in enumerate(ps)):
            return ps[0].args[0]
        return TM.Tup(*ps)
    if t.op == "seq":
        return Seq(*[item(eta(p.args[0], facts)) if p.op == "item" else eta(p, facts) for p in t.args])
    if t.op == "rep":
        d, n, cases = t.args
        k = mk("k", d)
        cs, cand = [], set()
        for gs, ps in cases:
            fs = facts | set(gs)
            ps = tuple(item(eta(p.args[0], fs)) if p.op == "item" else eta(p, fs) for p in ps)
            cs.append((gs, ps))
            for y in [x for g in gs for x in atoms(g)] + [x for p in ps for x in atoms(p)]:
                if y.op == "idx" and y.args[1] is k and n is TM.Len(y.args[0]):
                    cand.add(y)
        for y in sorted(cand, key=lambda z: z.id):
            if all(len(ps) == 1 and ps[0].op == "item" and is_it(ps[0].args[0], y, facts | set(gs)) for gs, ps in cs):
                return y.args[0]
        return Rep(d, n, tuple(cs))
    return t


def absurd(f):
    """does the fact contradict a lemma?"""
    if f.op == "le0":
        l = f.args[0]
        ats = [x for x in atoms(l)]
        for i in ats:
            if i.op == "call" and i.args[0] in INSERTS + ("JsonData::ensure_data", "JsonData::insert_byte_array"):
                for n in ats:
                    if n.op == "len" and TM.sub(n, i) is l:
                        return True
    if f.op == "not":
        g = f.args[0]
        if g.op == "isv" and g.args[1:] == (TM.RESULT, 0) and g.args[0].op == "call" and g.args[0].args[0] == "base64::decode":
            x = g.args[0].args[1]
            return x.op == "idx" and x.args[1].op == "call" and x.args[1].args[0] == "JsonData::ensure_data"
        if g.op == "eq0":
            return any(x.op == "len" and g.args[0] in (TM.sub(x, Int(32)), TM.sub(Int(32), x)) and of_hash(x.args[0]) for x in atoms(g))
    return False


def of_hash(t):
    while t.op == "fld":
        if t.args[1] == aid("TxOutpoint"):
            return True
        t = t.args[0]
    return False


def round_trip(ctx, rule, writer, reader, opaque, original, name, facts=frozenset(), wval=lambda o: {0: o.ret}, floor=1):
    a = run(ctx, writer, opaque, facts=facts)
    if a is None:
        return
    w = ctx.where(reader)
    x = original(a)
    n = 0
    for o in a.outcomes:
        b = run(ctx, reader, opaque, argv=wval(o), facts=frozenset(o.facts))
        if b is None:
            continue
        outs = []
        for p in b.outcomes:
            if any(absurd(f) for f in p.facts):
                continue
            fs = frozenset(f for f in p.facts if not any(y.op in ("call", "mu", "first") or y.op in FUZZY for y in atoms(f)))
            outs.append(Out(eta(resolve(p.ret), p.facts), fs))
        n += len(outs)
        guard = clip("; ".join(sorted(show(f) for f in o.facts)), 120)
        if not outs:
            ctx.bad(rule, w, "%s (%s) cannot be read back" % (name, guard))
            continue
        ctx.compare(rule, w, outs, [Case([], Adt(TM.RESULT, 0, x), "%s read back (%s)" % (name, guard))], calls=CODEC + tuple(frames()))
    ctx.floor("ways to write and read back " + name, n, floor)


def arrays(ctx, fns):
    opq = tuple(x for x in frames() if x.startswith(JD))
    W = fns["insert_byte_array"]
    a = run(ctx, W, opq)
    if a is None:
        return
    w = ctx.where(W)
    B = "byte_arrays"
    for o in a.outcomes:
        T = fld(o.mem[a.params[0].args[0]], JD, B)
        ps = T.args if T.op == "seq" else (T,)
        if len(ps) == 2 and ps[1].op == "item" and o.ret is TM.Len(ps[0]):
            ctx.ok("array-appended", w, clip(show(ps[1].args[0]), 120))
        elif len(ps) == 2 and ps[1].op == "item" and ps[0] is fld(a.params[0], JD, B) and o.ret.op in ("int", "len", "lin"):
            ctx.bad("array-appended", w, "an array is appended at %s, but index %s is returned" % (show(TM.Len(ps[0])), clip(show(o.ret))))
        else:
            ctx.unk("array-appended", w, "makes %s of the arrays and returns %s" % (clip(show(T)), clip(show(o.ret))))
        preimages(ctx, w, a, o, ps)
    round_trip(ctx, "array-round-trip", W, fns["get_byte_array"], opq, lambda a: a.params[1], "a byte array",
               wval=lambda o: {0: o.mem[a.params[0].args[0]], 1: o.ret}, floor=8)


def preimages(ctx, w, a, o, ps):
    """one reference per preimage"""
    src = some_of(fld(a.params[1], "ByteArray", "preimage"))
    new = ps[-1].args[0] if ps and ps[-1].op == "item" else None
    got = fld(new, "JsonByteArray", "preimage_indices") if new is not None else None
    if got is None or got.op != "adt" or got.args[1] != 1:
        return
    k, n = TM.Len(got.args[2]), TM.Len(src)
    if k is n:
        ctx.ok("preimage-count", w, "as many references as preimages")
    elif not any(x.op in ("mu", "first", "write", "ev", "lv", "uninit", "unknown") or x.op == "call" for x in atoms(k)):
        ctx.bad("preimage-count", w, "%s references for %s preimages" % (clip(show(k)), clip(show(n))))
    else:
        ctx.unk("preimage-count", w, "%s references for %s preimages" % (clip(show(k)), clip(show(n))))


def operations(ctx, fns):
    opq = tuple(x for x in frames() if x.startswith(JD))
    op = fld(Var("tagged_op"), "TaggedOp", "op")
    O = aid("Op")
    v = variant(O, "PushInteger")
    n = fld(TM.Fld(op, O, v, 0), "Integer", fields(ctx, "Integer")[0])
    fs = lambda ps: frozenset([TM.le(Int(-2147483647), fld(TM.Fld(fld(ps[1], "TaggedOp", "op"), O, v, 0), "Integer", fields(ctx, "Integer")[0]))])
    round_trip(ctx, "operation-round-trip", fns["from_tagged_op"], fns["to_tagged_op"], opq, lambda a: a.params[1], "an operation", facts=fs, floor=20)


def fields(ctx, ty):
    return [f["name"] for f in ctx.F.adts[aid(ty)]["variants"][0]["fields"]]


def transactions(ctx, fns):
    opq = tuple(frames())
    W = fns["from_tx"]
    a = ctx.run(W, opaque=tuple(x for x in opq if "make_ops" not in x), pre=pre, transparent=False)
    if a is None:
        return
    w, r = ctx.where(W), ctx.where(fns["make_tx"])
    tx = a.params[0]
    for o in a.outcomes:
        b = run(ctx, fns["make_tx"], opq, argv={0: o.ret}, facts=frozenset(o.facts))
        if b is None:
            continue
        outs = []
        for p in b.outcomes:
            if any(absurd(f) for f in p.facts):
                continue
            fs = frozenset(f for f in p.facts if not any(y.op in ("call", "mu", "first") or y.op in FUZZY for y in atoms(f)))
            outs.append(Out(eta(p.ret, p.facts), fs))
        if not outs:
            ctx.bad("transaction-round-trip", r, "a transaction cannot be read back")
        ctx.compare("transaction-round-trip", r, outs, [Case([], Adt(TM.RESULT, 0, tx), "a transaction read back")], calls=CODEC + opq)


def entry(ctx, fns):
    """the functions users call"""
    a = ctx.run(MOD + "tx_to_json", opaque=("JsonTx::from_tx",)) if MOD + "tx_to_json" in ctx.F.fns else None
    if a is None:
        ctx.unk("entry", MOD, "no tx_to_json")
    else:
        want = call("JsonTx::from_tx", a.params[0])
        for o in a.outcomes:
            r = o.ret
            if r.op == "call" and r.args[0] in ("serde_json::to_string", "serde_json::to_string_pretty"):
                ctx.check(r.args[1] is want, "entry", ctx.where(a.fid), "writes %s" % clip(show(r.args[1])))
            else:
                ctx.unk("entry", ctx.where(a.fid), "yields %s" % clip(show(r)))
    a = ctx.run(MOD + "json_to_tx", opaque=("JsonTx::make_tx",)) if MOD + "json_to_tx" in ctx.F.fns else None
    if a is None:
        ctx.unk("entry", MOD, "no json_to_tx")
    else:
        p = call("serde_json::from_str", a.params[0])
        q = call("JsonTx::make_tx", ok_of(p))
        ctx.expect("entry", a, [Case([Not(is_ok(p))], ERR, "not JSON"), Case([is_ok(p), Not(is_ok(q))], ERR, "an inconsistent value"), Case([is_ok(p), is_ok(q)], lambda o, fs: q if o.ret is q else Adt(TM.RESULT, 0, ok_of(q)), "a transaction")],
                   calls=("serde_json::from_str", "JsonTx::make_tx"))


# ---- serde

def tuples(ctx, fns):
    """the short forms of a byte array"""
    J, T = aid("JsonByteArray"), aid("JsonByteArrayTuple")
    arity = {len(v["fields"]): i for i, v in enumerate(ctx.F.adts[T]["variants"])}
    if len(arity) != len(ctx.F.adts[T]["variants"]):
        ctx.bad("short-form", ctx.where(fns["from_tuple"]), "two forms of a byte array have the same number of parts")
        return
    s = methods(ctx, "serialize", trait="Serialize", selfty="JsonByteArray")
    if not s:
        ctx.unk("short-form", MOD, "no Serialize for JsonByteArray")
        return
    s = only(s)
    a = ctx.run(s)
    if a is None:
        return
    w = ctx.where(s)
    x = a.params[0]
    n = 0
    for o in a.outcomes:
        r = o.ret
        if not (r.op == "call" and r.args[0] == "Serialize::serialize"):
            ctx.unk("short-form", w, "yields %s" % clip(show(r)))
            continue
        v = r.args[1]
        parts = v.args if v.op == "tup" else (v,)
        if len(parts) not in arity:
            ctx.bad("short-form", w, "writes %d parts, which no form has" % len(parts))
            continue
        vi = arity[len(parts)]
        # optional parts may be written bare
        parts = [TM.Some(p) if ty_opt(ctx.F.adts[T]["variants"][vi]["fields"][i]) and bare(p, x) else p for i, p in enumerate(parts)]
        b = ctx.run(fns["from_tuple"], argv={0: mk("adt", T, vi, *parts)}, facts=frozenset(o.facts))
        if b is None:
            continue
        n += 1
        outs = [Out(fill(p.ret, x, p.facts), p.facts) for p in b.outcomes]
        ctx.compare("short-form", w, outs, [Case([], x, "%d part(s) read back" % len(parts))])
    ctx.floor("forms of a byte array", n, 4)
    # the forms are told apart by their length
    d = methods(ctx, "deserialize", trait="Deserialize", selfty="JsonByteArray")
    for f in list_of(d):
        a = ctx.run(f, opaque=("JsonByteArray::from_tuple",))
        if a is None:
            continue
        for o in a.outcomes:
            r = o.ret
            if r.op == "adt" and r.args[:2] == (TM.RESULT, 0):
                c = r.args[2]
                ctx.check(c.op == "call" and c.args[0] == "JsonByteArray::from_tuple", "short-form", ctx.where(f), "reads %s" % clip(show(c)))


def list_of(ms):
    return [f for f in (ms.values() if isinstance(ms, dict) else ms)]


def only(ms):
    return list_of(ms)[0]


def ty_opt(f):
    t = f["ty"]
    return t[0] == "adt" and t[1] == TM.OPTION


def bare(p, x):
    return p.op == "fld" and p.args[1] == TM.OPTION


def fill(t, x, facts):
    """fields of a byte array's entry, constants replaced by the field known to be equal"""
    if t.op != "adt":
        return t
    ps = []
    for i, p in enumerate(t.args[2:]):
        f = TM.Fld(x, t.args[0], t.args[1], i)
        if p.op == "adt":
            if not p.args[2:] and entails(facts, TM.isv(f, p.args[0], p.args[1])) is True:
                p = f
            elif len(p.args) == 3 and p.args[2] is TM.Fld(f, p.args[0], p.args[1], 0):
                p = f
        ps.append(p)
    return Adt(t.args[0], t.args[1], *ps)


SERDE = ("JsonData", "JsonOp", "JsonTaggedOp", "JsonInput", "JsonOutput", "JsonTx", "SigHashFlags", "Function")
UNSAVED = {("JsonData", "string_indices"), ("JsonData", "data_indices")}


def written_names(ctx):
    """derived implementations: what is written under a name is read under it"""
    for ty in SERDE:
        A = aid(ty)
        d = ctx.F.adts[A]
        s = methods(ctx, "serialize", trait="Serialize", selfty=ty)
        ds = methods(ctx, "deserialize", trait="Deserialize", selfty=ty)
        s, ds = list_of(s), list_of(ds)
        if len(s) != 1 or len(ds) != 1:
            ctx.unk("names", MOD, "%s: %d writers, %d readers" % (ty, len(s), len(ds)))
            continue
        w = ctx.where(s[0])
        read = readers(ctx, ds[0])
        wr = writers(ctx, s[0], A)
        if read is None or wr is None:
            ctx.unk("names", w, "%s: the derived code is not understood" % ty)
            continue
        multi = len(d["variants"]) > 1
        if multi:
            for vi, v in enumerate(d["variants"]):
                n = wr.get(vi)
                if n is None:
                    ctx.bad("names", w, "%s::%s is not written" % (ty, v["name"]))
                elif n in read and read[n] == vi:
                    ctx.ok("names", w, "%s::%s as %r" % (ty, v["name"], n))
                    ws = wr.get(("fields", vi), {})
                    named = v["fields"] and not v["fields"][0]["name"].isdigit()
                    if named:
                        ctx.check(len(ws) == len(v["fields"]) and ws in [m for m in read.values() if isinstance(m, dict)], "names", w,
                                  "%s::%s: the fields are written as %s, read as %s" % (ty, v["name"], ws, [m for m in read.values() if isinstance(m, dict)]))
                else:
                    ctx.bad("names", w, "%s::%s is written as %r, which is read as %s" % (ty, v["name"], n, d["variants"][read[n]]["name"] if n in read and read[n] < len(d["variants"]) else "nothing"))
        else:
            fs = [f["name"] for f in d["variants"][0]["fields"]]
            kept = [f for f in fs if (ty, f) not in UNSAVED]
            got = {}
            whole = wr.pop("complete", [])
            for n, i in wr.items():
                got[i] = n
            for ns, left in whole:
                miss = [f for f in kept if fs.index(f) in got and got[fs.index(f)] not in ns and fs.index(f) not in left]
                ctx.check(not miss, "names", w, "%s.%s is left out although it is not None" % (ty, ", ".join(miss)))
            
            for f in kept:
                i = fs.index(f)
                n = got.get(i)
                if n is None:
                    ctx.bad("names", w, "%s.%s is not written" % (ty, f))
                elif n not in read:
                    ctx.bad("names", w, "%s.%s is written as %r, which is not read" % (ty, f, n))
                else:
                    ctx.ok("names", w, "%s.%s as %r" % (ty, f, n))
            # names stand for fields in the order of declaration
            seq = [fs.index(f) for f in fs if got.get(fs.index(f)) in read]
            js = [read[got[i]] for i in seq]
            ctx.check(js == sorted(js) and len(set(js)) == len(js), "names", w, "%s: a name is read into the wrong field" % ty)
    

def readers(ctx, f):
    """{name: number of the field or variant it is read as}"""
    vs = [g for g in ctx.F.fns if g.startswith(f + "::") and g.endswith("::visit_str") and ctx.F.fns[g].get("body")]
    vs.sort(key=lambda g: g.count("::"))
    if not vs or len(vs) > 1 and vs[0].count("::") == vs[1].count("::"):
        return None
    r = dict(map_of(ctx, vs[0]) or {})
    for i, v in enumerate(vs[1:]):
        r[(i,)] = map_of(ctx, v)
    return r


def map_of(ctx, v):
    a = ctx.run(v)
    if a is None:
        return None
    out = {}
    for o in a.outcomes:
        r = o.ret
        if r.op == "adt" and r.args[:2] == (TM.RESULT, 0) and r.args[2].op == "adt" and ctx.F.adts[r.args[2].args[0]]["variants"][r.args[2].args[1]]["name"].startswith("__field"):
            n = int(ctx.F.adts[r.args[2].args[0]]["variants"][r.args[2].args[1]]["name"][7:])
            ss = [x.args[0] for g in o.facts if g.op != "not" for x in atoms(g) if x.op == "str"]
            if len(ss) != 1:
                return None
            out[ss[0]] = n
    return out


def writers(ctx, f, A):
    """struct: {name: field}; enum: {variant: name}"""
    a = ctx.run(f)
    if a is None:
        return None
    x = a.params[0]
    enum = len(ctx.F.adts[A]["variants"]) > 1
    out = {}
    for o in a.outcomes:
        for c in set(y for t in [o.ret, *o.facts] for y in atoms(t) if y.op == "call"):
            n = c.args[0].split("#")[0]
            if enum and n in ("Serializer::serialize_newtype_variant", "Serializer::serialize_unit_variant", "Serializer::serialize_struct_variant", "Serializer::serialize_tuple_variant"):
                k, s = c.args[3], c.args[4]
                if s.op != "str":
                    return None
                vi = next((i for i in range(len(ctx.F.adts[A]["variants"])) if entails(frozenset(o.facts), TM.isv(x, A, i)) is True), None)
                if vi is None:
                    vi = next((i for i in range(len(ctx.F.adts[A]["variants"])) if all(entails(frozenset(o.facts), TM.isv(x, A, j)) is False for j in range(len(ctx.F.adts[A]["variants"])) if j != i)), None)
                if vi is None:
                    return None
                out[vi] = s.args[0]
            if enum and n == "SerializeStructVariant::serialize_field":
                s, v = c.args[2], c.args[3]
                if s.op != "str" or v.op != "fld" or v.args[0] is not x:
                    return None
                out.setdefault(("fields", v.args[2]), {})[s.args[0]] = v.args[3]
            if not enum and n == "SerializeStruct::end" and c is o.ret:
                ns = {y.args[2].args[0] for y in atoms(c) if y.op == "call" and y.args[0].split("#")[0] == "SerializeStruct::serialize_field" and y.args[2].op == "str"}
                left = [i for i, d in enumerate(ctx.F.adts[A]["variants"][0]["fields"]) if entails(frozenset(o.facts), TM.isv(TM.Fld(x, A, 0, i), TM.OPTION, 0)) is True]
                out.setdefault("complete", []).append((ns, left))
            if not enum and n == "SerializeStruct::serialize_field":
                s, v = c.args[2], c.args[3]
                if s.op != "str":
                    return None
                if v.op == "fld" and v.args[0] is x:
                    out[s.args[0]] = v.args[3]
                else:
                    return None
    return out
