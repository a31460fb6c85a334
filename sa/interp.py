"""Abstract interpreter over MIR: value-provenance terms, path facts, loop summarisation.

The domain is described in DESIGN.md.  Every state over-approximates: an unknown callee gives
an opaque term, an unrecognised loop effect gives a `mu` term, and obligations (asserts, unwraps,
slicing) are recorded as discharged only when the facts of every reaching state imply them.
"""
from terms import *
import terms as TM
from facts import Facts, subst_ty, has_param, simp, ty_short

UNROLL = 80     # iterations of a loop with a decided test that are followed one by one

MAX_STATES = 4000
MAX_DEPTH = 60


class Imprecise(Exception):
    pass


class State:
    __slots__ = ("store", "facts", "events")

    def __init__(self, store, facts, events):
        self.store, self.facts, self.events = store, facts, events

    def copy(self):
        return State(dict(self.store), self.facts, self.events)

    def key(self):
        return (frozenset(self.store.items()), self.events)


# ---------------------------------------------------------------- fact reasoning
def lin_atoms(l):
    return [t for t, k in lin_parts(l)[1]]


def implicit_facts(l):
    """le0 terms that hold by definition of the atoms of l"""
    out = []
    for t in lin_atoms(l):
        if t.op == "min":
            for x in t.args:
                out.append(sub(t, x))
        elif t.op == "max":
            for x in t.args:
                out.append(sub(x, t))
        elif t.op == "fld" and t.args[0].op == "call" and t.args[0].args[0] in ("str::find", "str::rfind") and len(t.args[0].args) == 3:
            x, p = t.args[0].args[1:]
            out.append(sub(add(t, Len(p) if p.op == "str" else ONE), Len(x)))
        elif t.op == "div" and t.args[1].op == "int" and t.args[1].args[0] > 0:
            c = t.args[1].args[0]
            out.append(sub(scale(t, c), t.args[0]))
            out.append(sub(sub(t.args[0], scale(t, c)), Int(c - 1)))
        elif t.op == "and":
            for x in t.args:
                if (lo_bound(x) or -1) >= 0 and x.op != "int":
                    out.append(sub(t, x))
    return out


def upper(l, facts, depth=4, idx=None):
    """an upper bound of integer term l under facts, or None"""
    best = hi_bound(l)
    if l.op == "int":
        return best
    if depth == 0:
        return best
    if idx is None:
        idx = fact_index(facts)
    cands = []
    pa = dict(lin_parts(l)[1])
    seen = set()
    for t in pa:
        for f in idx.get(t, ()):
            if f not in seen:
                seen.add(f)
                cands.append(f)
    cands += implicit_facts(l)
    for f in cands:
        for t, k in lin_parts(f)[1]:
            kl = pa.get(t)
            if kl is None or kl * k < 0:
                continue
            if kl % k:
                continue
            c = kl // k
            r = sub(l, scale(f, c))      # l = c*f + r, f <= 0
            if len(lin_parts(r)[1]) > len(pa) + 1:
                continue
            u = upper(r, facts, depth - 1, idx) if r.op != "int" else r.args[0]
            if u is not None and (best is None or u < best):
                best = u
            break
    comp = [(t, k) for t, k in lin_parts(l)[1] if t.op in ("min", "max", "shl", "shr", "trunc")]
    if comp and len(comp) <= 2:
        # composite atoms, by their interval under the facts
        r = l
        for t, k in comp:
            lo, hi = interval(t, facts, depth)
            b = hi if k > 0 else lo
            if b is None:
                return best
            r = add(sub(r, scale(t, k)), Int(k * b))
        u = r.args[0] if r.op == "int" else upper(r, facts, depth - 1)
        if u is not None and (best is None or u < best):
            best = u
    return best


def interval(t, facts, depth=4):
    """(least, greatest) value of t under the facts, None where unknown"""
    if t.op == "int":
        return t.args[0], t.args[0]
    if depth <= 0:
        return lo_bound(t), hi_bound(t)
    if t.op in ("min", "max"):
        iv = [interval(x, facts, depth) for x in t.args]
        f = min if t.op == "min" else max
        ls, hs = [i[0] for i in iv], [i[1] for i in iv]
        known = [h for h in hs if h is not None]
        if t.op == "min":
            return (None if None in ls else min(ls)), (min(known) if known else None)
        known = [x for x in ls if x is not None]
        return (max(known) if known else None), (None if None in hs else max(hs))
    if t.op == "trunc" and t.args[0] in TM.RANGES:
        l, h = interval(t.args[1], facts, depth)
        a, b = TM.RANGES[t.args[0]]
        return (l, h) if l is not None and h is not None and a <= l and h <= b else (a, b)
    if t.op == "shl" and t.args[0].op == "int" and t.args[0].args[0] >= 0:
        l, h = interval(t.args[1], facts, depth)
        if l is not None and h is not None and 0 <= l <= h <= 128:
            return t.args[0].args[0] << l, t.args[0].args[0] << h
        return lo_bound(t), hi_bound(t)
    if t.op == "shr" and t.args[1].op == "int":
        l, h = interval(t.args[0], facts, depth)
        if l is not None and h is not None and l >= 0:
            return l >> t.args[1].args[0], h >> t.args[1].args[0]
    h = upper(t, facts, depth - 1)
    l = upper(scale(t, -1), facts, depth - 1)
    return (None if l is None else -l), h


_FI = {}


def fact_index(facts):
    r = _FI.get(facts)
    if r is None:
        r = {}
        for b in facts:
            if b.op == "le0":
                ls = [b.args[0]]
            elif b.op == "eq0":
                ls = [b.args[0], scale(b.args[0], -1)]
            else:
                continue
            for l in ls:
                for t, k in lin_parts(l)[1]:
                    r.setdefault(t, []).append(l)
        if len(_FI) > 20000:
            _FI.clear()
        _FI[facts] = r
    return r


def entails(facts, b):
    """True / False / None"""
    if b.op == "int":
        return bool(b.args[0])
    if b in facts:
        return True
    nb = Not(b)
    if nb in facts:
        return False
    o = b.op
    if o == "not":
        r = entails(facts, b.args[0])
        return None if r is None else not r
    if o == "le0":
        u = upper(b.args[0], facts)
        if u is not None and u <= 0:
            return True
        u = upper(sub(ONE, b.args[0]), facts)
        if u is not None and u <= 0:
            return False
        return None
    if o == "eq0":
        l = b.args[0]
        u = upper(l, facts)
        if u is not None and u < 0:
            return False
        d = upper(scale(l, -1), facts)
        if d is not None and d < 0:
            return False
        if u is not None and d is not None and u <= 0 and d <= 0:
            return True
        # x == c known with x != const
        ats = lin_parts(l)[1]
        if len(ats) == 1:
            for f in facts:
                if f.op == "eq0" and lin_parts(f.args[0])[1] == ats:
                    return f is b
        return None
    if o == "isv":
        t, adt, v = b.args
        excl = set()
        for f in facts:
            if f.op == "isv" and f.args[0] is t and f.args[1] == adt:
                return f.args[2] == v
            if f.op == "not" and f.args[0].op == "isv" and f.args[0].args[0] is t:
                excl.add(f.args[0].args[2])
        vs = set(TM.DISCR.get(adt, {0: 0, 1: 1}).values())
        if vs - excl == {v}:
            return True
        if v in excl:
            return False
        return None
    if o == "eq":
        x, y = b.args
        for f in facts:
            if f.op == "eq" and y.op in ("str",) and f.args[0] is x and f.args[1].op == "str":
                return f.args[1] is y
        return None
    if o == "band":
        r = True
        for x in b.args:
            e = entails(facts, x)
            if e is False:
                return False
            if e is None:
                r = None
        if r is None:
            # contradiction among the conjuncts under the facts
            fs = facts
            for x in b.args:
                if entails(fs, x) is False:
                    return False
                fs = assume_facts(fs, x)
                if fs is None:
                    return False
        return r
    return None


def assume_facts(facts, b):
    """facts + b, or None when contradictory"""
    if b.op == "int":
        return facts if b.args[0] else None
    e = entails(facts, b)
    if e is True:
        return facts
    if e is False:
        return None
    new = {b}
    if b.op == "band":
        fs = facts
        for x in b.args:
            fs = assume_facts(fs, x)
            if fs is None:
                return None
        return fs
    if b.op == "not" and b.args[0].op == "band":
        # all but one known true -> the remaining one is false
        unk = [x for x in b.args[0].args if entails(facts, x) is not True]
        if len(unk) == 1:
            return assume_facts(facts, Not(unk[0]))
    if b.op == "not" and b.args[0].op == "eq0":
        l = b.args[0].args[0]
        u = upper(l, facts)
        if u is not None and u == 0:
            new.add(le0(add(l, ONE)))
        d = upper(scale(l, -1), facts)
        if d is not None and d == 0:
            new.add(le0(sub(ONE, l)))
    if b.op == "le0":
        # l <= 0 together with l != 0 gives l <= -1
        l = b.args[0]
        n = Not(eq0(l))
        if n in facts:
            new = {le0(add(l, ONE))}
        # l <= 0 and l >= 0 gives equality
        d = upper(scale(l, -1), facts)
        if d is not None and d == 0:
            new.add(mk("eq0", l if lin_parts(l)[1][0][1] > 0 else scale(l, -1)))
    r = facts | new
    # wake up negated conjunctions
    for f in facts:
        if f.op == "not" and f.args[0].op == "band":
            unk = [x for x in f.args[0].args if entails(r, x) is not True]
            if not unk:
                return None
            if len(unk) == 1 and Not(unk[0]) not in r:
                r = assume_facts(r, Not(unk[0]))
                if r is None:
                    return None
        elif f.op == "not" and f.args[0].op == "eq0" and b.op == "le0" and f.args[0].args[0] in (b.args[0], scale(b.args[0], -1)):
            r = r | {le0(add(b.args[0], ONE))}
    return r


# ---------------------------------------------------------------- interpreter
class Outcome:
    """one class of executions of the analysed function"""
    __slots__ = ("ret", "facts", "events", "mem", "state")

    def __init__(self, ret, facts, events, mem, state):
        self.ret, self.facts, self.events, self.mem, self.state = ret, facts, events, mem, state

    def __repr__(self):
        return "ret=%s\n   facts={%s}\n   mem=%s events=%s" % (self.ret, "; ".join(sorted(show(f) for f in self.facts)), self.mem, self.events)


class Frame:
    __slots__ = ("fid", "fn", "body", "args", "id", "depth", "info")


class Obligation:
    __slots__ = ("fn", "span", "kind", "ok", "why", "n", "chain", "needs")

    def __repr__(self):
        return "%s %s %s ok=%s %s" % (self.fn, self.span, self.kind, self.ok, self.why)


class Interp:
    def __init__(self, F, opaque=(), transparent_bytearray=True, models=None):
        self.F = F
        self.opaque = set(opaque)
        self.obl = {}           # (fn, span, kind) -> Obligation
        self.visited = set()    # functions analysed
        self.unknown = {}       # unmodelled callee -> count
        self.notes = []
        self.fid = 0
        self.uid = 0
        self.kdepth = 0
        self.stack = []
        self.body_info = {}
        self.collect_obl = True
        self.n_states = 0
        self.calls_seen = 0
        self.call_log = []
        self.merge = True
        self._skipstack = []
        self.allocs = []
        self.frame = {}         # opaque function -> {argument: (type, the fields it may change)}
        self.watch = {}         # opaque function -> called with the state and arguments of every call
        self.rewrite = {}       # opaque function -> its result from the arguments, if known
        self.loopframes = []
        self.src_open = False
        self.forks = 0
        for id, a in F.adts.items():
            nv = len(a["variants"])
            TM.DISCR[id] = {v["discr"]: i for i, v in enumerate(a["variants"])}
            TM.ADT_NAMES[id] = (a["name"].split("::")[-1], [v["name"] for v in a["variants"]],
                                [[f["name"] for f in v["fields"]] for v in a["variants"]])
            for i, v in enumerate(a["variants"]):
                TM.ADT_NFIELDS[(id, i)] = len(v["fields"])
        import models as M
        self.M = M
        self.models = dict(M.MODELS)
        self.local_models = dict(M.LOCAL_MODELS) if transparent_bytearray else {}
        TM.BA_DATA = None
        if transparent_bytearray:
            for k, a in F.adts.items():
                if a["name"].split("::")[-1] == "ByteArray" and a.get("local"):
                    for i, fd in enumerate(a["variants"][0]["fields"]):
                        if fd["name"] == "data":
                            TM.BA_DATA = (k, 0, i)
        if models:
            self.local_models.update(models)

    # ---------- helpers
    def assume(self, st, b):
        f = assume_facts(st.facts, b)
        if f is None:
            return None
        if f is st.facts:
            return st
        return State(st.store, f, st.events)

    def fork(self, st, b):
        """[(state, bool)] for a boolean term"""
        e = entails(st.facts, b)
        if e is not None:
            return [(st, e)]
        out = []
        for v, x in ((True, b), (False, Not(b))):
            s = self.assume(st, x)
            if s is not None:
                out.append((s.copy() if s is st else State(dict(s.store), s.facts, s.events), v))
        if len(out) > 1:
            self.forks += 1
        return out

    def fork_src(self, st, b):
        """fork on whether an iterator source is exhausted"""
        if b.op != "int":
            self.src_open = True
        return self.fork(st, b)

    def split(self, st, t, adt):
        """[(state, variant, [fields])] over the variants of t"""
        if t.op == "adt":
            return [(st, t.args[1], list(t.args[2:]))]
        a = self.F.adts.get(adt)
        nv = len(a["variants"]) if a else 2
        out = []
        for v in range(nv):
            b = isv(t, adt, v)
            s = self.assume(st, b)
            if s is None:
                continue
            nf = TM.ADT_NFIELDS.get((adt, v), {OPTION: [0, 1], RESULT: [1, 1]}.get(adt, [0, 0])[v] if adt in (OPTION, RESULT) else 0)
            out.append((State(dict(s.store), s.facts, s.events), v, [Fld(t, adt, v, i) for i in range(nf)]))
        if len(out) > 1:
            self.forks += 1
        return out

    def event(self, st, ev):
        st.events = st.events + (ev,)

    def tmp(self):
        self.uid += 1
        return ("tmp", self.uid)

    # ---------- memory
    def load(self, st, ref):
        """value behind a reference term (shared references are their value)"""
        n = 0
        while ref.op == "ref":
            key, projs = ref.args
            v = self.rd(st, key)
            for p in projs:
                v = self.proj(st, v, p)
            ref = v
            n += 1
            if n > 20:
                break
        return ref

    def rd(self, st, key):
        v = st.store.get(key)
        if v is None:
            if isinstance(key, tuple) and key[0] == "ext":
                return key[1]
            v = mk("uninit")
        return v

    def proj(self, st, v, p):
        k = p[0]
        if v.op == "ref":
            v = self.load(st, v)
        if k == "f":
            if p[1] is None:
                return TFld(v, p[3])
            if p[1] == COW:
                return v
            return Fld(v, p[1], p[2], p[3])
        if k == "i":
            return Idx(v, p[1])
        if k == "sl":
            return Slice(v, p[1], p[2])
        if k == "m":
            # the value under a key that is known to be in the map
            return Fld(_mget(v, p[1], st.facts), OPTION, 1, 0)
        raise Imprecise("proj %s" % (p,))

    def store_to(self, st, ref, val):
        if ref.op != "ref":
            st.store[("ext", ref)] = val
            self.event(st, mk("write", ref, val))
            return
        key, projs = ref.args
        # step through references held along the path
        v = self.rd(st, key)
        for n, p in enumerate(projs):
            if v.op == "ref":
                return self.store_to(st, mk("ref", v.args[0], v.args[1] + projs[n:]), val)
            v = self.proj(st, v, p)
        if v.op == "ref" and False:
            pass
        st.store[key] = self.update(st, self.rd(st, key), projs, val)

    def update(self, st, v, projs, val):
        if not projs:
            return val
        p = projs[0]
        if v.op == "ref":
            self.store_to(st, mk("ref", v.args[0], v.args[1] + tuple(projs)), val)
            return v
        k = p[0]
        if k == "f":
            if p[1] is None:
                i = p[3]
                if v.op in ("tup", "clo"):
                    off = 0 if v.op == "tup" else 2
                    new = self.update(st, v.args[i + off], projs[1:], val)
                    a = list(v.args)
                    a[i + off] = new
                    return mk(v.op, *a)
                if v.op == "uninit":
                    fields = {}
                new = self.update(st, TFld(v, i), projs[1:], val)
                return mk("tupd", v, i, new)
            adt, vi, i = p[1:4]
            if v.op == "adt" and v.args[1] == vi and len(v.args) > 2 + i:
                new = self.update(st, v.args[2 + i], projs[1:], val)
                a = list(v.args)
                a[2 + i] = new
                return Adt(*a)
            nf = TM.ADT_NFIELDS.get((adt, vi))
            if nf is None:
                return mk("upd", v, adt, vi, i, self.update(st, Fld(v, adt, vi, i), projs[1:], val))
            fs = [Fld(v, adt, vi, j) for j in range(nf)]
            fs[i] = self.update(st, fs[i], projs[1:], val)
            return Adt(adt, vi, *fs)
        if k == "m":
            if v.op != "minsert":
                return TM.MInsert(v, p[1], self.update(st, Fld(_mget(v, p[1], st.facts), OPTION, 1, 0), projs[1:], val))
            if _mget(mk("minsert", mk("emptymap"), v.args[1], UNIT), p[1], st.facts) is not NONE:
                return mk("minsert", v.args[0], v.args[1], self.update(st, v.args[2], projs[1:], val))
            return mk("minsert", self.update(st, v.args[0], projs, val), *v.args[1:])
        if k == "i":
            i = p[1]
            new = self.update(st, Idx(v, i), projs[1:], val)
            if v.op == "seq" and i.op == "int" and all(q.op == "item" for q in v.args) and i.args[0] < len(v.args):
                ps = list(v.args)
                ps[i.args[0]] = item(new)
                return Seq(*ps)
            if new is Idx(v, i):
                return v
            if v.op == "updi" and v.args[1] is i:
                v = v.args[0]
            return mk("updi", v, i, new)
        if k == "sl":
            lo, hi = p[1], p[2]
            old = Slice(v, lo, hi)
            new = self.update(st, old, projs[1:], val)
            if new is old:
                return v
            return Seq(Slice(v, ZERO, lo), new, Slice(v, hi, Len(v)))
        raise Imprecise("update %s" % (p,))

    # ---------- places
    def place(self, fr, st, pl):
        """-> (ref term, value-type) : canonical reference to the place, or ('val', term)"""
        local = pl[0]
        ty = subst_ty(fr.body["locals"][local], fr.args)
        key = (fr.fid, local)
        cur = ("L", key, ())        # lvalue
        variant = 0
        for s in pl[1:]:
            k = s[0]
            if k == "*":
                v = self.lv_load(st, cur)
                if v.op == "ref":
                    cur = ("L", v.args[0], v.args[1])
                else:
                    # shared reference / Box / opaque pointer: transparent
                    if cur[0] == "L" and ty[0] == "adt":
                        pass          # Box: same storage
                    elif cur[0] == "L" and ty[0] == "ref" and ty[1]:
                        if v.op != "ref" and not self.is_owned_tmp(v):
                            cur = ("L", ("ext", v), ())
                        else:
                            cur = ("V", v)
                    else:
                        cur = ("V", v)
                if ty[0] in ("ref", "raw"):
                    ty = ty[2]
                elif ty[0] == "adt" and ty[2]:
                    ty = ty[2][0]
                variant = 0
            elif k == "f":
                sty = subst_ty(s[2], fr.args)
                if ty[0] == "adt":
                    nm = ty[1].split("::")[-1]
                    if nm in ("Box", "BoxRaw", "Unique", "NonNull") or (nm in ("MaybeUninit", "ManuallyDrop", "MaybeDangling", "UnsafeCell", "Wrapping") and ty[1].startswith(("core", "alloc"))):
                        ty = sty
                        continue
                    cur = self.lv_proj(st, cur, ("f", ty[1], variant, s[1]))
                elif ty[0] in ("tuple", "closure"):
                    cur = self.lv_proj(st, cur, ("f", None, 0, s[1]))
                else:
                    cur = self.lv_proj(st, cur, ("f", None, 0, s[1]))
                ty = sty
                variant = 0
            elif k == "d":
                variant = s[1]
            elif k == "i":
                i = self.rd(st, (fr.fid, s[1]))
                cur = self.lv_proj(st, cur, ("i", i))
                ty = elem_ty(ty)
            elif k == "ci":
                v = self.lv_load(st, cur)
                i = Int(s[1]) if not s[3] else sub(Len(v), Int(s[1]))
                cur = self.lv_proj(st, cur, ("i", i))
                ty = elem_ty(ty)
            elif k == "ss":
                v = self.lv_load(st, cur)
                hi = Int(s[2]) if not s[3] else sub(Len(v), Int(s[2]))
                cur = self.lv_proj(st, cur, ("sl", Int(s[1]), hi))
            else:
                raise Imprecise("place step %s" % (s,))
        return cur, ty

    def is_owned_tmp(self, v):
        return False

    def lv_load(self, st, cur):
        if cur[0] == "V":
            return cur[1]
        v = self.rd(st, cur[1])
        for p in cur[2]:
            v = self.proj(st, v, p)
        return v

    def lv_proj(self, st, cur, p):
        if cur[0] == "V":
            return ("V", self.proj(st, cur[1], p))
        # normalise through references on the path
        v = self.lv_load(st, cur)
        if v.op == "ref":
            return ("L", v.args[0], v.args[1] + (p,))
        return ("L", cur[1], cur[2] + (p,))

    def read_place(self, fr, st, pl):
        cur, ty = self.place(fr, st, pl)
        v = self.lv_load(st, cur)
        note_type(v, ty)
        return v

    def write_place(self, fr, st, pl, val):
        if len(pl) == 1:
            st.store[(fr.fid, pl[0])] = val
            return
        cur, ty = self.place(fr, st, pl)
        if cur[0] == "V":
            # a write through something we treat as a value: opaque effect
            self.event(st, mk("write", cur[1], val))
            return
        st.store[cur[1]] = self.update(st, self.rd(st, cur[1]), cur[2], val)

    def place_ty(self, fr, pl):
        ty = subst_ty(fr.body["locals"][pl[0]], fr.args)
        for s in pl[1:]:
            if s[0] == "*":
                if ty[0] in ("ref", "raw"):
                    ty = ty[2]
                elif ty[0] == "adt" and ty[2]:
                    ty = ty[2][0]
            elif s[0] == "f":
                ty = subst_ty(s[2], fr.args)
            elif s[0] in ("i", "ci"):
                ty = elem_ty(ty)
        return ty

    # ---------- constants
    def const(self, fr, k):
        v = k["v"]
        ty = subst_ty(k["ty"], fr.args)
        if v is None:
            return mk("constant", str(k.get("from")), fr.args)
        if v[0] == "opaque" and k.get("from") and not k.get("from_args"):
            f = self.F.fns.get(k["from"])
            if f and f.get("body"):
                return self.const_body(k["from"], f["body"], ())
        return self.cval(fr, v, ty)

    def cval(self, fr, v, ty=None):
        t = v[0]
        if t == "int":
            return Int(v[1])
        if t == "str":
            return Str(v[1])
        if t == "cref":
            return self.cval(fr, v[1])
        if t == "arr":
            return Seq(*[item(self.cval(fr, x)) for x in v[1]])
        if t == "tup":
            return mk("tup", *[self.cval(fr, x) for x in v[1]])
        if t == "cadt":
            return Adt(v[1], v[2], *[self.cval(fr, x) for x in v[3]])
        if t == "fn":
            return mk("fn", v[1], subst_ty(v[2], fr.args) if len(v) > 2 else ())
        if t == "closure":
            return mk("clo", v[1], subst_ty(v[2], fr.args))
        if t == "unit":
            if ty and ty[0] == "adt":
                return Adt(ty[1], 0)
            if ty and ty[0] == "fndef":
                return mk("fn", ty[1], ty[2])
            if ty and ty[0] == "closure":
                return mk("clo", ty[1], ty[2])
            if ty and ty[0] == "array":
                return EMPTY
            return UNIT
        if t == "promoted":
            return self.promoted(fr, v)
        if t == "tyconst":
            c = v[1] if len(v) > 1 else None
            if isinstance(c, int):
                return Int(c)
            if isinstance(c, tuple) and c and c[0] == "param" and c[1] < len(fr.args):
                a = fr.args[c[1]]
                if a[0] == "const" and isinstance(a[1], int):
                    return Int(a[1])
            if isinstance(c, str) and c.startswith('"') and c.endswith('"'):
                import ast
                try:
                    return Str(ast.literal_eval(c))
                except (ValueError, SyntaxError):
                    pass
            return mk("constant", str(v[1:]), ())
        if t == "const_item":
            f = self.F.fns.get(v[1])
            if f and f.get("val"):
                return self.cval(fr, f["val"])
            if f and f.get("body"):
                return self.const_body(v[1], f["body"], subst_ty(v[2], fr.args) if len(v) > 2 else ())
            return mk("constant", str(v[1]), str(v[2:]))
        return mk("constant", repr(v), ())

    def promoted(self, fr, v):
        f = self.F.fns.get(v[1])
        idx = v[2]
        if f is None or idx >= len(f.get("promoted") or ()):
            return mk("constant", repr(v), ())
        body = f["promoted"][idx]
        return self.const_body((v[1], idx), body, fr.args)

    def const_body(self, id, body, args):
        key = ("promo", id)
        if isinstance(body, dict) and "_conv" not in body:
            from facts import tup, tup_t
            body["blocks"] = [dict(bl, s=tup(bl["s"]), t=tup_t(bl["t"])) for bl in body["blocks"]]
            body["locals"] = tup(body["locals"])
            body["_conv"] = True
        st = State({}, frozenset(), ())
        save = self.collect_obl
        self.collect_obl = False
        outs = self.run_body(key, body, args, [], st, "promoted")
        self.collect_obl = save
        if len(outs) == 1:
            return self.load(outs[0][0], outs[0][1])
        return mk("constant", str(id), args)

    def operand(self, fr, st, o):
        if "c" in o:
            return self.read_place(fr, st, o["c"])
        if "m" in o:
            return self.read_place(fr, st, o["m"])
        return self.const(fr, o["k"])

    def operand_ty(self, fr, o):
        pl = o.get("c") or o.get("m")
        if pl:
            return self.place_ty(fr, pl)
        return subst_ty(o["k"]["ty"], fr.args)

    # ---------- rvalues
    def rvalue(self, fr, st, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k == "ref" or k == "rawptr" or k == "reborrow":
            mut, pl = rv[1] in (True, "Mut"), rv[2]
            cur, ty = self.place(fr, st, pl)
            if mut:
                if cur[0] == "L":
                    v = self.lv_load(st, cur)
                    if v.op == "ref" and not (len(pl) == 1):
                        pass
                    return mk("ref", cur[1], cur[2])
                return cur[1]
            v = self.lv_load(st, cur)
            note_type(v, ty)
            return v
        if k == "cast":
            return self.cast(fr, st, rv[1], self.operand(fr, st, rv[2]), self.operand_ty(fr, rv[2]), subst_ty(rv[3], fr.args))
        if k == "bin":
            return self.binop(fr, st, rv[1], self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3]), self.operand_ty(fr, rv[2]))
        if k == "un":
            a = self.operand(fr, st, rv[2])
            ty = self.operand_ty(fr, rv[2])
            if rv[1] == "Not":
                if ty == ("p", "bool"):
                    return Not(a)
                lo, hi = TM.RANGES.get(ty[1], (0, 0)) if ty[0] == "p" else (0, 0)
                if lo == 0:
                    return sub(Int(hi), a)
                return sub(Int(-1), a)
            if rv[1] == "Neg":
                return scale(a, -1)
            if rv[1] == "PtrMetadata":
                return Len(self.load(st, a))
            return mk("un", rv[1], a)
        if k == "discr":
            cur, ty = self.place(fr, st, rv[1])
            v = self.load(st, self.lv_load(st, cur))
            if ty[0] == "adt":
                if v.op == "adt":
                    a = self.F.adts.get(v.args[0])
                    return Int(a["variants"][v.args[1]]["discr"]) if a else Int(v.args[1])
                if v.op == "fromdiscr":
                    return v.args[1]
                return mk("discr", v, ty[1])
            return mk("discr", v, str(ty))
        if k == "agg":
            kind, ops = rv[1], rv[2]
            vs = [self.operand(fr, st, o) for o in ops]
            if kind[0] == "array":
                return items(*vs)
            if kind[0] == "tuple":
                return mk("tup", *vs)
            if kind[0] == "adt":
                if kind[1] == COW and len(vs) == 1:
                    return vs[0]            # borrowed or owned: the value is the same
                return Adt(kind[1], kind[2], *vs)
            if kind[0] == "closure":
                return mk("clo", kind[1], subst_ty(kind[2], fr.args), *vs)
            return mk("agg", str(kind), *vs)
        if k == "repeat":
            v = self.operand(fr, st, rv[1])
            n = rv[2]
            if isinstance(n, int):
                return Seq(mk("repeat", v, Int(n))) if n <= 4 else mk("repeat", v, Int(n))
            n = self.cval(fr, n) if isinstance(n, tuple) and isinstance(n[0], str) and n[0] in ("int", "tyconst") else (Int(n[1]) if isinstance(n, tuple) and n[0] == "const" and isinstance(n[1], int) else mk("constant", repr(n), ()))
            return mk("repeat", v, n)
        if k == "copyderef":
            return self.read_place(fr, st, rv[1])
        return mk("rv", repr(rv))

    def cast(self, fr, st, kind, v, fty, tty):
        if kind.startswith("IntToInt"):
            if tty[0] == "p" and tty[1] in TM.RANGES:
                if v.op == "discr" and False:
                    pass
                e = trunc(tty[1], v)
                if e.op == "trunc":
                    # in range under the facts?
                    lo, hi = TM.RANGES[tty[1]]
                    u = upper(v, st.facts)
                    if u is not None and u <= hi:
                        l = upper(scale(v, -1), st.facts)
                        if l is not None and -l >= lo:
                            return v
                return e
            return v
        if "Transmute" in kind:
            return v
        return v

    def binop(self, fr, st, op, a, b, ty):
        prim = ty[1] if ty[0] == "p" else None
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = {"A": add, "S": sub, "M": mul}[op[0]](a, b)
            lo, hi = TM.RANGES[prim]
            ov = conj([le(Int(lo), r), le(r, Int(hi))])
            return mk("tup", r, Not(ov))
        if op == "Div":
            return div(a, b)
        if op == "Rem":
            return rem(a, b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if prim == "bool":
                if op == "BitAnd":
                    return conj([a, b])
                if op == "BitOr":
                    return disj([a, b])
                return Not(int_eq(a, b)) if a.op != "int" and b.op != "int" else (Not(b) if a is TRUE else b if a is FALSE else Not(a) if b is TRUE else a)
            note_type(a, ty)
            note_type(b, ty)
            return bitop({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], a, b)
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            note_type(a, ty)
            r = shift("shl" if op.startswith("Shl") else "shr", a, b)
            if r.op == "shl":
                # value bits above the width are lost
                h = hi_bound(a)
                if prim in TM.RANGES and not (h is not None and b.op == "int" and lo_bound(a) is not None and lo_bound(a) >= 0 and (h << b.args[0]) <= TM.RANGES[prim][1]):
                    return TM.typed_shift("shl", a, b, prim)
                if b.op == "int":
                    return scale(a, 1 << b.args[0])
            if r.op == "int" and prim:
                return trunc(prim, r)
            note_type(r, ty)
            return r
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if prim or a.op in ("int", "lin") or b.op in ("int", "lin"):
                note_type(a, ty)
                note_type(b, ty)
                r = {"Eq": lambda: int_eq(a, b), "Ne": lambda: Not(int_eq(a, b)), "Lt": lambda: lt(a, b),
                     "Le": lambda: le(a, b), "Gt": lambda: lt(b, a), "Ge": lambda: le(b, a)}[op]()
                return r
            if op == "Eq":
                return teq(a, b)
            if op == "Ne":
                return Not(teq(a, b))
            return mk("pred", op, a, b)
        return mk("bin", op, a, b)

    # ---------- bodies
    def info(self, key, body):
        r = self.body_info.get(key)
        if r is None:
            r = self.body_info[key] = BodyInfo(body)
        return r

    def run_body(self, id, body, args, argv, st, name):
        """inline: -> [(state, ret term)]"""
        fr = Frame()
        self.fid += 1
        fr.fid = self.fid
        fr.id = id
        fr.fn = name
        fr.body = body
        fr.args = args
        fr.info = self.info(id, body)
        fr.depth = len(self.stack)
        for i, v in enumerate(argv):
            st.store[(fr.fid, i + 1)] = v
        self.stack.append((id, name, args))
        try:
            rets, exits, backs = self.region(fr, {0: [st]}, None, None)
        finally:
            self.stack.pop()
        out = []
        for s in rets:
            r = s.store.get((fr.fid, 0), UNIT)
            note_type(r, subst_ty(body["locals"][0], args))
            # a returned reference into this frame is its value
            if r.op == "ref" and r.args[0][0] == fr.fid:
                r = self.load(s, r)
            for k in [k for k in s.store if k[0] == fr.fid]:
                del s.store[k]
            out.append((s, r))
        return self.merge_rets(out)

    def merge_rets(self, out):
        if not self.merge or len(out) < 2:
            return out
        d = {}
        for s, r in out:
            d.setdefault((r, s.key()), []).append(s)
        return [(s, k[0]) for k, ss in d.items() for s in merge_group(ss, 12 if len(self.stack) else 200)]

    def region(self, fr, start, blocks, head):
        """run blocks from `start`; inside a loop (blocks, head) stop at head and at exits.
        -> (return states, {exit bb: [states]}, back-edge states)"""
        info = fr.info
        work = {bb: list(v) for bb, v in start.items()}
        rets, exits, backs = [], {}, []
        first = True
        while work:
            bb = min(work, key=lambda b: info.rpo[b])
            states = work.pop(bb)
            if len(states) > 1 and self.merge:
                states = self.join(fr, bb, states)
            if len(states) > 400 or self.n_states > MAX_STATES * 50:
                raise Imprecise("too many states in %s" % fr.fn)
            if bb in info.loops and not (bb == head and first):
                res = []
                for s in states:
                    r, ex = self.loop(fr, bb, s)
                    rets += r
                    for b, ss in ex.items():
                        for x in ss:
                            self.push(work, exits, backs, b, x, blocks, head)
                continue
            first = False
            for s in states:
                self.n_states += 1
                for b, x in self.block(fr, bb, s, rets):
                    self.push(work, exits, backs, b, x, blocks, head)
        return rets, exits, backs

    def push(self, work, exits, backs, b, x, blocks, head):
        if b == head:
            backs.append(x)
        elif blocks is not None and b not in blocks:
            exits.setdefault(b, []).append(x)
        else:
            work.setdefault(b, []).append(x)

    def join(self, fr, bb, states):
        live = fr.info.live[bb]
        fid = fr.fid
        d = {}
        for s in states:
            dead = [k for k in s.store if k[0] == fid and k[1] not in live]
            if dead:
                for k in dead:
                    del s.store[k]
            d.setdefault(s.key(), []).append(s)
        lim = 4 if self.loopframes else 12 if len(self.stack) > 1 else 48
        return [s for ss in d.values() for s in merge_group(ss, lim)]

    def block(self, fr, bb, st, rets):
        bl = fr.body["blocks"][bb]
        for s in bl["s"]:
            if s[0] == "=":
                dty = None
                v = self.rvalue(fr, st, s[2], dty)
                self.write_place(fr, st, s[1], v)
            elif s[0] == "setd":
                cur, ty = self.place(fr, st, s[1])
                v = self.lv_load(st, cur)
                if ty[0] == "adt" and v.op == "adt":
                    pass
            elif s[0] == "dead":
                pass
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "switch":
            return self.switch(fr, bb, st, t)
        if k == "return":
            rets.append(st)
            return []
        if k == "unreachable":
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "call":
            return self.call_term(fr, bb, st, t, bl)
        if k == "assert":
            return self.assert_term(fr, st, t, bl)
        if k == "other":
            return []
        raise Imprecise("terminator " + k)

    def switch(self, fr, bb, st, t):
        v = self.operand(fr, st, t[1])
        ty = t[4] if len(t) > 4 else None
        if ty:
            ty = subst_ty(ty, fr.args)
            note_type(v, ty)
        self.loop_test(fr, bb, v.op == "int")
        if v.op == "int":
            for val, b in t[2]:
                if val == v.args[0] or (ty and ty[0] == "p" and ty[1] in TM.RANGES and wrap_to(ty[1], val) == v.args[0]):
                    return [(b, st)]
            return [(t[3], st)] if t[3] is not None else []
        out = []
        neg = []
        isbool = (ty == ("p", "bool")) or is_bool(v)
        cur = st
        for val, b in t[2]:
            if ty and ty[0] == "p" and ty[1] in TM.RANGES and ty[1] != "bool":
                val = wrap_to(ty[1], val) if ty[1][0] == "i" else val
            if isbool:
                c = v if val else Not(v)
            elif v.op == "discr":
                vi = TM.DISCR.get(v.args[1], {}).get(val)
                c = FALSE if vi is None else isv(v.args[0], v.args[1], vi)
            else:
                c = int_eq(v, Int(val))
            s = self.assume(cur, c)
            if s is not None:
                out.append((b, State(dict(s.store), s.facts, s.events)))
            cur = self.assume(cur, Not(c))
            if cur is None:
                break
        if cur is not None and t[3] is not None and fr.body["blocks"][t[3]]["t"][0] != "unreachable":
            out.append((t[3], State(dict(cur.store), cur.facts, cur.events)))
        elif cur is not None and t[3] is not None:
            pass
        return out

    def loop_test(self, fr, bb, const):
        """the first exit test of an iteration decides: constant -> unroll, otherwise -> summarise"""
        for lf in self.loopframes:
            if lf["fid"] == fr.fid and bb in lf["exit_switches"] and lf["first"] is None:
                if not const:
                    lf["first"] = "forked"
                elif self.forks == lf["forks"]:
                    lf["first"] = "const"

    def mark_forked(self, fr):
        for lf in self.loopframes[-1:]:
            if fr and lf["fid"] == fr.fid and lf["first"] is None:
                lf["first"] = "forked"

    def assert_term(self, fr, st, t, bl):
        cond, expected, msg, target = t[1], t[2], t[3], t[4]
        kind = msg[0]
        v = self.operand(fr, st, cond)
        if kind == "other":
            if "Pointer" in str(msg[1]):
                return [(target, st)]      # compiler-inserted pointer validity check
            s = self.assume(st, v if expected else Not(v))
            return [(target, s or st)]
        want = v if expected else Not(v)
        e = entails(st.facts, want)
        self.oblige(fr, bl["sp"], "assert:" + kind + (":" + msg[1] if kind == "overflow" else ""), e is True, show(want), st, want)
        if e is False:
            return []
        s = self.assume(st, want)
        if s is None:
            return []
        fs = s.facts if e is True else s.facts | {mk("assumed", f) for f in s.facts - st.facts}
        return [(target, State(st.store, fs, st.events))]

    def oblige(self, fr, span, kind, ok, why, st=None, need=None):
        if not self.collect_obl:
            return
        fn = fr.fn if fr else "?"
        key = (fn, span, kind)
        o = self.obl.get(key)
        if o is None:
            o = Obligation()
            o.fn, o.span, o.kind, o.ok, o.why, o.n = fn, span, kind, ok, why, 1
            o.chain = [n for _, n, _ in self.stack]
            o.needs = []        # what the failing ones need, where known
            self.obl[key] = o
        else:
            o.n += 1
            if o.ok and not ok:
                o.ok, o.why = ok, why
                o.chain = [n for _, n, _ in self.stack]
        if not ok:
            o.needs.append(need)

    # ---------- calls
    def call_term(self, fr, bb, st, t, bl):
        callee, argops, dest, target = t[1], t[2], t[3], t[4]
        argv = [self.operand(fr, st, a) for a in argops]
        argt = [self.operand_ty(fr, a) for a in argops]
        dty = self.place_ty(fr, dest)
        self.calls_seen += 1
        ctx = CallCtx(self, fr, bl["sp"], dty, argt, bl.get("mac"))
        if "op" in callee:
            f = self.operand(fr, st, callee["op"])
            res = self.call_value(st, f, argv, ctx)
        else:
            res = self.call(st, callee, argv, ctx)
        out = []
        for s, r in res:
            if r is None:
                continue
            if target is None:
                continue
            note_type(r, dty)
            self.write_place(fr, s, dest, r)
            out.append((target, s))
        return out

    def call(self, st, callee, argv, ctx):
        fr = ctx.fr
        d = callee["def"]
        args = subst_ty(callee.get("args", ()), fr.args if fr else ())
        return self.call_def(st, d, args, argv, ctx, callee)

    def call_def(self, st, d, args, argv, ctx, callee=None):
        F = self.F
        fr = ctx.fr
        virtual = callee and callee.get("virtual")
        rid, rargs = None, None
        derived = None
        dd = F.defs.get(d) or {}
        trait = dd.get("trait") or (F.fns.get(d) or {}).get("default_of") or (F.fns.get(d) or {}).get("trait")
        if d in F.fns and not F.fns[d].get("default_of"):
            rid, rargs = d, args
            trait = None
        elif trait and not virtual:
            if callee and callee.get("res") and callee["res"] in F.fns:
                rid, rargs = callee["res"], subst_ty(callee.get("res_args", ()), fr.args if fr else ())
                im = F.impl_by_id.get(F.fns[rid].get("impl"))
                derived = im and im.get("derived")
                if F.fns[rid].get("default_of"):
                    r = F.resolve(d, trait, args)
                    if r and r[0] != "default":
                        rid, rargs, derived = r[0], r[1], r[2].get("derived")
            else:
                r = F.resolve(d, trait, args)
                if r:
                    if r[0] == "default":
                        if d in F.fns and F.fns[d].get("body"):
                            rid, rargs = d, args
                    else:
                        rid, rargs = r[0], r[1]
                    derived = r[2].get("derived")
        ctx.args = args
        ctx.def_ = d
        key = F.simp_name(d)
        ctx.key = key
        self.call_log.append((ctx.fr.fn if ctx.fr else "?", key, ctx.span)) if len(self.call_log) < 200000 else None
        # derived impls of the comparison / clone traits are structural by construction
        if derived and key in ("Clone::clone", "PartialEq::eq", "PartialEq::ne", "Hash::hash", "Debug::fmt", "PartialOrd::partial_cmp", "Ord::cmp"):
            rid = None
        if rid is not None:
            f = F.fns[rid]
            lk = F.local_key(rid)
            m = self.local_models.get(lk)
            ctx.rid, ctx.rargs, ctx.lk = rid, rargs, lk
            if m:
                r = m(self, st, ctx, argv)
                if r is not NotImplemented:
                    return r
            if lk not in self.opaque and rid not in self.opaque and f.get("body") and not self.too_deep(rid, rargs):
                self.visited.add(rid)
                return self.run_body(rid, f["body"], rargs, argv, st, f["name"])
            if f["kind"] in ("Ctor",):
                pass
            return self.opaque_call(st, lk or f["name"], argv, ctx)
        # constructors used as functions
        ct = ctor_of(F, d)
        if ct:
            return [(st, Adt(ct[0], ct[1], *argv))]
        for k in (F.simp_name(callee["res"]) if callee and callee.get("res") else None, key):
            m = k and self.models.get(k)
            if m:
                r = m(self, st, ctx, argv)
                if r is not NotImplemented:
                    return r
        if dd.get("ret_never"):
            self.oblige(fr, ctx.span, "panic:" + key, False, "reachable", st)
            return []
        if trait and d in F.fns:
            # a workspace trait method on an unknown type
            return self.opaque_call(st, key, argv, ctx, known=True)
        return self.opaque_call(st, key, argv, ctx)

    def too_deep(self, rid, rargs):
        if len(self.stack) > MAX_DEPTH:
            return True
        n = sum(1 for i, _, a in self.stack if i == rid)
        return n >= 3 or sum(1 for i, _, a in self.stack if i == rid and a == rargs) >= 2

    def opaque_call(self, st, name, argv, ctx, known=False):
        if not known and name not in self.opaque:
            self.unknown[name] = self.unknown.get(name, 0) + 1
        j = next((i for i, a in enumerate(argv) if a.op in ITER_OPS and a.op not in ("range", "rangeinc", "itk")), None)
        if j is not None and name in self.opaque:
            # an iterator handed over by value stands for the sequence it yields
            import models as M
            out = []
            try:
                for s, q in M.collect_seq(self, st.copy(), ctx, argv[j]):
                    out += self.opaque_call(s, name, argv[:j] + [q] + argv[j + 1:], ctx, known)
                return out
            except Imprecise:
                pass
        vals = [self.deref_deep(st, a) for a in argv]
        r = mk("call", name, *vals)
        if name in self.watch:
            self.watch[name](st, vals)
        if name in self.rewrite:
            r = self.rewrite[name](vals) or r
        muts = [i for i, a in enumerate(argv) if a.op == "ref"]
        for i in muts:
            new = mk("call", name + "#%d" % i, *vals)
            if i in self.frame.get(name, ()):
                ty, fs = self.frame[name][i]
                new = mk("adt", ty, 0, *[Fld(new if f["name"] in fs else vals[i], ty, 0, n) for n, f in enumerate(self.F.adts[ty]["variants"][0]["fields"])])
            self.store_to(st, argv[i], new)
        # captured &mut in closures
        for i, a in enumerate(argv):
            if a.op == "clo":
                for c in a.args[2:]:
                    if c.op == "ref":
                        self.store_to(st, c, mk("call", name + "#clo", *vals))
        if ctx.dty == ("tuple", ()) and not muts:
            self.event(st, mk("ev", name, *vals))
        note_type(r, ctx.dty)
        return [(st, r)]

    def deref_deep(self, st, t):
        if t.op == "ref":
            return self.load(st, t)
        if t.op in ("adt", "tup", "clo") and any(is_t(a) and a.op == "ref" for a in t.args):
            return mk(t.op, *[self.load(st, a) if is_t(a) and a.op == "ref" else a for a in t.args])
        return t

    def call_value(self, st, f, argv, ctx):
        """call a closure / fn item / opaque callable value"""
        f = self.load(st, f)
        if f.op == "clo":
            fn = self.F.fns.get(f.args[0])
            if fn is None or not fn.get("body") or self.too_deep(f.args[0], f.args[1]):
                return self.opaque_call(st, "closure", [f] + argv, ctx)
            self.visited.add(f.args[0])
            key = self.tmp()
            st.store[key] = f
            self_ty = fn["body"]["locals"][1]
            selfarg = mk("ref", key, ()) if self_ty[0] == "ref" else f
            n = fn["body"]["argc"] - 1
            if n != len(argv):
                argv = list(argv[0].args) if argv and argv[0].op == "tup" else argv
            outs = self.run_body(f.args[0], fn["body"], f.args[1], [selfarg] + list(argv), st, fn["name"])
            for s, r in outs:
                s.store.pop(key, None)
            return outs
        if f.op == "fn":
            id, args = f.args
            ct = ctor_of(self.F, id)
            if ct:
                return [(st, Adt(ct[0], ct[1], *argv))]
            c2 = CallCtx(self, ctx.fr, ctx.span, ctx.dty, ctx.argt, ctx.mac)
            return self.call_def(st, id, args, argv, c2, {"def": id, "args": args})
        if f.op == "pyfn":
            return PYFN[f.args[0]](self, st, argv, ctx)
        return self.opaque_call(st, "apply", [f] + list(argv), ctx, known=True)

    # ---------- loops
    def loop(self, fr, head, st):
        """-> (return states, {exit bb: [states]})"""
        L = fr.info.loops[head]
        rets, exits = [], {}
        pending = [(st, 0)]
        while pending:
            s0, n = pending.pop()
            base = s0.copy()
            lf = {"fid": fr.fid, "exit_switches": L["exit_switches"], "first": None, "forks": self.forks}
            self.loopframes.append(lf)
            obl_save = dict(self.obl)
            obl_vals = {k: (o.ok, o.why, o.n) for k, o in self.obl.items()}
            uid = self.uid
            self.skips_push()
            try:
                r, ex, backs = self.region(fr, {head: [s0.copy()]}, L["blocks"], head)
            finally:
                self.loopframes.pop()
                self.skips_pop()
            if not backs:
                rets += r
                for b, ss in ex.items():
                    exits.setdefault(b, []).extend(ss)
                continue
            if lf["first"] != "forked" and n < UNROLL and self.progress(fr, head, base, backs):
                # the loop test was decided: unroll
                rets += r
                for b, ss in ex.items():
                    exits.setdefault(b, []).extend(ss)
                for x in self.join(fr, head, backs):
                    pending.append((x, n + 1))
                continue
            # summarise
            self.obl = obl_save
            for k, (ok, why, nn) in obl_vals.items():
                o = self.obl[k]
                o.ok, o.why, o.n = ok, why, nn
            r, ex, re = self.summarise(fr, base, lambda s: self.iterate_mir(fr, head, L, s), live=fr.info.live[head], fid=fr.fid)
            rets += r
            for b, ss in ex.items():
                exits.setdefault(b, []).extend(ss)
            for x in re:
                pending.append((x, 0))
        return rets, exits

    def progress(self, fr, head, base, backs):
        bk = base.key()
        return all(b.key() != bk for b in backs)

    def iterate_mir(self, fr, head, L, s):
        return self.region(fr, {head: [s]}, L["blocks"], head)

    def summarise(self, fr, base, iterate, live=None, fid=None):
        """widen one loop.  iterate(state) -> (rets, {exit: [states]}, back states)"""
        self.uid += 1
        lid = self.uid
        d = self.kdepth
        if live is not None:
            for k in [k for k in base.store if k[0] == fid and k[1] not in live]:
                del base.store[k]
        gen = {}         # loopvar -> (key, path, init)
        gs = base.copy()
        self.kdepth += 1
        K = mk("k", d)
        iters = {}       # itk leaves: (key) -> initial
        info = {"lid": lid, "d": d, "K": K, "counts": {}}
        try:
            for rnd in range(8):
                obl_save = {k: (o.ok, o.why, o.n) for k, o in self.obl.items()}
                self.skips_push()
                try:
                    rets, exits, backs = iterate(gs.copy())
                finally:
                    sk = self.skips_pop()
                moved = self._moved
                backs = backs + [State(dict(gs.store), x.facts, gs.events) for x in sk]
                changed = False
                newstore = dict(gs.store)
                for b in backs:
                    if any(self.moved_on(gs.store.get(k), b.store.get(k)) for k in gs.store):
                        continue        # this state has left the summarised part of its iterator
                    for key in set(gs.store) | set(b.store):
                        if live is not None and key[0] == fid and key[1] not in live:
                            continue
                        o, n = newstore.get(key), b.store.get(key)
                        if o is None or n is None or o is n:
                            if o is None and n is not None and key[0] != "tmp" and not (isinstance(key[0], int)):
                                # first write to an external cell inside the loop
                                base_v = key[1] if key[0] == "ext" else None
                                if base_v is not None:
                                    newstore[key] = base_v
                                    gs.store[key] = base_v
                                    base.store[key] = base_v
                                    o = base_v
                                    if o is n:
                                        continue
                                else:
                                    continue
                            else:
                                continue
                        g = self.generalise(o, n, (lid, key), gen, info, d, ())
                        if g is not o:
                            newstore[key] = g
                            changed = True
                if not changed:
                    # sequences of which iterations only replace elements keep their length
                    fixed = self.same_length(gs, gen, backs, live, fid)
                    if fixed is None:
                        break
                    for lv in fixed:
                        TM.LEN_OF[lv] = Len(gen[lv][2])
                gs = State(newstore, gs.facts, gs.events)
                # drop obligations recorded with the too-specific state
                for k in list(self.obl):
                    if k not in obl_save:
                        del self.obl[k]
                    else:
                        o = self.obl[k]
                        o.ok, o.why, o.n = obl_save[k]
            else:
                raise Imprecise("loop does not stabilise in %s" % (fr.fn if fr else "?"))
            # split back states: iterator exhausted & moved on -> re-enter
            cont, reenter = [], []
            for m in moved:
                for k, v in gs.store.items():
                    if (live is None or k[0] != fid or k[1] in live) and m.store.get(k) is not v and not has_itk_deep(v):
                        raise Imprecise("effects before an iterator moves on")
                reenter.append(State({k: v for k, v in m.store.items() if k in gs.store}, m.facts, m.events))
            for b in backs:
                if any(self.moved_on(gs.store.get(k), b.store.get(k)) for k in gs.store):
                    reenter.append(b)
                else:
                    cont.append(b)
            return self.finish_loop(fr, base, gs, gen, info, rets, exits, cont, reenter, iterate, d)
        finally:
            self.kdepth -= 1

    def same_length(self, gs, gen, backs, live, fid):
        """loop variables not yet known to keep their length, if every iteration only replaces elements of them; None if there are none"""
        ok = {}

        def walk(g, n):
            if g.op == "lv" and g in gen:
                x = n
                while x.op == "updi":
                    x = x.args[0]
                ok[g] = ok.get(g, True) and x is g
                if x is not n:
                    upd.add(g)
                return
            if g is not n and g.op == n.op and len(g.args) == len(n.args):
                for x, y in zip(g.args, n.args):
                    if is_t(x) and is_t(y):
                        walk(x, y)
        upd = set()
        for b in backs:
            for key, g in gs.store.items():
                n = b.store.get(key)
                if n is not None and (live is None or key[0] != fid or key[1] in live):
                    walk(g, n)
        for lv in gen:
            if lv in TM.LEN_OF and not ok.get(lv, True):
                del TM.LEN_OF[lv]
                raise Imprecise("a sequence's length is not kept")
        r = [lv for lv in upd if ok[lv] and lv not in TM.LEN_OF]
        return r or None

    def moved_on(self, g, n):
        if g is None or n is None or g is n:
            return False
        if g.op in ITER_OPS and n.op in ITER_OPS:
            a = [x for x in atoms(g) if x.op == "itk"]
            return bool(a) and not any(x in atoms(n) for x in a)
        if g.op == n.op and g.op in ("adt", "tup", "clo", "cur", "fmtr") and len(g.args) == len(n.args):
            return any(self.moved_on(x, y) for x, y in zip(g.args, n.args) if is_t(x) and is_t(y))
        return False

    def generalise(self, o, n, tag, gen, info, d, path):
        if o is n:
            return o
        if o.op == "lv" and o in gen:
            return o
        if o.op in ITER_OPS:
            return self.gen_iter(o, n, tag, gen, info, d, path)
        if o.op == n.op and o.op in ("adt", "tup", "clo", "cur", "fmtr") and len(o.args) == len(n.args) and \
                (o.op != "adt" or o.args[:2] == n.args[:2]):
            a = []
            for i, (x, y) in enumerate(zip(o.args, n.args)):
                if is_t(x):
                    a.append(self.generalise(x, y, tag, gen, info, d, path + (i,)))
                else:
                    a.append(x)
            return mk(o.op, *a)
        lv = mk("lv", tag[0], repr(tag[1]), path)
        if lv not in gen:
            gen[lv] = (tag[1], path, o)
            if o in TYP:
                TYP[lv] = TYP[o]
            elif n in TYP:
                TYP[lv] = TYP[n]
            elif o.op in ("int", "lin") or n.op in ("int", "lin"):
                ty = TYP.get(o) or TYP.get(n)
                if ty is None:
                    # numeric of unknown width: bounded below if it only grows from a bounded start
                    for x in lin_atoms(n):
                        if x in TYP:
                            ty = TYP[x]
                if ty:
                    TYP[lv] = ty
        return lv

    def gen_iter(self, o, n, tag, gen, info, d, path):
        """the iterator in an arbitrary iteration: position k(d) of its first source"""
        if has_itk(o):
            return o
        g = gen_source(o, d)
        if g is not None:
            return g
        lv = mk("lv", tag[0], repr(tag[1]), path)
        gen.setdefault(lv, (tag[1], path, o))
        return lv

    def finish_loop(self, fr, base, gs, gen, info, rets, exits, cont, reenter, iterate, d):
        K = info["K"]
        # 1. collect the next value of each loop variable in each continuing state
        nexts = {lv: [] for lv in gen}

        def walk(g, n, st):
            if g.op == "lv" and g in nexts:
                nexts[g].append((st, n))
                return
            if g is n:
                return
            if g.op == n.op and len(g.args) == len(n.args):
                for x, y in zip(g.args, n.args):
                    if is_t(x) and is_t(y):
                        walk(x, y, st)
        for b in cont:
            for key, g in gs.store.items():
                n = b.store.get(key)
                if n is not None:
                    walk(g, n, b)
        # 2. counters
        sub1 = {}
        cls = {}
        for lv, (key, path, init) in gen.items():
            ns = nexts[lv]
            vals = [v for _, v in ns]
            if not vals:
                cls[lv] = ("const",)
                continue
            steps = set()
            okc = True
            for v in vals:
                s = sub(v, lv) if (v.op in ("lv", "lin", "int") or v in TYP) else None
                if s is None or s.op != "int":
                    okc = False
                    break
                steps.add(s.args[0])
            if okc and len(steps) == 1:
                cls[lv] = ("counter", steps.pop())
                continue
            cls[lv] = None
        # number of iterations
        count = self.loop_count(gs, gen, cls, cont, base, d)
        for lv, c in cls.items():
            if c and c[0] == "counter":
                sub1[lv] = add(gen[lv][2], scale(K, c[1]))
            elif c and c[0] == "const":
                sub1[lv] = gen[lv][2]
        # 3. accumulators
        ren = lambda t: subst(t, sub1) if sub1 else t
        guards = []
        for b in cont:
            g = [ren(f) for f in b.facts - gs.facts if f.op != "assumed" and mk("assumed", f) not in b.facts]
            g = frozenset(f for f in g if f.op != "int" and not (f.op == "le0" and self.is_domain_fact(f, K, count)))
            guards.append(g)
        lvset = set(gen)
        lvs = [lv for lv in gen if not cls[lv]]

        def lvs_in(t):
            return {x for x in atoms(t) if x in lvset and not cls[x]}

        def part_lvs(x):
            out = set()
            for t in TM._ch(x):
                out |= lvs_in(t)
            return out

        def clean(t):
            return not any(x in lvset for x in atoms(t))
        exact, deps = {}, {}
        for lv in lvs:
            ns = [(i, ren(v)) for i, b in enumerate(cont) for s, v in nexts[lv] if s is b]
            cases = []
            kind = None
            for i, v in ns:
                if v is lv:
                    cases.append((guards[i], ()))
                    continue
                ps = seq_parts(v)
                if v.op == "seq" and ps and ps[0] is lv and not any(lv in atoms(p) for p in ps[1:]) and kind in (None, "seq"):
                    kind = "seq"
                    cases.append((guards[i], tuple(ps[1:])))
                    continue
                if kind in (None, "sum") and v.op == "lin" and dict(lin_parts(v)[1]).get(lv) == 1:
                    s = sub(v, lv)
                    if lv not in atoms(s):
                        kind = "sum"
                        cases.append((guards[i], s))
                        continue
                kind = "bad"
                break
            if kind == "seq":
                exact[lv] = ("seq", self.merge_cases(cases))
            elif kind == "sum":
                exact[lv] = ("sum", self.merge_cases([(g, (c if c != () else ZERO)) for g, c in cases]))
            elif kind is None and cases:
                exact[lv] = ("same", ())
            else:
                vals = [v for _, v in ns]
                if vals and lv in TM.LEN_OF and all(v is lv or v.op == "updi" and v.args[0] is lv and v.args[1] is K for v in vals) and \
                        not any(lv in atoms(self_less(v, lv, K, gen[lv][2])) for v in vals) and \
                        not any(lv in atoms(f) for g in guards for f in g):
                    # element k is replaced in iteration k only
                    exact[lv] = ("map", self.merge_cases([(guards[i], (TM.item(self_less(v, lv, K, gen[lv][2])),)) for i, v in ns]))
                elif vals and len(set(vals)) == 1 and lv not in atoms(vals[0]):
                    exact[lv] = ("last", vals[0])
                else:
                    exact[lv] = ("mu", self.merge_cases([(guards[i], v) for i, v in ns]))
            deps[lv] = part_lvs(exact[lv][1])
        # variables that depend on each other form one recurrence
        reach = {lv: set(deps[lv]) for lv in lvs}
        ch = True
        while ch:
            ch = False
            for lv in lvs:
                for x in list(reach[lv]):
                    if not reach[x] <= reach[lv]:
                        reach[lv] |= reach[x]
                        ch = True
        group = {}
        for lv in lvs:
            if lv in reach[lv] and exact[lv][0] != "mu":
                ns = [(i, ren(v)) for i, b in enumerate(cont) for s, v in nexts[lv] if s is b]
                exact[lv] = ("mu", self.merge_cases([(guards[i], v) for i, v in ns]))
                deps[lv] = part_lvs(exact[lv][1])
        for lv in lvs:
            if exact[lv][0] == "mu":
                group[lv] = tuple(sorted([x for x in lvs if x in reach[lv] and lv in reach[x] or x is lv], key=lambda z: z.id))
        vmemo = {}

        def at_k(x):
            """replace loop variables in a term / tuple by their value at iteration K"""
            ls = part_lvs(x)
            if not ls:
                return x
            m = {l: val_at(l, K) for l in ls}
            return TM._sub_arg(x, m, {}, frozenset(m))

        def val_at(lv, n):
            r = vmemo.get((lv, n))
            if r is not None:
                return r
            init = gen[lv][2]
            kind, body = exact[lv]
            if kind == "seq":
                r = Seq(init, Rep(d, n, at_k(body)))
            elif kind == "sum":
                r = add(init, mk_sum(d, n, at_k(body)))
            elif kind == "map":
                whole = norm_len_eq(n, Len(init), base.facts)
                r = Seq(Rep(d, n, at_k(body)), *([] if whole else [TM.Slice(init, n, Len(init))]))
            elif kind == "same":
                r = init
            elif kind == "last":
                v = at_k(body)
                r = TM.LastOf(d, n, init, v)
            else:
                grp = group[lv]
                m = {x: mk("self", d, i) for i, x in enumerate(grp)}
                for x in grp:
                    for y in deps[x]:
                        if y not in m:
                            m[y] = val_at(y, K)
                bodies = tuple(TM._sub_arg(exact[x][1], m, {}, frozenset(m)) for x in grp)
                r = TM.Mu(d, n, grp.index(lv), tuple(gen[x][2] for x in grp), bodies)
            if lv in TYP and r.op not in ("int", "lin"):
                TYP.setdefault(r, TYP[lv])
            vmemo[(lv, n)] = r
            return r
        guards = [frozenset(at_k(tuple(g))) for g in guards]
        # events
        evcases = []
        for i, b in enumerate(cont):
            new = tuple(at_k(tuple(ren(e) for e in b.events[len(gs.events):])))
            evcases.append((guards[i], new))
        evcases = self.merge_cases(evcases)
        has_ev = any(e for g, e in evcases)
        allfact = None
        early = bool(rets) or sum(1 for ss in exits.values() for _ in ss) > 1
        if cont and early:
            allfact = True

        def final_map(s, n):
            m = {}
            for lv, (key, path, init) in gen.items():
                c = cls[lv]
                if c and c[0] == "counter":
                    m[lv] = add(init, scale(n, c[1]))
                elif c and c[0] == "const":
                    m[lv] = init
                else:
                    m[lv] = val_at(lv, n)
            return m

        contguards = tuple(sorted({tuple(sorted(g, key=lambda z: z.id)) for g in guards}, key=lambda g: [x.id for x in g]))
        unbounded = count.op == "iters"
        if unbounded:
            count = mk("first", d, mk("inf"), contguards)
            TYP.setdefault(count, "usize")

        def close(s, mid):
            """leave the loop from state s; mid: inside an iteration"""
            if mid:
                kb = count if unbounded else mk("first", d, count, contguards)
                TYP.setdefault(kb, "usize")
                m = final_map(s, kb)
                m[K] = kb
                extra = [le0(add(sub(kb, count), ONE))] if not unbounded else []
            else:
                m = final_map(s, count)
                m[K] = count
                extra = []
            memo = {}
            keyset = frozenset(m)
            store = {k: TM._subst(v, m, memo, keyset) for k, v in s.store.items()}
            facts = set()
            for f in s.facts:
                f2 = TM._subst(f, m, memo, keyset)
                if f2 is TRUE:
                    continue
                if f2 is FALSE:
                    # only through substitution of a summarised value: infeasible exit
                    return None
                facts.add(f2)
            facts |= {x for x in extra if x.op != "int"}
            if not mid and allfact:
                facts.add(mk("all", d, count, contguards))
            if mid and allfact and False:
                pass
            pre = tuple(s.events[:len(gs.events)])
            new = tuple(TM._subst(e, m, memo, keyset) for e in s.events[len(gs.events):])
            evs = pre
            if has_ev:
                evs = evs + (mk("evrep", d, m[K], tuple((tuple(sorted(g, key=lambda z: z.id)) if isinstance(g, frozenset) else g, e) for g, e in evcases)),)
            return State(store, frozenset(facts), evs + new)

        def is_mid(s):
            return any(f not in gs.facts and (has_k(f, d) or self.mentions_counter(f, gen, cls)) and self.is_entry_fact(f, K, count, sub1) for f in s.facts)

        def in_iter(s):
            # a state that is inside iteration k: the loop's own continuation test held
            if unbounded:
                return None
            return entails(frozenset(ren(f) for f in s.facts), lt(K, count)) is True
        out_r, out_e, out_re = [], {}, []
        for s in rets:
            mi = in_iter(s)
            x = close(s, True if mi is None else mi)
            if x is not None:
                out_r.append(x)
        for b, ss in exits.items():
            for s in ss:
                mi = in_iter(s)
                if mi is None:
                    mi = True
                x = close(s, mi)
                if x is not None:
                    out_e.setdefault(b, []).append(x)
        for s in reenter:
            x = close(s, False)
            if x is not None:
                out_re.append(x)
        return out_r, out_e, out_re

    def mentions_counter(self, f, gen, cls):
        return any(x in gen and cls.get(x) and cls[x][0] == "counter" for x in atoms(f))

    def is_entry_fact(self, f, K, count, sub1):
        return True

    def is_domain_fact(self, f, K, count):
        l = f.args[0]
        return l is add(sub(K, count), ONE) or l is scale(K, -1)

    def merge_cases(self, cases):
        """[(guard set, parts)] -> canonical tuple; guards kept only when they separate different parts"""
        by = {}
        if not cases:
            return (((), ()),)
        for g, p in cases:
            by.setdefault(p, []).append(g)
        if len(by) == 1:
            p = next(iter(by))
            return (((), p),)
        out = []
        for p, gs in by.items():
            fs = exact_merge(list(dict.fromkeys(gs)))
            if len(fs) > 24:
                fs = [frozenset.intersection(*fs) | {LOSSY}]
            out.extend((g, p) for g in fs)
        common = frozenset.intersection(*[g for g, _ in out]) - {LOSSY}
        out = [(tuple(sorted(g - common, key=lambda z: z.id)), p) for g, p in out]
        out.sort(key=lambda c: tuple(x.id for x in c[0]))
        return tuple(out)

    def loop_count(self, gs, gen, cls, cont, base, d):
        """iterations of a completed loop, from its iterators or its counter test"""
        counts = []
        for v in gs.store.values():
            for x in atoms(v):
                if x.op == "itk" and x.args[1] == d:
                    counts.append(Len(x.args[0]))
        if counts:
            # zip: the shortest
            c = counts[0]
            for y in counts[1:]:
                if y is not c:
                    e = entails(base.facts, int_eq(c, y))
                    if e is not True:
                        c = tmin(c, y)
            return c
        for lv, c in cls.items():
            if c and c[0] == "counter" and c[1] in (1, -1):
                step = c[1]
                init = gen[lv][2]
                # a fact lv - n <= -1 common to all continuing states, n invariant
                for f in (frozenset.intersection(*[b.facts for b in cont]) if cont else ()):
                    if f.op == "le0":
                        l = f.args[0]
                        ks = dict(lin_parts(l)[1])
                        k = ks.get(lv)
                        if k == step and not any(x in gen for x in atoms(sub(l, scale(lv, k)))):
                            # k*lv + rest <= 0 ; lv = init + step*K
                            # K <= -rest - k*init  ->  count = -rest - k*init + 1
                            restl = sub(l, scale(lv, k))
                            n = add(sub(scale(restl, -1), scale(init, k)), ONE)
                            # a loop entered with init past the bound runs zero times
                            if entails(base.facts, le(ZERO, n)) is True:
                                return n
                            return tmax(ZERO, n)
        return mk("iters", d, self.uid)


ITER_OPS = {"it", "itk", "range", "rangeinc", "map", "enum", "zip", "chain", "filter", "fmap", "rev_it", "skipwhile", "takewhile", "flatmap", "stepit", "peek", "once_it", "scan"}
PYFN = {}


def gen_source(o, d):
    k = o.op
    if k == "it":
        xs = o.args[0]
        if xs.op == "refs":
            return mk("itk", xs, d, EMPTY)
        ps = seq_parts(xs)
        # iterate over the first spread part, keep the rest
        if ps and ps[0].op not in ("item",):
            return mk("itk", ps[0], d, Seq(*ps[1:]))
        return mk("itk", xs, d, EMPTY)
    if k == "itr":
        if o.args[1] is ZERO:
            return mk("itk", o.args[0], d, EMPTY)
        return None
    if k == "range":
        return mk("itk", mk("rangeseq", o.args[0], o.args[1]), d, EMPTY)
    if k == "enum":
        g = gen_source(o.args[0], d)
        return g and mk("enum", g, add(o.args[1], mk("k", d)))
    if k == "chain":
        g = gen_source(o.args[0], d)
        return g and mk("chain", g, o.args[1])
    if k in ("map", "mapwhile", "filter", "fmap", "takewhile", "zip", "flatmap"):
        a = []
        for x in o.args:
            if is_t(x) and x.op in ITER_OPS:
                x = gen_source(x, d)
                if x is None:
                    return None
            a.append(x)
        return mk(k, *a)
    return None


def has_itk(t):
    return t.op == "itk" or any(is_t(a) and a.op in ITER_OPS and has_itk(a) for a in t.args)


def has_itk_deep(t):
    return any(a.op == "itk" for a in atoms(t))


def mk_sum(d, n, cases):
    if len(cases) == 1:
        p = cases[0][1]
        if p.op == "int":
            return scale(n, p.args[0])
        # linear: split constants and invariant terms out
        c, ps = lin_parts(p)
        if c or any(not has_k(t, d) for t, k in ps) or len(ps) > 1:
            r = scale(n, c)
            for t, k in ps:
                if not has_k(t, d):
                    r = add(r, scale(mul(n, t), k))
                else:
                    r = add(r, scale(mk("sum", d, n, (((), t),)), k))
            return r
    return mk("sum", d, n, cases)


class CallCtx:
    __slots__ = ("I", "fr", "span", "dty", "argt", "mac", "args", "key", "def_", "rid", "rargs", "lk")

    def __init__(self, I, fr, span, dty, argt, mac=None):
        self.I, self.fr, self.span, self.dty, self.argt, self.mac = I, fr, span, dty, argt, mac
        self.args = ()
        self.key = None
        self.rid = self.rargs = self.lk = None
        self.def_ = None


def elem_ty(ty):
    while ty[0] == "ref":
        ty = ty[2]
    if ty[0] in ("slice", "array"):
        return ty[1]
    if ty[0] == "adt" and ty[2]:
        return ty[2][0]
    return ty


# values seen first as slices or vectors: that some path copies them into an array says nothing
# about their length elsewhere
UNSIZED = set()


def note_type(v, ty):
    while ty and ty[0] == "ref":
        ty = ty[2]
    if not ty:
        return
    if ty[0] == "p":
        if ty[1] in TM.RANGES and v.op not in ("int", "lin", "le0", "eq0", "not", "eq", "isv", "band", "ref"):
            TM.TYP.setdefault(v, ty[1])
    elif ty[0] == "array" and v.op not in ("seq", "repeat", "le", "be"):
        n = ty[2]
        if isinstance(n, tuple) and n and n[0] == "const":
            n = n[1]
        if isinstance(n, int) and v not in TM.LEN_OF and v not in UNSIZED:
            TM.LEN_OF[v] = Int(n)
    elif ty[0] in ("slice", "adt"):
        UNSIZED.add(v)


STATS = {"lossy": 0}
COW = "alloc::borrow::Cow"
MERGE_X = 1             # a check may ask for more alternatives to be kept apart
LOSSY = mk("lossy")      # marks a path whose facts are weaker than what is known


def _mget(m, k, facts):
    import models
    return models.mget(m, k, facts)


def merge_group(ss, limit):
    """states equal but for their facts: merge exactly where possible (subsumption, complementary
    facts), and lossily only beyond `limit` alternatives"""
    if len(ss) == 1:
        return ss
    fs = []
    for s in ss:
        if s.facts not in fs:
            fs.append(s.facts)
    fs = exact_merge(fs)
    if len(fs) > limit * MERGE_X:
        STATS["lossy"] += 1
        m = fs[0]
        for f in fs[1:]:
            m = merge_facts(m, f)
        fs = [m | {LOSSY}]
    st = ss[0]
    return [State(dict(st.store) if i else st.store, f, st.events) for i, f in enumerate(fs)]


def exact_merge(fs):
    """sets of facts with the same disjunction, fewer of them where possible"""
    ch = True
    while ch and len(fs) > 1:
        ch = False
        for i in range(len(fs)):
            for j in range(len(fs)):
                if i == j:
                    continue
                a, b = fs[i], fs[j]
                if a <= b:
                    fs.pop(j)
                    ch = True
                    break
                m = exact_union(a, b)
                if m is not None:
                    fs[i] = m
                    fs.pop(j)
                    ch = True
                    break
            if ch:
                break
    return fs


def exact_union(a, b):
    """facts equivalent to a or b, when the two differ only by one split"""
    da, db = a - b, b - a
    if not da or not db:
        return None
    # one literal of `a` is the negation of one of `b`; everything else each implies
    for x in da:
        nx = Not(x)
        if nx in db:
            c = a & b
            ra, rb = da - {x}, db - {nx}
            # a = c+x+ra, b = c+nx+rb : exact when ra and rb are implied by the other side, or by c
            if all(entails(b, f) is True for f in ra) and all(entails(a, f) is True for f in rb):
                return c | ra | rb
    return None


def merge_facts(a, b):
    if a == b:
        return a
    r = set(a & b)
    for x, y in ((a, b), (b, a)):
        for f in x - r:
            if f.op in ("le0", "not", "isv") and entails(y, f) is True:
                r.add(f)
    return frozenset(r)


def ctor_of(F, id):
    """(adt, variant) when id names a tuple constructor"""
    c = CTORS.get(id)
    if c is None:
        d = F.defs.get(id)
        k = (d or {}).get("kind", "")
        c = False
        if k.startswith("Ctor") or (d is None and id not in F.fns) or "Ctor" in k:
            base = id[:-len("::{constructor#0}")] if id.endswith("::{constructor#0}") else id
            for cand in (base, id):
                if cand in F.adts:
                    c = (cand, 0)
                p, _, v = cand.rpartition("::")
                a = F.adts.get(p)
                if a and not c:
                    for i, x in enumerate(a["variants"]):
                        if x["name"] == v:
                            c = (p, i)
        CTORS[id] = c
    return c or None


CTORS = {}


class BodyInfo:
    """CFG facts of one body: RPO, natural loops, liveness"""

    def __init__(self, body):
        bls = body["blocks"]
        n = len(bls)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bls):
            if b.get("cu"):
                continue
            self.succ[i] = [s for s in succs(b["t"]) if s is not None and not bls[s].get("cu")]
        order, seen = [], set()
        # iterative DFS postorder
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                preds[s].append(b)
        self.preds = preds
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.rpo[x] > self.rpo[y]:
                                    x = idom[x]
                                while self.rpo[y] > self.rpo[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.dom = dom
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if dom(s, b):
                    L = self.loops.setdefault(s, {"blocks": {s}})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in L["blocks"]:
                            L["blocks"].add(x)
                            st.extend(preds[x])
        dead = self.dead_ends(bls)
        for h, L in self.loops.items():
            L["exit_switches"] = {b for b in L["blocks"] if bls[b]["t"][0] == "switch" and
                                  any(s not in L["blocks"] and s not in dead for s in self.succ[b])}
        # liveness of locals (any mention is a use; a whole-local assignment is a def)
        use, deff = [set() for _ in range(n)], [set() for _ in range(n)]
        borrowed = set()
        for i in order:
            u, d = use[i], deff[i]
            for s in bls[i]["s"]:
                if s[0] == "=":
                    mentions(s[2], u, d)
                    if s[2][0] in ("ref", "rawptr") and s[2][1]:
                        borrowed.add(s[2][2][0])
                    pl = s[1]
                    if len(pl) == 1:
                        if pl[0] not in u:
                            d.add(pl[0])
                    else:
                        mention_place(pl, u, d)
                elif s[0] == "setd":
                    mention_place(s[1], u, d)
            t = bls[i]["t"]
            if t[0] == "call":
                for a in t[2]:
                    mention_op(a, u, d)
                if "op" in t[1]:
                    mention_op(t[1]["op"], u, d)
                if len(t[3]) == 1:
                    if t[3][0] not in u:
                        d.add(t[3][0])
                else:
                    mention_place(t[3], u, d)
            elif t[0] in ("switch", "assert"):
                mention_op(t[1], u, d)
            elif t[0] == "return":
                if 0 not in d:
                    u.add(0)
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                x = use[b] | (o - deff[b])
                if x != live[b]:
                    live[b] = x
                    ch = True
        # a local whose address was taken mutably stays live
        for b in order:
            live[b] |= borrowed
        self.live = live

    def dead_ends(self, bls):
        """blocks from which no return is reachable (panics)"""
        good = {b for b in self.order if bls[b]["t"][0] == "return"}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b not in good and any(s in good for s in self.succ[b]):
                    good.add(b)
                    ch = True
        # infinite loops count as alive too
        return {b for b in self.order if b not in good and not self.succ[b]}


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]]
    if k == "assert":
        return [t[4]]
    return []


def mention_op(o, u, d):
    pl = o.get("c") or o.get("m")
    if pl:
        mention_place(pl, u, d)


def self_less(v, lv, k, init):
    """the new element of an iteration that replaces element k: what it reads there is the initial one"""
    if v is lv:
        return TM.Idx(init, k)
    return subst(v.args[2], {mk("idx", lv, k): TM.Idx(init, k)})


def norm_len_eq(a, b, facts):
    return a is b or entails(facts, TM.int_eq(a, b)) is True


def mention_place(pl, u, d):
    if pl[0] not in d:
        u.add(pl[0])
    for s in pl[1:]:
        if s[0] == "i" and s[1] not in d:
            u.add(s[1])


def mentions(rv, u, d):
    k = rv[0]
    if k in ("ref", "rawptr", "reborrow"):
        mention_place(rv[2], u, d)
    elif k in ("discr", "copyderef"):
        mention_place(rv[1], u, d)
    else:
        for x in rv[1:]:
            if isinstance(x, dict):
                mention_op(x, u, d)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, dict):
                        mention_op(y, u, d)


# ---------------------------------------------------------------- skips (filtered iterations) and allocation sites
def _skips_push(self):
    self._skipstack.append([])


def _skips_pop(self):
    r = self._skipstack.pop()
    self._moved = [s for s, m in r if m]
    return [s for s, m in r if not m]


def _moved(self, s):
    if not self._skipstack:
        raise Imprecise("chained iterator outside a loop")
    self._skipstack[-1].append((s, True))


Interp.moved = _moved


class _Skips:
    def __init__(self, I):
        self.I = I

    def append(self, s):
        if not self.I._skipstack:
            raise Imprecise("filter outside a loop")
        self.I._skipstack[-1].append((s, False))


def _alloc(self, ctx, n, st):
    self.allocs.append((ctx.fr.fn if ctx.fr else "?", ctx.span, n, st.facts))


Interp.skips_push = _skips_push
Interp.skips_pop = _skips_pop
Interp.skips = property(lambda self: _Skips(self))
Interp.alloc = _alloc
