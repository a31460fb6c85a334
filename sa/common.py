"""Shared machinery of the checks: running the analysis, comparing a summary with its
specification, recording obligations, evidence, known findings."""
import json, os, re, signal, sys, time, traceback
from terms import *
import terms as TM
import interp as IT
from interp import Interp, Imprecise, entails, assume_facts, upper
from analyse import analyse, load_facts

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

ANY = mk("any")


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def wild(i):
    """a wildcard that must match the same term everywhere it occurs in one pattern"""
    return mk("wild", i)


# ---------------------------------------------------------------- normalisation under facts
def norm(t, facts, memo=None):
    """t simplified by what the path facts say"""
    if memo is None:
        memo = {}
        memo["eqs"] = equalities(facts)
    r = memo.get(t)
    if r is not None:
        return r
    q = memo["eqs"].get(t)
    if q is not None:
        r = q if q.op == "int" else norm(q, facts, memo)
        memo[t] = r
        return r
    if t.op in ("int", "str", "var", "k", "any", "wild"):
        r = t
    elif t.op in TM.BINDERS:
        r = t          # facts about the outside do not simplify inside a binder except the count
        r = rebuild(t.op, tuple(_na(a, facts, memo) if i != 0 else a for i, a in enumerate(t.args)), t)
    else:
        r = rebuild(t.op, tuple(_na(a, facts, memo) for a in t.args), t)
        if r is not t:
            r = memo["eqs"].get(r, r)
    if r.op == "eq0":
        # one spelling for "a quantity that cannot be negative is zero"
        if TM.lo_bound(r.args[0]) == 0:
            r = TM.le0(r.args[0])
        elif TM.hi_bound(r.args[0]) == 0:
            r = TM.le0(scale(r.args[0], -1))
    if is_bool(r) and r.op != "int":
        e = entails(facts, r)
        if e is None and r.op == "eq":
            e = same_elements(r.args[0], r.args[1], facts)
        if e is not None:
            r = TRUE if e else FALSE
    elif r.op == "seq":
        ps = [p for p in r.args if p.op == "item" or entails(facts, le(TM.part_len(p), ZERO)) is not True]
        if len(ps) < len(r.args):
            r = Seq(*ps)
    elif r.op == "trunc" and r.args[0] in TM.RANGES:
        lo, hi = TM.RANGES[r.args[0]]
        u = upper(r.args[1], facts)
        l = upper(scale(r.args[1], -1), facts)
        if u is not None and u <= hi and l is not None and -l >= lo:
            r = r.args[1]
    elif r.op == "min" and len(r.args) == 2:
        for a, b in (r.args, r.args[::-1]):
            u = upper(sub(a, b), facts)
            if u is not None and u <= 0:
                r = a
                break
    elif r.op == "max" and len(r.args) == 2:
        for a, b in (r.args, r.args[::-1]):
            u = upper(sub(a, b), facts)
            if u is not None and u <= 0:
                r = b
                break
    memo[t] = r
    return r


def same_elements(a, b, facts):
    """what the facts about lengths and elements of two sequences say about their equality"""
    if not isinstance(a, T) or not isinstance(b, T):
        return None
    idx = set()
    loops = []
    for f in facts:
        if f.op == "all":
            loops.append(f)
            continue
        for x in atoms(f):
            if x.op == "idx" and x.args[0] in (a, b):
                idx.add(x.args[1])
    long = any(x in (TM.Len(a), TM.Len(b)) for f in facts for x in atoms(f))
    if not idx and not loops and not long:
        return None
    n = TM.int_eq(TM.Len(a), TM.Len(b))
    l = True if n is TRUE else False if n is FALSE else entails(facts, n)
    if l is False:
        return False
    for i in idx:
        if (i.op == "first" or not any(x.op == "k" for x in atoms(i))) and entails(facts, TM.int_eq(TM.Idx(a, i), TM.Idx(b, i))) is False:
            return False
    if l is True:
        for f in loops:
            k = mk("k", f.args[0])
            e = TM.int_eq(TM.Idx(a, k), TM.Idx(b, k))
            if all(e in alt for alt in f.args[2]) and any(m is f.args[1] or entails(facts, le(m, f.args[1])) is True for m in (TM.Len(a), TM.Len(b))):
                return True
    return None


def with_consequences(fs):
    """the facts, and what the ones about composite quantities become when the equalities among them are used"""
    eqs = frozenset(f for f in fs if f.op in ("eq0", "eq"))
    if not eqs:
        return fs
    for f in fs:
        if f.op == "le0" and any(x.op in ("min", "max", "shl", "shr") for x in atoms(f)):
            g = norm(f, eqs)
            if g is not f and g.op == "le0":
                fs = fs | {g}
    return fs


def normfix(t, facts):
    for _ in range(4):
        r = norm(t, facts)
        if r is t:
            break
        t = r
    return t


def _na(a, facts, memo):
    if isinstance(a, T):
        return norm(a, facts, memo)
    if isinstance(a, tuple):
        return tuple(_na(x, facts, memo) for x in a)
    return a


def equalities(facts):
    """orient the equalities known on a path as rewrite rules"""
    eqs = {}

    def cyclic(t, rest):
        seen, st = set(), [rest]
        while st:
            for x in atoms(st.pop()):
                if x is t:
                    return True
                if x in eqs and x not in seen:
                    seen.add(x)
                    st.append(eqs[x])
        return False
    for f in facts:
        if f.op == "eq0" or (f.op == "le0" and (TM.lo_bound(f.args[0]) == 0)):
            l = f.args[0]
            c, ps = lin_parts(l)
            if len(ps) == 1 and abs(ps[0][1]) == 1:
                eqs[ps[0][0]] = Int(-c * ps[0][1])
            elif ps:
                # the biggest atom is defined by the others
                for t, k in sorted(ps, key=lambda x: (x[0].op != "len", -x[0].id)):
                    if abs(k) == 1 and t not in eqs:
                        rest = scale(sub(l, scale(t, k)), -k)
                        if not cyclic(t, rest):
                            eqs[t] = rest
                            break
        elif f.op == "eq":
            a, b = f.args
            if a.op in ("int", "str") or (a.op == "seq" and all(p.op == "item" and p.args[0].op == "int" for p in a.args)):
                a, b = b, a
            if not cyclic(a, b):
                eqs[a] = b
        elif f.op == "isv":
            # unit variants
            t, adt, vi = f.args
            if TM.ADT_NFIELDS.get((adt, vi), 1) == 0:
                eqs[t] = mk("adt", adt, vi)
        elif f.op == "not" and f.args[0].op == "isv" and f.args[0].args[2] == 0:
            # the other of two variants
            t, adt, vi = f.args[0].args
            if (adt, 2) not in TM.ADT_NFIELDS and TM.ADT_NFIELDS.get((adt, 1), 1) == 0:
                eqs[t] = mk("adt", adt, 1)
    # single-element sequences etc. are left alone
    return eqs


# ---------------------------------------------------------------- comparison
FUZZY = {"uninit", "mu", "first", "write", "ev", "un", "bin", "pred", "lv", "self", "unknown", "constant", "table"}


def fuzzy(t, vocab, calls):
    """does the term contain something whose meaning the analysis does not know?"""
    for x in atoms(t):
        if x.op in FUZZY and x not in vocab:
            return x
        if x.op == "call" and x not in vocab and x.args[0] not in calls:
            return x
    return None


def apart_at(got, want, fs, vocab, calls, depth=0):
    """a part of the value that is known and is not what was specified, whatever the rest of it is: (got, want), or None"""
    if got is want or want is ANY or want.op == "wild" or depth > 24 or match_under(want, got, fs):
        return None

    def known(t):
        return fuzzy(t, vocab, calls) is None

    def parts(ps):
        for g, w in ps:
            if is_t(g) and is_t(w):
                r = apart_at(g, w, fs, vocab, calls, depth + 1)
                if r is not None:
                    return r
        return None
    if got.op == "adt":
        ty, v = got.args[:2]
        if want.op == "adt":
            if want.args[:2] != got.args[:2]:
                return (got, want) if want.args[0] == ty else None
            return parts(zip(got.args[2:], want.args[2:]))
        if want.op in FUZZY or not (entails(fs, TM.isv(want, ty, v)) is True or v == 0 and ty in TM.ADT_NAMES and len(TM.ADT_NAMES[ty][1]) == 1):
            return None
        return parts((g, TM.Fld(want, ty, v, i)) for i, g in enumerate(got.args[2:]))
    if got.op == "tup":
        if want.op == "tup" and len(want.args) != len(got.args) or want.op in FUZZY:
            return None
        return parts((g, want.args[i] if want.op == "tup" else TM.TFld(want, i)) for i, g in enumerate(got.args))
    if got.op == "rep" or got.op == "seq" and len(got.args) == 1 and got.args[0].op == "rep":
        if want.op in ("var", "fld", "tfld", "idx"):
            r = got if got.op == "rep" else got.args[0]
            d, n, cases = r.args
            if not all(len(ps) == 1 and ps[0].op == "item" for gs, ps in cases):
                ln = canon(norm(TM.Len(got), fs))
                return (ln, TM.Len(want)) if known(ln) and ln is not canon(norm(TM.Len(want), fs)) else None
            ln, wl = canon(norm(n, fs)), canon(norm(TM.Len(want), fs))
            if ln is not wl:
                return (ln, wl) if known(ln) and entails(fs, TM.eq0(TM.sub(ln, wl))) is not True else None
            k = mk("k", d)
            for gs, ps in cases:
                if all(known(g) for g in gs):
                    fs2 = fs
                    for g in gs + (lt(k, n),):
                        fs2 = assume_facts(fs2, g) if fs2 is not None else None
                    if fs2 is not None and not contradictory(fs2):
                        r = apart_at(ps[0].args[0], TM.Idx(want, k), fs2, vocab, calls, depth + 1)
                        if r is not None:
                            return r
        return None
    return (got, want) if known(got) and known(want) and not any(x.op in ("rep", "repeat", "cat") for x in atoms(got) | atoms(want)) else None


MATCH_FACTS = frozenset()


def variant_known(t, adt, v):
    if entails(MATCH_FACTS, TM.isv(t, adt, v)) is True or v == 0 and adt in TM.ADT_NAMES and len(TM.ADT_NAMES[adt][1]) == 1:
        return True
    # a type of two variants: not the other one
    return adt in (TM.OPTION, TM.RESULT) and entails(MATCH_FACTS, TM.isv(t, adt, 1 - v)) is False


def match_under(p, t, facts):
    global MATCH_FACTS
    MATCH_FACTS = facts
    try:
        return match(p, t, {})
    finally:
        MATCH_FACTS = frozenset()


def match(p, t, env):
    if p is ANY:
        return True
    if p is t:
        return True
    if p.op == "wild":
        if p in env:
            return env[p] is t
        env[p] = t
        return True
    if p.op == "adt" and t.op != "adt" and variant_known(t, p.args[0], p.args[1]):
        # a value known to be of the variant asked for is compared field by field
        return all(match(q, TM.Fld(t, p.args[0], p.args[1], i), env) for i, q in enumerate(p.args[2:]))
    if t.op == "adt" and p.op != "adt" and variant_known(p, t.args[0], t.args[1]):
        return all(match(TM.Fld(p, t.args[0], t.args[1], i), q, env) for i, q in enumerate(t.args[2:]))
    if p.op != t.op or len(p.args) != len(t.args):
        return False
    return all(_ma(a, b, env) for a, b in zip(p.args, t.args))


def _ma(a, b, env):
    if isinstance(a, T):
        return isinstance(b, T) and match(a, b, env)
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(_ma(x, y, env) for x, y in zip(a, b))
    return a == b


_canon = {}


def canon(t):
    """t with every bound iteration index named by the height of its binder, so that equal folds are equal terms"""
    return _cn(t)[0]


def _cn(t):
    r = _canon.get(t)
    if r is not None:
        return r
    if not t.args or not any(isinstance(a, (T, tuple)) for a in t.args):
        r = (t, 0)
    else:
        h, out = 0, []
        for a in t.args:
            b, g = _cna(a)
            h = max(h, g)
            out.append(b)
        if t.op in TM.BINDERS:
            d, nd = t.args[0], 1000 + h
            m = {mk("k", d): mk("k", nd), mk("self", d): mk("self", nd)}
            for i in range(8):
                m[mk("self", d, i)] = mk("self", nd, i)
                if TYP.get(mk("self", d, i)):
                    TYP.setdefault(mk("self", nd, i), TYP[mk("self", d, i)])
            out = [nd, out[1]] + [_sub_any(a, m) for a in out[2:]]
            h += 1
        if all(x is y for x, y in zip(out, t.args)):
            r = (t, h)
        else:
            n = rebuild(t.op, tuple(out), t)
            if TYP.get(t):
                TYP.setdefault(n, TYP[t])
            r = (n, h)
    _canon[t] = r
    return r


def _cna(a):
    if isinstance(a, T):
        return _cn(a)
    if isinstance(a, tuple):
        rs = [_cna(x) for x in a]
        return tuple(x for x, _ in rs), max([g for _, g in rs] or [0])
    return a, 0


def _sub_any(a, m):
    if isinstance(a, T):
        return subst(a, m)
    if isinstance(a, tuple):
        return tuple(_sub_any(x, m) for x in a)
    return a


def first_diff(p, t, depth=0):
    """the smallest differing sub-terms, for messages"""
    if p is t or p is ANY:
        return None
    if isinstance(p, T) and isinstance(t, T) and p.op == t.op and len(p.args) == len(t.args) and depth < 12:
        ds = [d for d in (first_diff(a, b, depth + 1) for a, b in zip(p.args, t.args)) if d]
        if len(ds) == 1:
            return ds[0]
    if isinstance(p, tuple) and isinstance(t, tuple) and len(p) == len(t):
        ds = [d for d in (first_diff(a, b, depth + 1) for a, b in zip(p, t)) if d]
        if len(ds) == 1:
            return ds[0]
    if not isinstance(p, (T, tuple)) and p == t:
        return None
    return (p, t)


def clip(s, n=260):
    s = str(s)
    return s if len(s) <= n else s[:n] + "…"


class Out:
    """something to compare with specification cases: a value under facts"""
    __slots__ = ("ret", "facts")

    def __init__(self, ret, facts):
        self.ret, self.facts = ret, frozenset(facts)


class LoopView:
    """the one loop of a summary, as a transition relation over named state variables.

    inits: state at entry; steps: [Out(new state tuple, guards)]; items: {rep term: [Out(seq of what one iteration appends, guards)]};
    at(k) variables are shared: S[i] stands for component i of the state before the iteration."""

    def __init__(self, a, names=("S", "S1", "S2", "S3", "S4", "S5"), terms=(), unify=False, of=None):
        """of: a term of the loop that is meant, where there are several"""
        self.ok, self.why = False, ""
        ts = list(terms)
        for o in a.outcomes:
            ts.append(o.ret)
            ts.extend(o.facts)
            ts.extend(v for v in o.mem.values() if is_t(v))
        mus = [x for t in ts for x in atoms(t) if x.op == "mu"]
        if of is not None:
            w = [of] if of.op == "mu" else [m for m in atoms(of) if m.op == "mu"]
            mus = [m for m in mus if any((m.args[0], m.args[3], m.args[4]) == (x.args[0], x.args[3], x.args[4]) for x in w)]
        kinds = {(m.args[0], m.args[3], m.args[4]) for m in mus}
        reps = {x for t in ts for x in atoms(t) if x.op == "rep"}
        if len(kinds) != 1:
            self.why = "%d stateful loops" % len(kinds)
            return
        (d, inits, bodies), = kinds
        self.d, self.inits = d, inits
        n = len(inits)
        if any(has_op(x, "mu", "first") for x in inits):
            self.why = "nested loops"
            return
        # congruent components of the state are one
        rep_of = list(range(n))
        for j in range(n):
            for i in range(j):
                if rep_of[i] != i or inits[i] is not inits[j]:
                    continue
                m = {mk("self", d, j): mk("self", d, i)}
                if len(bodies[i]) == len(bodies[j]) and all(tuple(subst(g, m) for g in gi) == tuple(subst(g, m) for g in gj) and subst(xi, m) is subst(xj, m)
                                                          for (gi, xi), (gj, xj) in zip(bodies[i], bodies[j])):
                    rep_of[j] = i
                    break
        LoopView.count += 1
        self.vars = [Var("%s.%d" % (names[i], LoopView.count)) for i in range(n)]
        # components that start equal but are not kept equal: read as equal (true of the first iteration), reported
        self.diverge = []
        if unify:
            for j in range(n):
                if rep_of[j] != j:
                    continue
                for i in range(j):
                    if rep_of[i] == i and inits[i] is inits[j] and TYP.get(mk("self", d, i)) == TYP.get(mk("self", d, j)):
                        rep_of[j] = i
                        self.diverge.append((i, j))
                        break
            rep_of = [rep_of[rep_of[i]] for i in range(n)]
        for i in range(n):
            self.vars[i] = self.vars[rep_of[i]]
            ty = next((TYP.get(m) for m in mus if m.args[2] == i and TYP.get(m)), None) or TYP.get(mk("self", d, i))
            if ty and rep_of[i] == i:
                TYP.setdefault(self.vars[i], ty)
        self.rep_of = rep_of
        sm = {mk("self", d, i): self.vars[i] for i in range(n)}
        # per component: what one iteration makes of it
        self.steps = [[Out(subst(x, sm), [subst(g, sm) for g in gs]) for gs, x in b] for b in bodies]
        self.mu_of = {}
        for m in mus:
            self.mu_of.setdefault(m.args[1], {})[m.args[2]] = m
        self.items = {}
        for r in reps:
            if r.args[0] != d:
                continue
            km = {m: self.vars[m.args[2]] for t in _reps_terms(r) for m in atoms(t) if m.op == "mu" and m.args[1] is mk("k", d)}
            self.items[r] = [Out(Seq(*[subst(x, km) for x in ps]), [subst(g, km) for g in gs]) for gs, ps in r.args[2]]
        self.ok = True

    count = 0

    def view(self, t):
        """t with the state at the last iteration begun (any count) replaced by the state variables"""
        m = {x: self.vars[x.args[2]] for x in atoms(t) if x.op == "mu" and x.args[0] is self.d}
        return subst(t, m) if m else t

    def outcome(self, o):
        return Out(self.view(o.ret), [self.view(f) for f in o.facts])


def _reps_terms(r):
    for gs, ps in r.args[2]:
        yield from gs
        yield from ps


class Case:
    __slots__ = ("guards", "want", "name", "calls")

    def __init__(self, guards, want, name=""):
        self.guards = guards if isinstance(guards, (list, tuple)) else [guards]
        self.want, self.name = want, name


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.F = load_facts("main")
        self.obs = []              # (status, rule, where, detail, key)
        self.fns = set()
        self.t0 = time.time()
        self.n_out = 0
        self.notes = []
        self.opq = {}
        self.instances = {}
        self.memo = {}

    # ---- lookup
    def find(self, pat, crate=None, which="main", need=True):
        """function ids whose display name ends with / equals pat"""
        F = load_facts(which)
        r = []
        for n, ids in F.by_name.items():
            if n == pat or n.endswith("::" + pat):
                r += [i for i in ids if F.fns[i].get("body") and (crate is None or F.fns[i]["crate"] == crate)]
        if not r and need:
            self.unk("anchor", pat, "no function of that name: nothing to analyse")
        return r

    def one(self, pat, crate=None, which="main"):
        r = self.find(pat, crate, which)
        if len(r) == 1:
            return r[0]
        if r:
            self.unk("anchor", pat, "%d functions of that name" % len(r))
        return None

    def where(self, fid, F=None):
        f = (F or self.F).fns.get(fid)
        if not f:
            return str(fid)
        b = f.get("body")
        sp = ""
        if b:
            for bl in b["blocks"]:
                if bl.get("sp"):
                    sp = bl["sp"]
                    break
        return "%s (%s)" % (f["name"], b.get("span") or sp if b else "")

    # ---- analysis
    def run(self, fid, opaque=(), argv=None, args=None, facts=frozenset(), pre=None, secs=60, which="main", models=None, quiet=False, transparent=True):
        key = (fid, tuple(opaque), which, args, tuple(sorted(argv.items())) if isinstance(argv, dict) else argv, facts, None if pre is None else id(pre), transparent)
        if key in self.memo:
            return self.memo[key]
        F = load_facts(which)
        I = Interp(F, opaque=opaque, models=models, transparent_bytearray=transparent)
        old = signal.signal(signal.SIGALRM, _alarm)
        a = None
        try:
            signal.alarm(secs)
            a = analyse(I, fid, argv=argv, args=args, facts=facts, pre=pre)
            signal.alarm(0)
        except Timeout:
            err = "analysis took more than %d s" % secs
        except Imprecise as e:
            if os.environ.get("SA_DEBUG") == "2":
                raise
            err = "not summarised: %s" % e
        except RecursionError:
            err = "recursion too deep for the analyser"
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            err = "analyser error %r" % (e,)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        if a is None:
            if not quiet:
                self.unk("analysis", self.where(fid, F), err)
        else:
            a.opaque = set(opaque)
            a.fid = fid
            self.fns |= I.visited
            self.n_out += len(a.outcomes)
        self.memo[key] = a
        return a

    # ---- obligations
    def ok(self, rule, where, detail=""):
        self.obs.append(("proved", rule, where, detail, None))

    def bad(self, rule, where, detail, key=None):
        self.obs.append(("violated", rule, where, detail, key or rule + "|" + where.split(" (")[0]))

    def unk(self, rule, where, detail):
        self.obs.append(("inconclusive", rule, where, detail, None))

    def check(self, cond, rule, where, detail="", key=None):
        if cond:
            self.ok(rule, where, detail)
        else:
            self.bad(rule, where, detail, key)
        return cond

    # ---- comparing a summary with its specification
    def expect(self, rule, a, cases, proj=None, calls=(), where=None, cover=True, only=None):
        """every outcome agrees with every specification case it can meet"""
        if a is None:
            return
        where = where or self.where(a.fid, a.I.F)
        self.compare(rule, where, a.outcomes, cases, proj, set(calls) | a.opaque, cover, only)

    def compare(self, rule, where, outs, cases, proj=None, calls=(), cover=True, only=None, vocab=()):
        calls = set(calls) | PURE
        vocab = set(vocab)
        for c in cases:
            vocab |= atoms(c.want) if is_t(c.want) else set()
            for g in c.guards:
                vocab |= atoms(g)
        hit = [0] * len(cases)
        for o in outs:
            if only and not only(o):
                continue
            got = proj(o) if proj else o.ret
            met = 0
            for ci, c in enumerate(cases):
                fs = o.facts
                for g in c.guards:
                    fs = assume_facts(fs, norm(g, fs))
                    if fs is None:
                        break
                if fs is None:
                    continue
                # re-examine the facts in the light of each other
                if contradictory(fs):
                    continue
                met += 1
                hit[ci] += 1
                fs = with_consequences(fs)
                want = c.want(o, fs) if callable(c.want) and not is_t(c.want) else c.want
                n = canon(normfix(got, fs))
                w = canon(normfix(want, fs))
                if match_under(w, n, fs) or match_under(want, got, fs):
                    self.ok(rule, where, "%s: %s" % (c.name, clip(show(n), 160)))
                    continue
                apart = n.op == w.op == "adt" and n.args[0] == w.args[0] and n.args[1] != w.args[1]     # another variant: whatever is in it
                z = None
                for f in o.facts:
                    z = z or fuzzy(f, vocab, calls)
                zp, part = z, None
                z = z or (None if apart else fuzzy(n, vocab, calls))
                if z is not None and zp is None and IT.LOSSY not in o.facts:
                    part = apart_at(n, w, fs, vocab, calls)
                if part is not None:
                    self.bad(rule, where, "%s: yields %s, specified %s; differs at %s vs %s; path: %s" % (
                        c.name, clip(show(n)), clip(show(w)), clip(show(part[0]), 160), clip(show(part[1]), 160),
                        clip("; ".join(sorted(show(f) for f in o.facts)), 400)))
                    continue
                if z is not None or IT.LOSSY in o.facts:
                    self.unk(rule, where, "%s: cannot relate %s to the specified %s (because of %s)" % (
                        c.name, clip(show(n)), clip(show(w)), clip(show(z), 80) if z is not None else "merged paths"))
                    continue
                d = first_diff(w, n) or (w, n)
                self.bad(rule, where, "%s: yields %s, specified %s; differs at %s vs %s; path: %s" % (
                    c.name, clip(show(n)), clip(show(w)), clip(show(d[1]), 120), clip(show(d[0]), 120),
                    clip("; ".join(sorted(show(f) for f in o.facts)), 400)))
            if not met:
                z = None
                for f in o.facts:
                    z = z or fuzzy(f, vocab, calls)
                if z is None and cover:
                    self.notes.append("%s: outcome outside the specified cases: %s" % (where, clip(show(got))))
        if cover:
            for c, h in zip(cases, hit):
                if not h:
                    self.bad(rule, where, "%s: no path of the function yields the specified %s" % (
                        c.name, clip(show(c.want)) if is_t(c.want) else "result"))

    def first_match(self, rule, a, cases, proj=None, calls=(), where=None):
        """like expect, for a specification read top to bottom: the first case whose guards all hold applies"""
        if a is None:
            return
        where = where or self.where(a.fid, a.I.F)
        calls = set(calls) | a.opaque
        vocab = {x for c in cases for g in c.guards for x in atoms(g)} | {x for c in cases if is_t(c.want) for x in atoms(c.want)}
        hit = set()

        def leaves(fs, ci, gi):
            while ci < len(cases):
                gs = cases[ci].guards
                if gi == len(gs):
                    yield fs, ci
                    return
                g = norm(gs[gi], fs)
                e = entails(fs, g)
                if e is True:
                    gi += 1
                elif e is False:
                    ci, gi = ci + 1, 0
                else:
                    yes, no = assume_facts(fs, g), assume_facts(fs, Not(g))
                    if no is not None and not contradictory(no):
                        yield from leaves(no, ci + 1, 0)
                    if yes is None or contradictory(yes):
                        return
                    fs, gi = yes, gi + 1
            yield fs, None
        for o in a.outcomes:
            for fs, ci in leaves(o.facts, 0, 0):
                if contradictory(fs):
                    continue
                if ci is None:
                    self.notes.append("%s: outcome outside the specified cases: %s" % (where, clip(show(o.ret))))
                    continue
                hit.add(ci)
                c = cases[ci]
                o2 = Out(proj(o) if proj else o.ret, fs)
                self.compare(rule, where, [o2], [Case([], c.want, c.name)], calls=calls, vocab=vocab)
        for ci, c in enumerate(cases):
            if ci not in hit:
                self.bad(rule, where, "%s: no path of the function yields the specified %s" % (c.name, clip(show(c.want)) if is_t(c.want) else "result"))

    def each(self, rule, where, t, count, k, facts=(), what="one element per index"):
        """t as a sequence with one iteration per index below count: [Out(what iteration k appends, facts)], or None"""
        t = norm(t, frozenset(facts))
        if t.op == "seq" and len(t.args) == 1:
            t = t.args[0]
        n = norm(count, frozenset(facts))
        if t.op == "repeat":
            got, outs = t.args[1], [Out(Seq(item(t.args[0])), facts)]
        elif t.op == "rep":
            d = t.args[0]
            m = {mk("k", d): k}
            got = t.args[1]
            outs = [Out(Seq(*[subst(x, m) for x in ps]), frozenset(facts) | {subst(g, m) for g in gs} | {lt(k, count)}) for gs, ps in t.args[2]]
        elif t.op == "seq" and len(t.args) > 1 and all(p.op in ("item", "rep", "repeat") for p in t.args):
            got, outs = Len(t), []
            pos = ZERO
            for p in t.args:
                end = add(pos, TM.part_len(p))
                here = frozenset(facts) | {le(pos, k), lt(k, end)}
                j = sub(k, pos)
                if p.op == "rep":
                    m = {mk("k", p.args[0]): j}
                    if not all(len(ps) == 1 and ps[0].op == "item" for gs, ps in p.args[2]):
                        self.unk(rule, where, "%s: not a loop the analysis can split: %s" % (what, clip(show(t))))
                        return None
                    outs += [Out(Seq(*[subst(x, m) for x in ps]), here | {subst(g, m) for g in gs}) for gs, ps in p.args[2]]
                else:
                    outs.append(Out(Seq(item(p.args[0])), here))
                pos = end
            outs = [o for o in outs if not contradictory(o.facts)]
        elif t.op not in FUZZY and t.op != "seq" and canon(norm(Len(t), frozenset(facts))) is canon(n):
            got, outs = Len(t), [Out(Seq(item(Idx(t, k))), frozenset(facts) | {lt(k, count)})]
        else:
            z = fuzzy(t, set(), PURE)
            if z is None and t.op == "seq" and all(p.op == "item" for p in t.args):
                self.bad(rule, where, "%s: built as %s" % (what, clip(show(t))))
            else:
                self.unk(rule, where, "%s: not a loop the analysis can split: %s" % (what, clip(show(t))))
            return None
        if canon(norm(got, frozenset(facts))) is not canon(n):
            if fuzzy(got, atoms(count), PURE) is None:
                self.bad(rule, where, "%s: %s iterations, specified %s" % (what, clip(show(got)), clip(show(n))))
            else:
                self.unk(rule, where, "%s: %s iterations, specified %s" % (what, clip(show(got)), clip(show(n))))
            return None
        self.ok(rule, where, "%s: %s iterations" % (what, clip(show(n))))
        return outs

    def search(self, o, count, pred, var):
        """a search loop's outcome: ("found", Out) with the least index satisfying pred(k) (a list of facts) written as var,
        ("none", Out) if no index below count satisfies it, None if the outcome is neither"""
        def excludes(d, gss):
            for gs in gss:
                fs = frozenset(gs)
                for p in pred(mk("k", d)):
                    fs = assume_facts(fs, norm(p, fs)) if fs is not None else None
                if fs is not None and not contradictory(fs):
                    return False
            return True
        firsts = {x for t in [o.ret] + list(o.facts) for x in atoms(t) if x.op == "first"}
        for x in firsts:
            if len(firsts) == 1 and canon(norm(x.args[1], o.facts)) is canon(norm(count, o.facts)) and excludes(x.args[0], x.args[2]):
                TYP.setdefault(var, "usize")
                m = {x: var}
                fs = frozenset(subst(f, m) for f in o.facts)
                if all(entails(fs, norm(p, fs)) is True or p in fs or norm(p, fs) is TRUE for p in pred(var)):
                    return "found", Out(subst(o.ret, m), fs)
        if not firsts:
            for f in o.facts:
                if f.op == "all" and canon(norm(f.args[1], o.facts)) is canon(norm(count, o.facts)) and excludes(f.args[0], f.args[2]):
                    return "none", Out(o.ret, [g for g in o.facts if g is not f])
        return None

    def no_panics(self, rule, a, allow=()):
        """every assertion, unwrap, index … met on the analysed paths is discharged"""
        if a is None:
            return
        for o in a.I.obl.values():
            w = "%s (%s)" % (o.fn, o.span)
            if o.ok:
                self.ok(rule, w, o.kind)
            elif any(x(o) for x in allow):
                continue
            else:
                self.bad(rule, w, "%s may fail: needs %s; reached through %s" % (o.kind, clip(o.why, 200), " > ".join(o.chain[-4:])))

    def floor(self, what, n, least):
        """an enumeration that came out smaller than it can be is no evidence"""
        self.instances[what] = n
        if n < least:
            self.unk("floor", what, "%d instances found, at least %d expected" % (n, least))


PURE = {"Default::default", "str::trim", "str::trim_start", "str::trim_end"}     # meaning known: not the identity


def contradictory(fs):
    """a second look at a set of facts: does one of them fail under the others?"""
    for f in fs:
        if f.op in ("le0", "eq0", "not", "isv", "eq"):
            rest = fs - {f}
            if entails(rest, f) is False:
                return True
            n = norm(f, rest)
            if n.op == "int" and not n.args[0]:
                return True
    return False


# ---------------------------------------------------------------- reporting
def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def finish(ctx, technique, explanation, assumptions=(), level="other"):
    known = [k for k in load_known() if k.get("property") == ctx.prop and k.get("status") == "known"]
    viol, kf = [], []
    seen = set()
    for st, rule, where, detail, key in ctx.obs:
        if st != "violated" or (key, detail) in seen:
            continue
        seen.add((key, detail))
        for k in known:
            if k["key"] == key and (not k.get("detail_contains") or k["detail_contains"] in detail):
                kf.append((k, rule, where, detail))
                break
        else:
            viol.append((rule, where, detail, key))
    n = {"proved": 0, "violated": 0, "inconclusive": 0}
    for o in ctx.obs:
        n[o[0]] += 1
    inconc = [{"rule": r, "where": w, "detail": clip(d, 400)} for s, r, w, d, _ in ctx.obs if s == "inconclusive"]
    samples, rules = [], {}
    for s, r, w, d, _ in ctx.obs:
        rr = rules.setdefault(r, {"proved": 0, "violated": 0, "inconclusive": 0})
        rr[s] += 1
        if s == "proved" and rr["proved"] <= 2:
            samples.append({"rule": r, "where": w, "detail": clip(d, 300)})
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "explanation": explanation,
            "technique": technique,
            "functions_analysed": len(ctx.fns),
            "summary_outcomes": ctx.n_out,
            "obligations": sum(n.values()), "discharged": n["proved"], "inconclusive": n["inconclusive"],
            "by_rule": rules,
            "instances": ctx.instances,
            "samples": samples[:24],
            "inconclusive_list": inconc[:40],
            "functions": sorted(ctx.F.fns[f]["name"] for f in ctx.fns if f in ctx.F.fns)[:400],
            "notes": ctx.notes[:40],
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    printed = set()
    for k, rule, where, detail in kf:
        if k["key"] not in printed:
            printed.add(k["key"])
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]))
    print("%s: %d obligations: %d proved, %d violated (%d known), %d inconclusive; %d functions, %.1f s" % (
        ctx.prop, sum(n.values()), n["proved"], n["violated"], len(kf), n["inconclusive"], len(ctx.fns), time.time() - ctx.t0))
    for x in inconc[:10]:
        print("  inconclusive [%s] %s: %s" % (x["rule"], x["where"], x["detail"][:200]))
    if viol:
        rp = os.path.join(ROOT, "evidence", "replay-%s.json" % ctx.prop)
        with open(rp, "w") as f:
            json.dump([{"rule": r, "where": w, "detail": d, "key": k} for r, w, d, k in viol], f, indent=1)
        for r, w, d, k in viol[:10]:
            print("  [%s] %s\n      %s" % (r, w, clip(d, 900)))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, rp))
        return 1
    return 0
