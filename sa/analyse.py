"""Analyse one function with symbolic parameters."""
import sys, time
from terms import *
import terms as TM
from facts import Facts, build_facts, subst_ty, ty_short
from interp import Interp, State, Outcome, Imprecise, note_type, entails, assume_facts


class Analysed:
    def __init__(self, outcomes, params, interp, error=None):
        self.outcomes, self.params, self.I, self.error = outcomes, params, interp, error


def param_names(body):
    out = {}
    for n in body.get("names") or ():
        # [name, place]
        nm, pl = n[0], n[1]
        if isinstance(pl, tuple) and len(pl) == 1 and 1 <= pl[0] <= body["argc"]:
            out.setdefault(pl[0], nm)
    return out


def analyse(I, fid, argv=None, args=None, facts=frozenset(), pre=None):
    """-> Analysed.  argv: dict param-index -> term overrides; args: generic arguments"""
    F = I.F
    f = F.fns[fid]
    body = f["body"]
    if args is None:
        args = ()
    names = param_names(body)
    st = State({}, frozenset() if callable(facts) else facts, ())
    vals, params, muts = [], [], []
    for i in range(body["argc"]):
        ty = subst_ty(body["locals"][i + 1], args)
        nm = names.get(i + 1, "arg%d" % i)
        v = argv.get(i) if argv and not isinstance(argv, (list, tuple)) else (argv[i] if argv else None)
        if v is None:
            # parameters of one name but different types are different variables
            v = Var(nm)
            while TM.VAR_TY.get(v, ty) != ty:
                nm += "'"
                v = Var(nm)
            TM.VAR_TY[v] = ty
        note_type(v, ty)
        params.append(v)
        if ty[0] == "ref" and ty[1]:
            key = ("P", nm)
            st.store[key] = v
            muts.append((nm, key))
            v = mk("ref", key, ())
        vals.append(v)
    if callable(facts):
        st = State(st.store, facts(params), ())
    if pre:
        st = pre(I, st, vals)
    I.visited.add(fid)
    outs = I.run_body(fid, body, args, vals, st, f["name"])
    res = []
    for s, r in outs:
        mem = {nm: s.store.get(key) for nm, key in muts}
        for k, v in s.store.items():
            if k[0] == "ext":
                mem[k] = v
        r = I.deref_deep(s, r)
        if r.op != "adt" and entails(s.facts, isv(r, RESULT, 0)) is False:
            r = Err(Fld(r, RESULT, 1, 0))      # an error is written as one
        res.append(Outcome(r, frozenset(f for f in s.facts if f.op != "assumed"), s.events, mem, s))
    return Analysed(res, params, I)


_F = {}


def load_facts(which="main"):
    if which not in _F:
        _F[which] = Facts(build_facts() + "/" + which)
    return _F[which]


if __name__ == "__main__":
    F = load_facts()
    pat = sys.argv[1]
    opaque = sys.argv[2].split(",") if len(sys.argv) > 2 else []
    for n in sorted(F.by_name):
        if pat in n or any(pat == F.local_key(i) for i in F.by_name[n]):
            for fid in F.by_name[n]:
                if not F.fns[fid].get("body"):
                    continue
                t = time.time()
                I = Interp(F, opaque=opaque)
                try:
                    a = analyse(I, fid)
                except Imprecise as e:
                    print("##", n, "IMPRECISE", e)
                    continue
                print("##", n, "%.2fs" % (time.time() - t), F.fns[fid].get("sig_in"))
                for o in a.outcomes:
                    print("  ", o)
                for ob in I.obl.values():
                    if not ob.ok:
                        print("   OBL", ob)
                if I.unknown:
                    print("   UNKNOWN", I.unknown)
