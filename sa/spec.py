"""Terms for writing specifications."""
from terms import *
import terms as TM
from common import ANY, Case, wild, Ctx
from analyse import load_facts

_ids = {}


def aid(short_name, F=None):
    F = F or load_facts("main")
    m = _ids.get(id(F))
    if m is None:
        m = _ids[id(F)] = {}
        for k, a in F.adts.items():
            m.setdefault(a["name"].split("::")[-1], []).append((not a.get("local"), k))
        for v in m.values():
            v.sort()
    r = m.get(short_name)
    return r[0][1] if r else None


def variant(adt, name, F=None):
    F = F or load_facts("main")
    for i, v in enumerate(F.adts[adt]["variants"]):
        if v["name"] == name:
            return i
    raise KeyError(name)


def fieldno(adt, vi, name, F=None):
    F = F or load_facts("main")
    for i, f in enumerate(F.adts[adt]["variants"][vi]["fields"]):
        if f["name"] == name:
            return i
    raise KeyError(name)


def fld(x, ty, name, var=None):
    a = aid(ty)
    vi = variant(a, var) if var else 0
    return Fld(x, a, vi, fieldno(a, vi, name))


def path(x, *steps):
    """path(x, ("TxInput","prev_out"), ("TxOutpoint","vout"))"""
    for s in steps:
        x = fld(x, *s)
    return x


def isvar(x, ty, var):
    a = aid(ty)
    return isv(x, a, variant(a, var))


def adt(ty, *fields, var=None):
    a = aid(ty)
    vi = variant(a, var) if var else 0
    return mk("adt", a, vi, *fields)


def struct(ty, **kw):
    """a struct value by field names"""
    a = aid(ty)
    F = load_facts("main")
    fs = F.adts[a]["variants"][0]["fields"]
    return mk("adt", a, 0, *[kw[f["name"]] for f in fs])


def call(name, *args):
    return mk("call", name, *args)


def is_ok(r):
    return isv(r, RESULT, 0)


def ok_of(r):
    return Fld(r, RESULT, 0, 0)


def err_of(r):
    return Fld(r, RESULT, 1, 0)


def is_some(r):
    return Not(isv(r, OPTION, 0))


def some_of(r):
    return Fld(r, OPTION, 1, 0)


ERR = mk("adt", RESULT, 1, ANY)
TRUET = TRUE


def fixed(ty):
    """the bytes of a FixedByteArray-like value are its byte_array field"""
    return ty


def methods(ctx, item, trait=None, selfty=None, crate=None, F=None):
    """{short self type: fn id} of the methods called `item`"""
    F = F or ctx.F
    from facts import ty_short
    r = {}
    for i, f in F.fns.items():
        if f.get("item") != item or not f.get("body"):
            continue
        if crate and f["crate"] != crate:
            continue
        t = f.get("trait") or ""
        if trait is not None and t.split("::")[-1] != trait:
            continue
        if trait is None and (f.get("trait") and selfty is None):
            pass
        s = f.get("impl_self")
        if not s:
            continue
        s = ty_short(s)
        if selfty is None or s == selfty:
            r[s] = i
    return r


def inherent(ctx, item, ty, F=None):
    """the fn id of the inherent method `item` of type `ty`"""
    F = F or ctx.F
    from facts import ty_short
    for i, f in sorted(F.fns.items()):
        if f.get("item") == item and f.get("body") and not f.get("trait") and f.get("impl_self") and ty_short(f["impl_self"]) == ty:
            return i
    return None


def method_for(ctx, trait, item, ty, *rest):
    """(fn id, generic args) of the method `item` of `trait` as it is for the ADT `ty`: its own, or the provided one"""
    own = methods(ctx, item, trait).get(ty)
    if own:
        return own, None
    for i, f in ctx.F.fns.items():
        if f.get("item") == item and f.get("body") and not f.get("impl_self") and f["name"].split("::")[-2:-1] == [trait]:
            return i, (("adt", aid(ty), ()),) + tuple(rest)
    return None, None


def bytes_of(x, ty):
    """the bytes of a digest"""
    return fld(Fld(x, aid(ty), 0, 0), "FixedByteArray", "byte_array")


def digest_of(ty, b):
    return adt(ty, struct("FixedByteArray", phantom=ANY, byte_array=b))
