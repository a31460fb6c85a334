"""Transfer functions for std / external callees, keyed by 'Type::method' or 'Trait::method'."""
from terms import *
import terms as TM
from interp import *
from interp import PYFN
from facts import ty_short, subst_ty

MODELS = {}
LOCAL_MODELS = {}


def model(*names):
    """values in (references loaded), one value out"""
    def deco(f):
        def g(I, st, ctx, argv):
            r = f(I, st, ctx, *[I.load(st, a) for a in argv])
            if isinstance(r, T):
                return [(st, r)]
            return r
        for n in names:
            MODELS[n] = g
        return f
    return deco


def raw(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def lmodel(*names):
    def deco(f):
        def g(I, st, ctx, argv):
            r = f(I, st, ctx, *[I.load(st, a) for a in argv])
            if isinstance(r, T):
                return [(st, r)]
            return r
        for n in names:
            LOCAL_MODELS[n] = g
        return f
    return deco


def strip_ref(t):
    while t and t[0] == "ref":
        t = t[2]
    return t


def prim_of(t):
    t = strip_ref(t)
    return t[1] if t and t[0] == "p" else None


def copy(st):
    return State(dict(st.store), st.facts, st.events)


# ------------------------------------------------------------------ identity-like
for n in ("Clone::clone ToOwned::to_owned AsRef::as_ref Borrow::borrow Deref::deref Vec::as_slice str::as_bytes str::as_str "
          "[T]::to_vec slice::to_vec [T]::into_vec Vec::into_boxed_slice String::as_str String::from Cow::into_owned Box::new Arc::new Rc::new "
          "hint::must_use String::into_bytes String::as_bytes GenericArray::as_slice Vec::from str::to_string String::clone "
          "str::to_owned Box::into_vec str::into_string String::into_boxed_str Iterator::cloned Iterator::copied Iterator::by_ref "
          "Option::cloned Option::copied Option::as_deref Vec::into_iter Cow::to_mut [T]::as_ref identity convert::identity "
          "Arc::from Rc::from Box::from Box::pin hint::black_box array::as_slice "
          "intrinsics::transmute mem::transmute [T;N]::as_slice Vec::leak Box::leak Arc::clone char::from BitcoinByteArray::clone").split():
    MODELS[n] = (lambda I, st, ctx, argv: [(st, I.load(st, argv[0]))])


@raw("AsMut::as_mut", "DerefMut::deref_mut", "BorrowMut::borrow_mut", "Vec::as_mut_slice", "Box::as_mut", "[T]::as_mut")
def _(I, st, ctx, argv):
    return [(st, argv[0])]


@raw("Iterator::by_ref")
def _(I, st, ctx, argv):
    return [(st, argv[0])]


@model("ToString::to_string")
def _(I, st, ctx, x):
    t = strip_ref(ctx.args[0]) if ctx.args else None
    if t and ty_short(t) in ("str", "String", "char", "Cow"):
        return x
    # a workspace type: its Display impl
    return display(I, st, ctx, x, t)


@model("str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::trim")
def _(I, st, ctx, x):
    n = ctx.key.split("::")[-1]
    if x.op == "str" and x.args[0].isascii():
        s = x.args[0]
        return Str(s.strip() if n == "trim" else s.lower() if "lower" in n else s.upper())
    return mk("call", "str::" + n, x)


def display(I, st, ctx, x, t):
    if t and t[0] == "adt" and t[1] in I.F.adts and I.F.adts[t[1]].get("local"):
        r = I.F.resolve("core::fmt::Display::fmt", "core::fmt::Display", (t,))
        if r and r[0] in I.F.fns and I.F.fns[r[0]].get("body") and not I.too_deep(r[0], r[1]):
            key = I.tmp()
            st.store[key] = mk("fmtr", EMPTY)
            outs = I.run_body(r[0], I.F.fns[r[0]]["body"], r[1], [x, mk("ref", key, ())], st, I.F.fns[r[0]]["name"])
            res = []
            for s, rr in outs:
                v = s.store.pop(key)
                res.append((s, v.args[0] if v.op == "fmtr" else mk("disp", x)))
            return res
    if t and t[0] == "p" and t[1] == "str" or (t and ty_short(t) in ("String", "Cow", "char")):
        return x if ty_short(t) != "char" else items(x)
    return mk("disp", x)


# ------------------------------------------------------------------ formatting
@model("Argument::new_display")
def _(I, st, ctx, x):
    t = strip_ref(ctx.args[-1] if ctx.args else None)
    for a in ctx.args:
        if a[0] not in ("lt",):
            t = strip_ref(a)
    r = display(I, st, ctx, x, t)
    if isinstance(r, T):
        return mk("fa", r)
    return [(s, mk("fa", v)) for s, v in r]


@model("Argument::new_debug")
def _(I, st, ctx, x):
    t = next((strip_ref(a) for a in reversed(ctx.args or ()) if a[0] != "lt"), None)
    if x.op == "adt" and len(x.args) == 2 and t and t[0] == "adt" and I.F.adts.get(t[1], {}).get("local"):
        r = I.F.resolve("core::fmt::Debug::fmt", "core::fmt::Debug", (t,))      # a constant: its name as its impl writes it
        if r and r[0] in I.F.fns and I.F.fns[r[0]].get("body") and not I.too_deep(r[0], r[1]):
            key = I.tmp()
            st.store[key] = mk("fmtr", EMPTY)
            outs = I.run_body(r[0], I.F.fns[r[0]]["body"], r[1], [x, mk("ref", key, ())], st, I.F.fns[r[0]]["name"])
            return [(s, mk("fa", v.args[0] if v.op == "fmtr" and v.args[0] is not EMPTY else mk("dbg", x))) for s, v in ((s, s.store.pop(key)) for s, _ in outs)]
    return mk("fa", mk("dbg", x))


@model("Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_binary", "Argument::new_octal", "Argument::new_pointer")
def _(I, st, ctx, x):
    return mk("fa", mk("fmtnum", ctx.key.split("_")[-1], x))


@model("Arguments::new", "Arguments::new_v1", "Arguments::new_const")
def _(I, st, ctx, tpl, args=None):
    return fmt_template(tpl, args)


@model("Arguments::from_str", "Arguments::from_str_nonconst")
def _(I, st, ctx, x):
    return x


def fmt_template(tpl, args):
    if tpl.op != "seq" or not all(p.op == "item" and p.args[0].op == "int" for p in tpl.args):
        return mk("call", "fmt", tpl, args or UNIT)
    b = [p.args[0].args[0] for p in tpl.args]
    argv = [p.args[0] for p in seq_parts(args)] if args is not None and args.op == "seq" else []
    out = []
    i = 0
    n = 0
    try:
        while i < len(b):
            c = b[i]
            i += 1
            if c == 0:
                break
            if c < 0x80:
                out.append(Str(bytes(b[i:i + c]).decode("utf8", "replace")))
                i += c
            elif c == 0x80:
                ln = b[i] | b[i + 1] << 8
                i += 2
                out.append(Str(bytes(b[i:i + ln]).decode("utf8", "replace")))
                i += ln
            elif c >= 0xC0:
                opts = []
                if c & 1:
                    opts.append(("flags", tuple(b[i:i + 4])))
                    i += 4
                if c & 2:
                    opts.append(("width", b[i] | b[i + 1] << 8))
                    i += 2
                if c & 4:
                    opts.append(("prec", b[i] | b[i + 1] << 8))
                    i += 2
                if c & 8:
                    n = b[i] | b[i + 1] << 8
                    i += 2
                a = argv[n]
                n += 1
                a = a.args[0] if a.op == "fa" else mk("disp", a)
                out.append(mk("fmtopt", tuple(opts), a) if opts else a)
            else:
                return mk("call", "fmt", tpl, args or UNIT)
    except IndexError:
        return mk("call", "fmt", tpl, args or UNIT)
    return Seq(*out)


@model("fmt::format", "alloc::fmt::format")
def _(I, st, ctx, x):
    return x


@raw("Formatter::write_str", "Formatter::write_fmt", "Write::write_str", "Write::write_fmt")
def _(I, st, ctx, argv):
    f = I.load(st, argv[0])
    x = I.load(st, argv[1])
    if argv[0].op == "ref" and f.op == "fmtr":
        I.store_to(st, argv[0], mk("fmtr", Seq(f.args[0], x)))
        return [(st, Ok(UNIT))]
    if argv[0].op == "ref" and "Formatter" not in ctx.key:
        I.store_to(st, argv[0], Seq(f, x))
        return [(st, Ok(UNIT))]
    I.event(st, mk("fmtwrite", f, x))
    return [(st, mk("call", "fmtwrite", f, x))]


@raw("Formatter::debug_c_like_enum_write_str")
def _(I, st, ctx, argv):
    """what a derived Debug of a fieldless enum calls: the names separated by blanks, and where the name starts"""
    f, names, at = (I.load(st, x) for x in argv[:3])
    if names.op == "str" and at.op == "int" and argv[0].op == "ref" and f.op == "fmtr":
        I.store_to(st, argv[0], mk("fmtr", Seq(f.args[0], Str(names.args[0].encode()[at.args[0]:].decode().split(" ")[0]))))
        return [(st, Ok(UNIT))]
    if names.op == "str" and at.op == "int":
        return [(st, mk("call", "fmtwrite", f, Str(names.args[0].encode()[at.args[0]:].decode().split(" ")[0])))]
    return [(st, mk("call", "Formatter::debug_c_like_enum_write_str", f, names, at))]


@model("io::_print", "stdio::_print", "io::_eprint", "stdio::_eprint")
def _(I, st, ctx, x):
    I.event(st, mk("print", x))
    return UNIT


# ------------------------------------------------------------------ Option / Result
def is_opt(ctx_key):
    return OPTION if ctx_key.startswith("Option") else RESULT


@model("Option::is_some")
def _(I, st, ctx, x):
    return isv(x, OPTION, 1)


@model("Option::is_none")
def _(I, st, ctx, x):
    return isv(x, OPTION, 0)


@model("Result::is_ok")
def _(I, st, ctx, x):
    return isv(x, RESULT, 0)


@model("Result::is_err")
def _(I, st, ctx, x):
    return isv(x, RESULT, 1)


def good(adt):
    return 1 if adt == OPTION else 0


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked", "Result::unwrap_unchecked")
def _(I, st, ctx, x, msg=None):
    adt = is_opt(ctx.key)
    g = good(adt)
    c = isv(x, adt, g)
    e = entails(st.facts, c)
    I.oblige(ctx.fr, ctx.span, "panic:" + ctx.key, e is True, show(c), st)
    if e is False:
        return []
    s = I.assume(st, c)
    return [(s, Fld(x, adt, g, 0))] if s is not None else []


@model("Result::unwrap_err", "Result::expect_err")
def _(I, st, ctx, x, msg=None):
    c = isv(x, RESULT, 1)
    e = entails(st.facts, c)
    I.oblige(ctx.fr, ctx.span, "panic:" + ctx.key, e is True, show(c), st)
    s = I.assume(st, c)
    return [(s, Fld(x, RESULT, 1, 0))] if s is not None else []


def cases(I, st, x, adt):
    return I.split(st, x, adt)


@raw("Option::map", "Result::map", "Option::and_then", "Result::and_then", "Option::map_or", "Result::map_or",
     "Option::map_or_else", "Result::map_or_else", "Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_else",
     "Result::unwrap_or_else", "Option::unwrap_or_default", "Result::unwrap_or_default", "Option::ok_or", "Option::ok_or_else",
     "Result::map_err", "Result::ok", "Result::err", "Option::or", "Option::or_else", "Result::or_else", "Option::filter",
     "Option::and", "Result::and", "Option::is_some_and", "Result::is_ok_and", "Option::is_none_or", "Option::flatten", "Option::transpose",
     "Result::transpose", "Option::inspect", "Option::xor", "Option::zip", "Result::or", "Option::iter", "Option::into_iter")
def opt_comb(I, st, ctx, argv):
    adt = is_opt(ctx.key)
    meth = ctx.key.split("::")[1]
    x = I.load(st, argv[0])
    g = good(adt)
    out = []

    def call(s, f, *a):
        return I.call_value(s, f, list(a), ctx)
    for s, v, fs in I.split(st, x, adt):
        ok = v == g
        p = fs[0] if fs else None
        wrap = (lambda y: Adt(adt, g, y))
        same = x if x.op == "adt" else Adt(adt, v, *fs)
        if meth == "map":
            out += [(s2, wrap(r)) for s2, r in call(s, argv[1], p)] if ok else [(s, same)]
        elif meth == "and_then":
            out += call(s, argv[1], p) if ok else [(s, same)]
        elif meth == "map_or":
            out += call(s, argv[2], p) if ok else [(s, I.load(s, argv[1]))]
        elif meth == "map_or_else":
            out += call(s, argv[2], p) if ok else call(s, argv[1], *fs)
        elif meth == "unwrap_or":
            out.append((s, p if ok else I.load(s, argv[1])))
        elif meth == "unwrap_or_else":
            out += [(s, p)] if ok else call(s, argv[1], *fs)
        elif meth == "unwrap_or_default":
            out += [(s, p)] if ok else default_value(I, s, ctx, ctx.dty)
        elif meth == "ok_or":
            out.append((s, Ok(p) if ok else Err(I.load(s, argv[1]))))
        elif meth == "ok_or_else":
            out += [(s, Ok(p))] if ok else [(s2, Err(r)) for s2, r in call(s, argv[1])]
        elif meth == "map_err":
            out += [(s, same)] if ok else [(s2, Err(r)) for s2, r in call(s, argv[1], p)]
        elif meth == "ok":
            out.append((s, Some(p) if ok else NONE))
        elif meth == "err":
            out.append((s, NONE if ok else Some(p)))
        elif meth == "or":
            out.append((s, same if ok else I.load(s, argv[1])))
        elif meth == "or_else":
            out += [(s, same)] if ok else call(s, argv[1], *fs)
        elif meth == "and":
            out.append((s, I.load(s, argv[1]) if ok else same))
        elif meth == "filter":
            if not ok:
                out.append((s, NONE))
            else:
                for s2, r in call(s, argv[1], p):
                    for s3, b in I.fork(s2, r):
                        out.append((s3, same if b else NONE))
        elif meth in ("is_some_and", "is_ok_and"):
            out += call(s, argv[1], p) if ok else [(s, FALSE)]
        elif meth == "is_none_or":
            out += call(s, argv[1], p) if ok else [(s, TRUE)]
        elif meth == "flatten":
            out.append((s, p if ok else NONE))
        elif meth == "transpose":
            other = RESULT if adt == OPTION else OPTION
            if adt == OPTION:
                if not ok:
                    out.append((s, Ok(NONE)))
                else:
                    for s2, v2, f2 in I.split(s, p, RESULT):
                        out.append((s2, Ok(Some(f2[0])) if v2 == 0 else Err(f2[0])))
            else:
                if not ok:
                    out.append((s, Some(Err(p))))
                else:
                    for s2, v2, f2 in I.split(s, p, OPTION):
                        out.append((s2, Some(Ok(f2[0])) if v2 == 1 else NONE))
        elif meth in ("iter", "into_iter"):
            out.append((s, mk("it", items(p) if ok else EMPTY)))
        elif meth == "inspect":
            if ok:
                out += [(s2, same) for s2, r in call(s, argv[1], p)]
            else:
                out.append((s, same))
        elif meth == "zip":
            if not ok:
                out.append((s, NONE))
            else:
                for s2, v2, f2 in I.split(s, I.load(s, argv[1]), OPTION):
                    out.append((s2, Some(Tup(p, f2[0])) if v2 == 1 else NONE))
        else:
            return NotImplemented
    return out


@raw("Option::as_ref", "Result::as_ref", "Option::as_deref", "Result::as_deref", "Option::as_mut", "Option::as_deref_mut")
def _(I, st, ctx, argv):
    if ctx.key.endswith("mut") and argv[0].op == "ref":
        x = I.load(st, argv[0])
        adt = OPTION
        out = []
        for s, v, fs in I.split(st, x, adt):
            if v == 1:
                out.append((s, Some(mk("ref", argv[0].args[0], argv[0].args[1] + (("f", OPTION, 1, 0),)))))
            else:
                out.append((s, NONE))
        return out
    return [(st, I.load(st, argv[0]))]


@raw("Option::take", "mem::take", "Option::replace", "mem::replace", "Option::insert", "Option::get_or_insert_with")
def _(I, st, ctx, argv):
    v = I.load(st, argv[0])
    if argv[0].op != "ref":
        return NotImplemented
    if ctx.key == "Option::take":
        I.store_to(st, argv[0], NONE)
        return [(st, v)]
    if ctx.key == "mem::take":
        outs = default_value(I, st, ctx, ctx.dty)
        for s, d in outs:
            I.store_to(s, argv[0], d)
        return [(s, v) for s, d in outs]
    if ctx.key == "mem::replace":
        I.store_to(st, argv[0], argv[1])
        return [(st, v)]
    if ctx.key == "Option::replace":
        I.store_to(st, argv[0], Some(argv[1]))
        return [(st, v)]
    if ctx.key == "Option::insert":
        I.store_to(st, argv[0], Some(argv[1]))
        return [(st, mk("ref", argv[0].args[0], argv[0].args[1] + (("f", OPTION, 1, 0),)))]
    return NotImplemented


@raw("mem::swap")
def _(I, st, ctx, argv):
    a, b = I.load(st, argv[0]), I.load(st, argv[1])
    if argv[0].op != "ref" or argv[1].op != "ref":
        return NotImplemented
    I.store_to(st, argv[0], b)
    I.store_to(st, argv[1], a)
    return [(st, UNIT)]


@raw("mem::drop", "mem::forget")
def _(I, st, ctx, argv):
    return [(st, UNIT)]


@raw("Try::branch")
def _(I, st, ctx, argv):
    x = I.load(st, argv[0])
    t = ctx.args[0]
    adt = t[1] if t[0] == "adt" else (OPTION if x.op == "adt" and x.args[0] == OPTION else RESULT)
    if adt == CFLOW:
        return [(st, x)]
    out = []
    for s, v, fs in I.split(st, x, adt):
        if v == good(adt):
            out.append((s, Adt(CFLOW, 0, fs[0])))
        else:
            out.append((s, Adt(CFLOW, 1, Adt(adt, v, *fs))))
    return out


@raw("Try::from_output")
def _(I, st, ctx, argv):
    t = ctx.args[0]
    return [(st, Adt(t[1], good(t[1]), argv[0]))]


@raw("FromResidual::from_residual")
def _(I, st, ctx, argv):
    x = I.load(st, argv[0])
    tgt = ctx.args[0]
    if tgt[0] == "adt" and tgt[1] == RESULT:
        e = Fld(x, RESULT, 1, 0)
        src = ctx.args[1][2][1] if ctx.args[1][0] == "adt" and ctx.args[1][1] == RESULT else None
        dst = tgt[2][1]
        return [(s, Err(r)) for s, r in convert(I, st, ctx, e, src, dst)]
    return [(st, NONE if tgt[0] == "adt" and tgt[1] == OPTION else x)]


# ------------------------------------------------------------------ conversions
def is_seq_ty(t):
    t = strip_ref(t)
    if not t:
        return False
    if t[0] in ("slice", "array"):
        return True
    if t[0] == "p" and t[1] == "str":
        return True
    return t[0] == "adt" and t[1].split("::")[-1] in ("Vec", "String", "Box", "Arc", "Rc", "Cow", "GenericArray", "SerializedSignature")


def convert(I, st, ctx, v, src, dst):
    """From<src> for dst"""
    if src is None or dst is None or src == dst or strip_ref(src) == dst:
        return [(st, v)]
    r = I.F.resolve("core::convert::From::from", "core::convert::From", (dst, src))
    if r and r[0] != "default":
        return call_local(I, st, ctx, r[0], r[1], [v])
    r = I.F.resolve("core::convert::Into::into", "core::convert::Into", (src, dst))
    if r and r[0] != "default":
        return call_local(I, st, ctx, r[0], r[1], [v])
    d, s = strip_ref(dst), strip_ref(src)
    # wrapped in Arc / Box / Option
    if d[0] == "adt":
        nm = d[1].split("::")[-1]
        if nm == "Option":
            return [(st, Some(v))]
        if nm in ("Arc", "Box", "Rc", "Cow") and is_seq_ty(s):
            return [(st, v)]
        if nm in ("Arc", "Box", "Rc"):
            return [(st, v)]
    if is_seq_ty(d) and is_seq_ty(s):
        return [(st, v)]
    if d[0] == "p" and s[0] == "p":
        if d[1] in TM.RANGES and s[1] in TM.RANGES:
            return [(st, v)]
        return [(st, v)]
    if d[0] in ("param", "other") or s[0] in ("param", "other"):
        return [(st, mk("call", "into", v, mk("ty", d)))]
    I.unknown["From %s<-%s" % (ty_short(d), ty_short(s))] = 1
    return [(st, mk("call", "into", v, mk("ty", d)))]


def call_local(I, st, ctx, fid, args, argv):
    f = I.F.fns[fid]
    lk = I.F.local_key(fid)
    c2 = CallCtx(I, ctx.fr, ctx.span, ctx.dty, ctx.argt, ctx.mac)
    c2.rid, c2.rargs, c2.lk, c2.key, c2.args = fid, args, lk, lk, args
    m = I.local_models.get(lk)
    if m:
        r = m(I, st, c2, argv)
        if r is not NotImplemented:
            return r
    if lk not in I.opaque and fid not in I.opaque and f.get("body") and not I.too_deep(fid, args):
        I.visited.add(fid)
        return I.run_body(fid, f["body"], args, argv, st, f["name"])
    return I.opaque_call(st, lk, argv, c2)


@raw("Into::into")
def _(I, st, ctx, argv):
    return convert(I, st, ctx, I.load(st, argv[0]), ctx.args[0], ctx.args[1])


@raw("From::from")
def _(I, st, ctx, argv):
    return convert(I, st, ctx, I.load(st, argv[0]), ctx.args[1], ctx.args[0])


@raw("TryInto::try_into", "TryFrom::try_from")
def _(I, st, ctx, argv):
    v = I.load(st, argv[0])
    src, dst = (ctx.args[0], ctx.args[1]) if ctx.key.startswith("TryInto") else (ctx.args[1], ctx.args[0])
    r = I.F.resolve("core::convert::TryFrom::try_from", "core::convert::TryFrom", (dst, src))
    if r and r[0] != "default":
        return call_local(I, st, ctx, r[0], r[1], [v])
    d = strip_ref(dst)
    if d[0] == "array":
        n = d[2][1] if isinstance(d[2], tuple) and d[2][0] == "const" else d[2]
        if isinstance(n, int):
            out = []
            for s, b in I.fork(st, int_eq(Len(v), Int(n))):
                out.append((s, Ok(v) if b else Err(mk("call", "TryFromSliceError", v))))
            return out
    if d[0] == "p" and d[1] in TM.RANGES and strip_ref(src)[0] == "p":
        note_type(v, strip_ref(src))
        lo, hi = TM.RANGES[d[1]]
        out = []
        for s, b in I.fork(st, conj([le(Int(lo), v), le(v, Int(hi))])):
            out.append((s, Ok(v) if b else Err(mk("call", "TryFromIntError"))))
        return out
    # blanket TryFrom from Into
    r = I.F.resolve("core::convert::From::from", "core::convert::From", (dst, src))
    if r and r[0] != "default":
        return [(s, Ok(x)) for s, x in call_local(I, st, ctx, r[0], r[1], [v])]
    if src == dst:
        return [(st, Ok(v))]
    return [(st, mk("call", "try_into", v, mk("ty", d)))]


def default_value(I, st, ctx, t):
    if t[0] == "p":
        if t[1] == "str":
            return [(st, EMPTY)]
        return [(st, ZERO)]
    if t[0] == "ref":
        return default_value(I, st, ctx, t[2])
    if t[0] == "tuple":
        outs = [(st, ())]
        for x in t[1]:
            outs = [(s2, vs + (v,)) for s, vs in outs for s2, v in default_value(I, s, ctx, x)]
        return [(s, mk("tup", *vs)) for s, vs in outs]
    if t[0] == "array":
        n = t[2][1] if isinstance(t[2], tuple) and t[2][0] == "const" else t[2]
        outs = default_value(I, st, ctx, t[1])
        if isinstance(n, int):
            return [(s, Seq(mk("repeat", v, Int(n))) if n <= 4 else mk("repeat", v, Int(n))) for s, v in outs]
    if t[0] == "adt":
        nm = t[1].split("::")[-1]
        if nm == "Option":
            return [(st, NONE)]
        if nm in ("Vec", "String"):
            return [(st, EMPTY)]
        if nm in ("HashMap", "BTreeMap", "BiHashMap", "HashSet", "BTreeSet"):
            return [(st, mk("emptymap"))]
        if nm == "PhantomData":
            return [(st, Adt(t[1], 0))]
        if nm in ("Box", "Arc", "Rc", "Cow"):
            return default_value(I, st, ctx, [a for a in t[2] if a[0] != "lt"][0])
        r = I.F.resolve("core::default::Default::default", "core::default::Default", (t,))
        if r and r[0] != "default":
            return call_local(I, st, ctx, r[0], r[1], [])
    if t[0] == "slice":
        return [(st, EMPTY)]
    return [(st, mk("call", "Default::default", mk("ty", t)))]


@raw("Default::default")
def _(I, st, ctx, argv):
    return default_value(I, st, ctx, ctx.args[0])


# ------------------------------------------------------------------ comparisons
@raw("PartialEq::eq", "PartialEq::ne")
def _(I, st, ctx, argv):
    a, b = I.load(st, argv[0]), I.load(st, argv[1])
    t = strip_ref(ctx.args[0])
    t2 = strip_ref(ctx.args[1]) if len(ctx.args) > 1 else t
    neg = ctx.key.endswith("ne")
    if t[0] == "p":
        note_type(a, t)
        note_type(b, t)
    if t[0] == "adt":
        r = I.F.resolve("core::cmp::PartialEq::eq", "core::cmp::PartialEq", (t, t2))
        if r and r[0] != "default" and not r[2].get("derived"):
            outs = call_local(I, st, ctx, r[0], r[1], [a, b])
            return [(s, Not(v) if neg else v) for s, v in outs]
    if t[0] == "adt" and t[1] == "proc_macro2::Ident" and t2[:2] != t[:2] and a.op != "disp":
        a = mk("disp", a)       # an identifier is compared with text by its name
    v = teq(a, b)
    return [(st, Not(v) if neg else v)]


def three_way(I, st, a, b):
    ORD = "core::cmp::Ordering"
    out = []
    s = I.assume(st, lt(a, b))
    if s is not None:
        out.append((copy(s), Adt(ORD, 0)))
    s = I.assume(st, int_eq(a, b))
    if s is not None:
        out.append((copy(s), Adt(ORD, 1)))
    s = I.assume(st, lt(b, a))
    if s is not None:
        out.append((copy(s), Adt(ORD, 2)))
    return out


@raw("Ord::cmp", "PartialOrd::partial_cmp")
def _(I, st, ctx, argv):
    a, b = I.load(st, argv[0]), I.load(st, argv[1])
    t = strip_ref(ctx.args[0])
    part = ctx.key.startswith("Partial")
    if t[0] == "p" and t[1] in TM.RANGES:
        note_type(a, t)
        note_type(b, t)
        return [(s, Some(v) if part else v) for s, v in three_way(I, st, a, b)]
    r = mk("call", "cmp", a, b)
    return [(st, Some(r) if part else r)]


@raw("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _(I, st, ctx, argv):
    a, b = I.load(st, argv[0]), I.load(st, argv[1])
    t = strip_ref(ctx.args[0])
    m = ctx.key[-2:]
    if t[0] == "p":
        note_type(a, t)
        note_type(b, t)
        return [(st, {"lt": lambda: lt(a, b), "le": lambda: le(a, b), "gt": lambda: lt(b, a), "ge": lambda: le(b, a)}[m]())]
    if t[0] == "adt":
        t2 = strip_ref(ctx.args[1]) if len(ctx.args) > 1 else t
        r = I.F.resolve("core::cmp::PartialOrd::partial_cmp", "core::cmp::PartialOrd", (t, t2))
        if r and r[0] != "default" and not r[2].get("derived"):
            out = []
            for s, v in call_local(I, st, ctx, r[0], r[1], [a, b]):
                for s2, var, fs in I.split(s, v, OPTION):
                    if var == 0:
                        out.append((s2, FALSE))
                        continue
                    for s3, o, _f in I.split(s2, fs[0], "core::cmp::Ordering"):
                        out.append((s3, TRUE if o in {"lt": (0,), "le": (0, 1), "gt": (2,), "ge": (1, 2)}[m] else FALSE))
            return out
    return [(st, mk("pred", m, a, b))]


@model("Ord::min", "cmp::min")
def _(I, st, ctx, a, b):
    t = strip_ref(ctx.args[0]) if ctx.args else None
    if t and t[0] == "p":
        note_type(a, t)
        note_type(b, t)
        e = entails(st.facts, le(a, b))
        if e is True:
            return a
        if entails(st.facts, le(b, a)) is True:
            return b
        r = tmin(a, b)
        note_type(r, t)
        return r
    return mk("call", "min", a, b)


@model("Ord::max", "cmp::max")
def _(I, st, ctx, a, b):
    t = strip_ref(ctx.args[0]) if ctx.args else None
    if t and t[0] == "p":
        note_type(a, t)
        note_type(b, t)
        if entails(st.facts, le(a, b)) is True:
            return b
        if entails(st.facts, le(b, a)) is True:
            return a
        r = tmax(a, b)
        note_type(r, t)
        return r
    return mk("call", "max", a, b)


@model("Ord::clamp")
def _(I, st, ctx, x, lo, hi):
    return tmin(tmax(x, lo), hi)


@model("Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def _(I, st, ctx, x):
    m = ctx.key[-2:]
    out = []
    for s, v, _f in I.split(st, x, "core::cmp::Ordering"):
        out.append((s, TRUE if v in {"lt": (0,), "le": (0, 1), "gt": (2,), "ge": (1, 2), "eq": (1,), "ne": (0, 2)}[m] else FALSE))
    return out


# ------------------------------------------------------------------ integers
INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")
SIZE = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16, "usize": 8, "isize": 8}


def unsigned(ty, x):
    """two's complement reinterpretation is kept implicit in the byte encoding"""
    return x


def int_model(ty):
    def M(name):
        def deco(f):
            def g(I, st, ctx, argv):
                a = [I.load(st, x) for x in argv]
                for x in a[:2]:
                    if name not in ("from_le_bytes", "from_be_bytes", "from_ne_bytes", "pow", "checked_pow", "from_str_radix"):
                        note_type(x, ("p", ty))
                r = f(I, st, ctx, *a)
                return [(st, r)] if isinstance(r, T) else r
            MODELS[ty + "::" + name] = g
            return f
        return deco
    n = SIZE[ty]
    lo, hi = TM.RANGES[ty]

    def inr(r):
        return conj([le(Int(lo), r), le(r, Int(hi))])
    M("to_le_bytes")(lambda I, st, ctx, x: LeB(n, x))
    M("to_be_bytes")(lambda I, st, ctx, x: BeB(n, x))
    M("to_ne_bytes")(lambda I, st, ctx, x: LeB(n, x))
    M("from_le_bytes")(lambda I, st, ctx, x: unle(n, x, ty))
    M("from_be_bytes")(lambda I, st, ctx, x: unle(n, x, ty, True))
    M("from_ne_bytes")(lambda I, st, ctx, x: unle(n, x, ty))

    def checked(op):
        def f(I, st, ctx, a, b):
            r = {"add": add, "sub": sub, "mul": mul}[op](a, b)
            return [(s, Some(r) if v else NONE) for s, v in I.fork(st, inr(r))]
        return f

    def wrapping(op):
        def f(I, st, ctx, a, b):
            r = {"add": add, "sub": sub, "mul": mul}[op](a, b)
            if entails(st.facts, inr(r)) is True:
                return r
            return trunc(ty, r)
        return f

    def overflowing(op):
        def f(I, st, ctx, a, b):
            r = {"add": add, "sub": sub, "mul": mul}[op](a, b)
            return [(s, Tup(r, FALSE) if v else Tup(trunc(ty, r), TRUE)) for s, v in I.fork(st, inr(r))]
        return f

    def saturating(op):
        def f(I, st, ctx, a, b):
            r = {"add": add, "sub": sub, "mul": mul}[op](a, b)
            return tmin(tmax(r, Int(lo)), Int(hi))
        return f

    def plain(op):
        def f(I, st, ctx, a, b):
            return {"add": add, "sub": sub, "mul": mul}[op](a, b)
        return f
    for op in ("add", "sub", "mul"):
        M("checked_" + op)(checked(op))
        M("wrapping_" + op)(wrapping(op))
        M("overflowing_" + op)(overflowing(op))
        M("saturating_" + op)(saturating(op))
        M("unchecked_" + op)(plain(op))

    def ckdiv(op):
        def f(I, st, ctx, a, b):
            out = []
            bad = disj([int_eq(b, ZERO), conj([int_eq(a, Int(lo)), int_eq(b, Int(-1))])]) if lo < 0 else int_eq(b, ZERO)
            for s, v in I.fork(st, bad):
                out.append((s, NONE if v else Some((div if op == "div" else rem)(a, b))))
            return out
        return f
    M("checked_div")(ckdiv("div"))
    M("checked_rem")(ckdiv("rem"))
    def euclid(I, st, a, b, which):
        """[(state, quotient or remainder with the remainder not negative)]"""
        out = []
        r = rem(a, b)
        for s, neg in I.fork(st, lt(r, ZERO)):
            if not neg:
                out.append((s, r if which == "rem" else div(a, b)))
                continue
            for s2, pos in I.fork(s, lt(ZERO, b)):
                if which == "rem":
                    out.append((s2, add(r, b if pos else scale(b, -1))))
                else:
                    out.append((s2, add(div(a, b), Int(-1 if pos else 1))))
        return out

    def ckeuclid(op, check):
        def f(I, st, ctx, a, b):
            bad = disj([int_eq(b, ZERO), conj([int_eq(a, Int(lo)), int_eq(b, Int(-1))])]) if lo < 0 else int_eq(b, ZERO)
            if not check:
                I.oblige(ctx.fr, ctx.span, "panic:" + op, entails(st.facts, Not(bad)) is True, "division by zero or overflow", st)
            out = []
            for s, v in I.fork(st, bad):
                if not v:
                    out += [(s2, Some(x) if check else x) for s2, x in euclid(I, s, a, b, op[:3])]
                elif check:
                    out.append((s, NONE))
            return out
        return f
    M("rem_euclid")(ckeuclid("rem_euclid", False))
    M("div_euclid")(ckeuclid("div_euclid", False))
    M("checked_rem_euclid")(ckeuclid("rem_euclid", True))
    M("checked_div_euclid")(ckeuclid("div_euclid", True))
    M("wrapping_div")(lambda I, st, ctx, a, b: div(a, b))
    M("wrapping_rem")(lambda I, st, ctx, a, b: rem(a, b))

    def ckshift(op):
        def f(I, st, ctx, a, b):
            out = []
            for s, v in I.fork(st, lt(b, Int(8 * n))):
                if v:
                    x = typed_shift(op, a, b, ty)
                    out.append((s, Some(x)))
                else:
                    out.append((s, NONE))
            return out
        return f
    M("checked_shl")(ckshift("shl"))
    M("checked_shr")(ckshift("shr"))

    def wrapshift(op):
        def f(I, st, ctx, a, b):
            return typed_shift(op, a, bitop("and", b, Int(8 * n - 1)), ty)
        return f
    M("wrapping_shl")(wrapshift("shl"))
    M("wrapping_shr")(wrapshift("shr"))

    def abs_(I, st, ctx, a):
        I.oblige(ctx.fr, ctx.span, "panic:abs", entails(st.facts, lt(Int(lo), a)) is True, "abs of MIN", st)
        return [(s, a if v else scale(a, -1)) for s, v in I.fork(st, le(ZERO, a))]
    M("abs")(abs_)
    M("unsigned_abs")(lambda I, st, ctx, a: [(s, a if v else scale(a, -1)) for s, v in I.fork(st, le(ZERO, a))])
    M("wrapping_abs")(lambda I, st, ctx, a: [(s, a if v else scale(a, -1)) for s, v in I.fork(st, le(ZERO, a))])
    M("checked_abs")(lambda I, st, ctx, a: [(s, NONE if v else None) for s, v in I.fork(st, int_eq(a, Int(lo)))] if False else
                     [x for s, v in I.fork(st, int_eq(a, Int(lo))) for x in ([(s, NONE)] if v else [(s2, Some(a if p else scale(a, -1))) for s2, p in I.fork(s, le(ZERO, a))])])
    M("checked_neg")(lambda I, st, ctx, a: [(s, Some(scale(a, -1)) if v else NONE) for s, v in I.fork(st, inr(scale(a, -1)))])
    M("wrapping_neg")(lambda I, st, ctx, a: trunc(ty, scale(a, -1)))
    M("abs_diff")(lambda I, st, ctx, a, b: [(s, sub(b, a) if v else sub(a, b)) for s, v in I.fork(st, le(a, b))])
    M("signum")(lambda I, st, ctx, a: [x for s, v in I.fork(st, int_eq(a, ZERO)) for x in ([(s, ZERO)] if v else [(s2, ONE if p else Int(-1)) for s2, p in I.fork(s, lt(ZERO, a))])])
    M("is_negative")(lambda I, st, ctx, a: lt(a, ZERO))
    M("is_positive")(lambda I, st, ctx, a: lt(ZERO, a))

    def pow_(I, st, ctx, a, b):
        if a.op == "int" and b.op == "int":
            return Int(a.args[0] ** b.args[0])
        return mk("call", "pow", a, b)
    M("pow")(pow_)
    for nm in ("count_ones", "leading_zeros", "trailing_zeros", "count_zeros", "swap_bytes", "reverse_bits", "rotate_left", "rotate_right", "is_power_of_two", "div_ceil", "isqrt", "ilog2", "next_power_of_two", "to_le", "to_be", "from_str_radix"):
        def pure(nm=nm):
            def f(I, st, ctx, *a):
                return mk("call", nm, *a)
            return f
        M(nm)(pure())
    M("is_ascii")(lambda I, st, ctx, a: mk("call", "is_ascii", a))
    M("to_ascii_lowercase")(lambda I, st, ctx, a: mk("call", "to_ascii_lowercase", a))
    M("to_ascii_uppercase")(lambda I, st, ctx, a: mk("call", "to_ascii_uppercase", a))
    M("eq_ignore_ascii_case")(lambda I, st, ctx, a, b: mk("call", "eq_ignore_ascii_case", a, b))


for _t in INTS:
    int_model(_t)


def op_model(name, op):
    @raw(name)
    def _(I, st, ctx, argv):
        t = strip_ref(ctx.args[0])
        a, b = I.load(st, argv[0]), I.load(st, argv[1])
        if t[0] == "p":
            r = I.binop(ctx.fr, st, op, a, b, t)
            return [(st, r)]
        if name == "Add::add" and is_seq_ty(t):
            return [(st, Seq(a, b))]
        return NotImplemented


for nm, op in (("Add::add", "Add"), ("Sub::sub", "Sub"), ("Mul::mul", "Mul"), ("Div::div", "Div"), ("Rem::rem", "Rem"),
               ("BitAnd::bitand", "BitAnd"), ("BitOr::bitor", "BitOr"), ("BitXor::bitxor", "BitXor"), ("Shl::shl", "Shl"), ("Shr::shr", "Shr")):
    op_model(nm, op)


@raw("Not::not", "Neg::neg")
def _(I, st, ctx, argv):
    t = strip_ref(ctx.args[0])
    a = I.load(st, argv[0])
    if t == ("p", "bool"):
        return [(st, Not(a))]
    if ctx.key == "Neg::neg" and t[0] == "p":
        return [(st, scale(a, -1))]
    return NotImplemented


def opassign(name, op):
    @raw(name)
    def _(I, st, ctx, argv):
        t = strip_ref(ctx.args[0])
        a, b = I.load(st, argv[0]), I.load(st, argv[1])
        if t[0] == "p" and argv[0].op == "ref":
            I.store_to(st, argv[0], I.binop(ctx.fr, st, op, a, b, t))
            return [(st, UNIT)]
        if name.startswith("AddAssign") and is_seq_ty(t) and argv[0].op == "ref":
            I.store_to(st, argv[0], Seq(a, b))
            return [(st, UNIT)]
        return NotImplemented


for nm, op in (("AddAssign::add_assign", "Add"), ("SubAssign::sub_assign", "Sub"), ("MulAssign::mul_assign", "Mul"), ("BitAndAssign::bitand_assign", "BitAnd"),
               ("BitOrAssign::bitor_assign", "BitOr"), ("BitXorAssign::bitxor_assign", "BitXor"), ("ShlAssign::shl_assign", "Shl"), ("ShrAssign::shr_assign", "Shr")):
    opassign(nm, op)


@model("mem::size_of", "mem::size_of_val", "mem::align_of")
def _(I, st, ctx, *a):
    t = ctx.args[0] if ctx.args else None
    if t and t[0] == "p" and t[1] in SIZE:
        return Int(SIZE[t[1]])
    if t and t[0] == "array" and t[1][0] == "p":
        n = t[2][1] if isinstance(t[2], tuple) else t[2]
        if isinstance(n, int):
            return Int(SIZE.get(t[1][1], 1) * n)
    return mk("call", "size_of", mk("ty", t))


# ------------------------------------------------------------------ sequences
@raw(*["FromPrimitive::from_" + x for x in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize")])
def _(I, st, ctx, argv):
    """derived num FromPrimitive: the variant with that discriminant, if there is one"""
    ty = ctx.args[0] if ctx.args else None
    if not ty or ty[0] != "adt" or ty[1] not in TM.DISCR or not derived_from_primitive(I.F, ty[1]):
        return NotImplemented
    x = I.load(st, argv[0])
    ds = TM.DISCR[ty[1]]
    if x.op == "int":
        return [(st, Some(FromDiscr(ty[1], x)) if x.args[0] in ds else NONE)]
    if x.op == "discr" and x.args[1] == ty[1]:
        return [(st, Some(x.args[0]))]
    return [(s, Some(FromDiscr(ty[1], x)) if b else NONE) for s, b in fork_in_set(I, st, x, sorted(ds))]


def fork_in_set(I, st, x, vals):
    """split on membership of x in a set of integers given as a union of ranges"""
    runs = []
    for v in vals:
        if runs and runs[-1][1] == v - 1:
            runs[-1][1] = v
        else:
            runs.append([v, v])
    from interp import upper
    hi, lo = upper(x, st.facts), upper(scale(x, -1), st.facts)
    if hi is not None and lo is not None:
        if any(a <= -lo and hi <= b for a, b in runs):
            return [(st, True)]
        if all(hi < a or -lo > b for a, b in runs):
            return [(st, False)]
    if len(runs) == 1:
        out = []
        for s, ok in I.fork(st, le(x, Int(runs[0][1]))):
            out += I.fork(s, le(Int(runs[0][0]), x)) if ok else [(s, False)]
        return out
    p = mk("pred", "in", x, mk("ranges", *[Int(v) for r in runs for v in r]))
    return I.fork(st, p)


def derived_from_primitive(F, adt):
    for im in F.impls if not isinstance(F.impls, dict) else F.impls.values():
        if im.get("trait_name", "").endswith("FromPrimitive") and im["self"][:2] == ("adt", adt):
            for it in im["items"]:
                f = F.fns.get(it[1] if isinstance(it, (list, tuple)) else it)
                if f and f.get("body"):
                    for b in f["body"]["blocks"]:
                        if b.get("mac") == "FromPrimitive" or "FromPrimitive" in (b.get("mac") or ()):
                            return True
    return False


@raw("Vec::new", "String::new", "VecDeque::new")
def _(I, st, ctx, argv):
    return [(st, EMPTY)]


@raw("HashMap::new", "BTreeMap::new", "HashSet::new", "BTreeSet::new", "BiHashMap::new", "HashMap::with_capacity")
def _(I, st, ctx, argv):
    return [(st, mk("emptymap"))]


@raw("Vec::with_capacity", "String::with_capacity")
def _(I, st, ctx, argv):
    n = I.load(st, argv[0])
    I.alloc(ctx, n, st)
    return [(st, EMPTY)]


@raw("vec::from_elem")
def _(I, st, ctx, argv):
    n = I.load(st, argv[1])
    I.alloc(ctx, n, st)
    x = I.load(st, argv[0])
    return [(st, Seq(mk("repeat", x, n)) if n.op == "int" and n.args[0] <= 4 else mk("repeat", x, n))]


@raw("Box::new_uninit", "MaybeUninit::uninit", "Box::new_uninit_slice")
def _(I, st, ctx, argv):
    if ctx.key and "Box" in ctx.key:
        k = I.tmp()
        st.store[k] = mk("uninit")
        return [(st, mk("ref", k, ()))]
    return [(st, mk("uninit"))]


@raw("boxed::box_assume_init_into_vec_unsafe", "Box::assume_init", "MaybeUninit::assume_init", "slice::into_vec")
def _(I, st, ctx, argv):
    x = I.load(st, argv[0])
    if argv[0].op == "ref" and argv[0].args[0][0] == "tmp":
        st.store.pop(argv[0].args[0], None)
    return [(st, x)]


@raw("Box::write", "MaybeUninit::write")
def _(I, st, ctx, argv):
    if argv[0].op == "ref":
        I.store_to(st, argv[0], argv[1])
        return [(st, argv[0])]
    return [(st, argv[1])]


def mutseq(*names):
    """f(I, st, ctx, value, *args) -> new value or (new value, ret)"""
    def deco(f):
        def g(I, st, ctx, argv):
            if argv[0].op != "ref":
                return NotImplemented
            v = I.load(st, argv[0])
            r = f(I, st, ctx, v, *[I.load(st, a) for a in argv[1:]])
            if r is NotImplemented:
                return r
            if isinstance(r, list):
                out = []
                for s, nv, ret in r:
                    if nv is not None:
                        I.store_to(s, argv[0], nv)
                    out.append((s, ret))
                return out
            if isinstance(r, tuple):
                I.store_to(st, argv[0], r[0])
                return [(st, r[1])]
            I.store_to(st, argv[0], r)
            return [(st, UNIT)]
        for n in names:
            MODELS[n] = g
        return f
    return deco


@mutseq("Vec::push", "VecDeque::push_back")
def _(I, st, ctx, v, x):
    return Seq(v, item(x))


@mutseq("String::push")
def _(I, st, ctx, v, x):
    return Seq(v, item(x))


@mutseq("Vec::extend_from_slice", "String::push_str")
def _(I, st, ctx, v, x):
    return Seq(v, x)


@raw("Vec::append")
def _(I, st, ctx, argv):
    v, o = I.load(st, argv[0]), I.load(st, argv[1])
    if argv[0].op != "ref":
        return NotImplemented
    I.store_to(st, argv[0], Seq(v, o))
    if argv[1].op == "ref":
        I.store_to(st, argv[1], EMPTY)
    return [(st, UNIT)]


@mutseq("Vec::clear", "String::clear")
def _(I, st, ctx, v):
    return EMPTY


@mutseq("Vec::insert")
def _(I, st, ctx, v, i, x):
    n = Len(v)
    ok = le(i, n)
    I.oblige(ctx.fr, ctx.span, "panic:Vec::insert", entails(st.facts, ok) is True, show(ok), st)
    s = I.assume(st, ok)
    if s is None:
        return []
    s = copy(s)
    return [(s, Seq(Slice(v, ZERO, i), item(x), Slice(v, i, n)), UNIT)]


@mutseq("Vec::remove")
def _(I, st, ctx, v, i):
    n = Len(v)
    ok = lt(i, n)
    I.oblige(ctx.fr, ctx.span, "panic:Vec::remove", entails(st.facts, ok) is True, show(ok), st)
    s = I.assume(st, ok)
    if s is None:
        return []
    s = copy(s)
    return [(s, Seq(Slice(v, ZERO, i), Slice(v, add(i, ONE), n)), Idx(v, i))]


@mutseq("Vec::swap_remove")
def _(I, st, ctx, v, i):
    ok = lt(i, Len(v))
    I.oblige(ctx.fr, ctx.span, "panic:Vec::swap_remove", entails(st.facts, ok) is True, show(ok), st)
    return (mk("call", "swap_remove", v, i), Idx(v, i))


@mutseq("Vec::pop")
def _(I, st, ctx, v):
    out = []
    n = Len(v)
    for s, b in I.fork(st, eq0(n)):
        if b:
            out.append((s, EMPTY, NONE))
        else:
            m = sub(n, ONE)
            out.append((s, Slice(v, ZERO, m), Some(Idx(v, m))))
    return out


@mutseq("Vec::truncate")
def _(I, st, ctx, v, n):
    out = []
    for s, b in I.fork(st, le(n, Len(v))):
        out.append((s, Slice(v, ZERO, n) if b else v, UNIT))
    return out


@mutseq("Vec::resize")
def _(I, st, ctx, v, n, x):
    out = []
    for s, b in I.fork(st, le(n, Len(v))):
        if b:
            out.append((s, Slice(v, ZERO, n), UNIT))
        else:
            out.append((s, Seq(v, mk("repeat", x, sub(n, Len(v)))), UNIT))
    return out


@mutseq("Vec::split_off")
def _(I, st, ctx, v, at):
    n = Len(v)
    ok = le(at, n)
    I.oblige(ctx.fr, ctx.span, "panic:Vec::split_off", entails(st.facts, ok) is True, show(ok), st)
    s = I.assume(st, ok)
    if s is None:
        return []
    s = copy(s)
    return [(s, Slice(v, ZERO, at), Slice(v, at, n))]


@mutseq("Vec::drain", "String::drain")
def _(I, st, ctx, v, r):
    b = range_bounds(I, st, r, Len(v))
    if b is None:
        return NotImplemented
    lo, hi = b
    if not check_range(I, st, ctx, lo, hi, Len(v), "Vec::drain"):
        return []
    return (Seq(Slice(v, ZERO, lo), Slice(v, hi, Len(v))), mk("it", Slice(v, lo, hi)))


@mutseq("[T]::reverse")
def _(I, st, ctx, v):
    return Rev(v)


@mutseq("[T]::sort", "[T]::sort_unstable", "Vec::sort")
def _(I, st, ctx, v):
    return mk("sorted", v, UNIT)


@mutseq("[T]::sort_by_key", "[T]::sort_by", "[T]::sort_unstable_by_key", "[T]::sort_unstable_by", "[T]::sort_by_cached_key")
def _(I, st, ctx, v, f):
    # name the key by what the closure computes on a generic element
    key = sort_key(I, st, ctx, f, ctx.key)
    return mk("sorted", v, key)


def sort_key(I, st, ctx, f, k):
    e, e2 = mk("var", "$a"), mk("var", "$b")
    n = 2 if k.endswith("sort_by") or k.endswith("unstable_by") else 1
    sv = I.collect_obl
    try:
        outs = I.call_value(copy(st), f, [e, e2][:n], ctx)
        base = st.facts
        return mk("keyfn", n, tuple(sorted(((tuple(sorted(s.facts - base, key=lambda z: z.id)), r) for s, r in outs), key=lambda p: (p[1].id,))))
    except Imprecise:
        return mk("keyfn", n, f)


@mutseq("[T]::swap")
def _(I, st, ctx, v, i, j):
    for k in (i, j):
        ok = lt(k, Len(v))
        I.oblige(ctx.fr, ctx.span, "panic:swap", entails(st.facts, ok) is True, show(ok), st)
    a, b = Idx(v, i), Idx(v, j)
    if v.op == "seq" and i.op == "int" and j.op == "int" and all(p.op == "item" for p in v.args):
        ps = list(v.args)
        ps[i.args[0]], ps[j.args[0]] = item(b), item(a)
        return Seq(*ps)
    return mk("updi", mk("updi", v, i, b), j, a)


@mutseq("[T]::fill")
def _(I, st, ctx, v, x):
    return mk("repeat", x, Len(v))


@raw("[T]::copy_from_slice", "[T]::clone_from_slice")
def _(I, st, ctx, argv):
    dst, src = I.load(st, argv[0]), I.load(st, argv[1])
    ok = int_eq(Len(dst), Len(src))
    e = entails(st.facts, ok)
    I.oblige(ctx.fr, ctx.span, "panic:copy_from_slice", e is True, show(ok), st)
    s = I.assume(st, ok)
    if s is None:
        return []
    s = copy(s)
    if argv[0].op != "ref":
        I.event(s, mk("write", argv[0], src))
        return [(s, UNIT)]
    I.store_to(s, argv[0], src)
    return [(s, UNIT)]


@mutseq("[T]::rotate_left", "[T]::rotate_right")
def _(I, st, ctx, v, n):
    if ctx.key.endswith("left"):
        return Seq(Slice(v, n, Len(v)), Slice(v, ZERO, n))
    m = sub(Len(v), n)
    return Seq(Slice(v, m, Len(v)), Slice(v, ZERO, m))


@mutseq("Vec::retain", "Vec::retain_mut")
def _(I, st, ctx, v, f):
    outs = collect_seq(I, st, ctx, mk("filter", mk("it", v), f))
    return [(s, r, UNIT) for s, r in outs]


@mutseq("Vec::dedup", "Vec::shrink_to_fit", "Vec::reserve")
def _(I, st, ctx, v, *a):
    if ctx.key.endswith("dedup"):
        return mk("call", "dedup", v)
    return v


@raw("Extend::extend")
def _(I, st, ctx, argv):
    if argv[0].op != "ref":
        return NotImplemented
    t = strip_ref(ctx.args[0])
    src = argv[1]
    src_t = ctx.args[-1]
    out = []
    for s, it in into_iter(I, st, ctx, src, src_t):
        for s2, xs in collect_seq(I, s, ctx, it):
            v = I.load(s2, argv[0])
            if is_seq_ty(t):
                if ty_short(t) == "String":
                    xs = flatten_if_strs(xs)
                I.store_to(s2, argv[0], Seq(v, xs))
            else:
                I.store_to(s2, argv[0], mk("mextend", v, xs))
            out.append((s2, UNIT))
    return out


def flatten_if_strs(xs):
    return xs


@model("[T]::len", "Vec::len", "str::len", "String::len", "HashMap::len", "VecDeque::len", "BTreeMap::len", "[T;N]::len", "Punctuated::len")
def _(I, st, ctx, x):
    return Len(x)


@model("[T]::is_empty", "Vec::is_empty", "str::is_empty", "String::is_empty", "HashMap::is_empty", "VecDeque::is_empty")
def _(I, st, ctx, x):
    return eq0(Len(x))


@raw("[T]::first", "[T]::last", "[T]::first_mut", "[T]::last_mut")
def _(I, st, ctx, argv):
    v = I.load(st, argv[0])
    out = []
    n = Len(v)
    for s, b in I.fork(st, eq0(n)):
        if b:
            out.append((s, NONE))
        else:
            i = ZERO if "first" in ctx.key else sub(n, ONE)
            if ctx.key.endswith("mut") and argv[0].op == "ref":
                out.append((s, Some(mk("ref", argv[0].args[0], argv[0].args[1] + (("i", i),)))))
            else:
                out.append((s, Some(Idx(v, i))))
    return out


@model("[T]::split_first", "[T]::split_last")
def _(I, st, ctx, v):
    out = []
    n = Len(v)
    for s, b in I.fork(st, eq0(n)):
        if b:
            out.append((s, NONE))
        elif ctx.key.endswith("first"):
            out.append((s, Some(Tup(Idx(v, ZERO), Slice(v, ONE, n)))))
        else:
            m = sub(n, ONE)
            out.append((s, Some(Tup(Idx(v, m), Slice(v, ZERO, m)))))
    return out


RANGES_ = {"Range": 2, "RangeTo": 1, "RangeFrom": 1, "RangeFull": 0, "RangeInclusive": 2, "RangeToInclusive": 1}


def range_bounds(I, st, r, n):
    """(lo, hi) when r is a range value over a sequence of length n"""
    if r.op == "rangeinc":
        return r.args[0], add(r.args[1], ONE)
    if r.op == "range":
        return r.args[0], r.args[1]
    if r.op != "adt":
        return None
    nm = r.args[0].split("::")[-1]
    f = r.args[2:]
    if nm == "Range":
        return f[0], f[1]
    if nm == "RangeTo":
        return ZERO, f[0]
    if nm == "RangeFrom":
        return f[0], n
    if nm == "RangeFull":
        return ZERO, n
    if nm == "RangeToInclusive":
        return ZERO, add(f[0], ONE)
    if nm == "RangeInclusive":
        return f[0], add(f[1], ONE)
    return None


def check_range(I, st, ctx, lo, hi, n, what):
    c = conj([le(lo, hi), le(hi, n)])
    e = entails(st.facts, c)
    I.oblige(ctx.fr, ctx.span, "panic:" + what, e is True, show(c), st)
    if e is False:
        return False
    f = assume_facts(st.facts, c)
    if f is None:
        return False
    st.facts = f
    return True


@raw("Index::index", "IndexMut::index_mut")
def _(I, st, ctx, argv):
    base = I.load(st, argv[0])
    i = I.load(st, argv[1])
    t = strip_ref(ctx.args[0])
    if t[0] == "adt" and t[1].split("::")[-1] in ("HashMap", "BTreeMap"):
        g = mget(base, i, st.facts)
        c = isv(g, OPTION, 1)
        I.oblige(ctx.fr, ctx.span, "panic:map index", entails(st.facts, c) is True, show(c), st)
        s = I.assume(st, c)
        return [(s, Fld(g, OPTION, 1, 0))] if s is not None else []
    n = Len(base)
    rb = range_bounds(I, st, i, n)
    it = strip_ref(ctx.args[1]) if len(ctx.args) > 1 else None
    st = copy(st)
    if rb is None:
        if it and it[0] in ("param", "other") :
            # generic index: opaque but pure
            return [(st, mk("call", "index", base, i))]
        c = lt(i, n)
        e = entails(st.facts, c)
        I.oblige(ctx.fr, ctx.span, "panic:index", e is True, show(c), st)
        if e is False:
            return []
        f = assume_facts(st.facts, c)
        if f is None:
            return []
        st.facts = f
        if "Mut" in ctx.key and argv[0].op == "ref":
            return [(st, mk("ref", argv[0].args[0], argv[0].args[1] + (("i", i),)))]
        r = Idx(base, i)
        return [(st, r)]
    lo, hi = rb
    if not check_range(I, st, ctx, lo, hi, n, "slice"):
        return []
    if "Mut" in ctx.key and argv[0].op == "ref":
        return [(st, mk("ref", argv[0].args[0], argv[0].args[1] + (("sl", lo, hi),)))]
    return [(st, Slice(base, lo, hi))]


@raw("[T]::get", "[T]::get_mut", "str::get", "Vec::get")
def _(I, st, ctx, argv):
    base, i = I.load(st, argv[0]), I.load(st, argv[1])
    n = Len(base)
    rb = range_bounds(I, st, i, n)
    out = []
    if rb is None:
        for s, b in I.fork(st, lt(i, n)):
            if b and ctx.key.endswith("mut") and argv[0].op == "ref":
                out.append((s, Some(mk("ref", argv[0].args[0], argv[0].args[1] + (("i", i),)))))
            else:
                out.append((s, Some(Idx(base, i)) if b else NONE))
        return out
    lo, hi = rb
    for s, b in I.fork(st, conj([le(lo, hi), le(hi, n)])):
        out.append((s, Some(Slice(base, lo, hi)) if b else NONE))
    return out


@raw("[T]::split_at", "[T]::split_at_mut", "str::split_at")
def _(I, st, ctx, argv):
    base, i = I.load(st, argv[0]), I.load(st, argv[1])
    n = Len(base)
    st = copy(st)
    if not check_range(I, st, ctx, i, n, n, "split_at"):
        return []
    if ctx.key.endswith("mut") and argv[0].op == "ref":
        k, p = argv[0].args
        return [(st, Tup(mk("ref", k, p + (("sl", ZERO, i),)), mk("ref", k, p + (("sl", i, n),))))]
    return [(st, Tup(Slice(base, ZERO, i), Slice(base, i, n)))]


@model("[T]::split_at_checked")
def _(I, st, ctx, base, i):
    n = Len(base)
    return [(s, Some(Tup(Slice(base, ZERO, i), Slice(base, i, n))) if b else NONE) for s, b in I.fork(st, le(i, n))]


@model("[T]::concat", "Concat::concat", "Join::join", "[T]::join")
def _(I, st, ctx, xs, sep=None):
    if sep is not None and not (sep.op == "seq" and not sep.args):
        return mk("call", "join", xs, sep)
    return flatten(xs)


def flatten(xs):
    """concatenation of a sequence of sequences"""
    out = []
    for p in seq_parts(xs):
        if p.op == "item":
            out.append(p.args[0])
        elif p.op == "rep":
            d, n, cs = p.args
            ok = all(q.op == "item" for g, ps in cs for q in ps)
            if ok:
                out.append(Rep(d, n, tuple((g, seq_parts(Seq(*[q.args[0] for q in ps]))) for g, ps in cs)))
            else:
                out.append(mk("flatten", p))
        else:
            # xs itself is opaque: each element spread
            out.append(mk("flatten", p))
    return Seq(*out)


@model("[T]::contains", "Vec::contains", "str::contains", "HashSet::contains", "BTreeSet::contains")
def _(I, st, ctx, xs, x):
    if xs.op == "seq" and all(p.op == "item" for p in xs.args):
        return disj([teq(p.args[0], x) for p in xs.args])
    return mk("pred", "contains", xs, x)


@model("RangeInclusive::contains", "Range::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains", "RangeBounds::contains")
def _(I, st, ctx, r, x):
    b = range_bounds(I, st, r, None)
    if b is None:
        return mk("pred", "contains", r, x)
    lo, hi = b
    cs = []
    nm = r.args[0].split("::")[-1] if r.op == "adt" else r.op
    if nm not in ("RangeTo", "RangeToInclusive"):
        cs.append(le(lo, x))
    if hi is not None:
        cs.append(lt(x, hi))
    return conj(cs)


@model("[T]::starts_with", "str::starts_with")
def _(I, st, ctx, xs, p):
    n = Len(p)
    if n.op == "int":
        return conj([le(n, Len(xs)), teq(Slice(xs, ZERO, n), p)])
    return mk("pred", "starts_with", xs, p)


@model("[T]::ends_with", "str::ends_with")
def _(I, st, ctx, xs, p):
    n = Len(p)
    if n.op == "int":
        return conj([le(n, Len(xs)), teq(Slice(xs, sub(Len(xs), n), Len(xs)), p)])
    return mk("pred", "ends_with", xs, p)


@model("RangeInclusive::new")
def _(I, st, ctx, a, b):
    return mk("rangeinc", a, b)


@model("RangeInclusive::start", "RangeInclusive::end")
def _(I, st, ctx, r):
    return r.args[0 if ctx.key.endswith("start") else 1] if r.op == "rangeinc" else mk("call", ctx.key, r)


# strings: pure but opaque
for n in ("str::split "
          "str::parse str::char_indices str::strip_prefix str::strip_suffix str::replace str::lines str::split_whitespace str::is_char_boundary "
          "str::splitn str::split_once str::rsplit str::trim_start str::trim_end String::from_utf8_lossy str::eq_ignore_ascii_case "
          "[T]::windows [T]::binary_search FromStr::from_str char::to_digit char::from_digit char::from_u32 char::is_ascii char::is_alphanumeric char::is_numeric "
          "char::is_lowercase char::is_uppercase char::is_ascii_digit char::to_ascii_lowercase char::is_ascii_uppercase char::is_ascii_lowercase char::is_alphabetic Hasher::finish char::to_lowercase char::to_uppercase "
          "hex::decode base64::encode base64::decode serde_json::from_str serde_json::to_string").split():
    MODELS[n] = (lambda I, st, ctx, argv: [(st, note_ret(mk("call", ctx.key, *[I.load(st, a) for a in argv]), ctx))])


@model("Hash::hash")
def _(I, st, ctx, x, h):
    I.event(st, mk("hashed", x))
    return UNIT


@model("str::find", "str::rfind")
def _(I, st, ctx, x, p):
    r = note_ret(mk("call", ctx.key, x, p), ctx)
    TYP.setdefault(Fld(r, OPTION, 1, 0), "usize")
    return r


@model("String::from_utf8", "str::from_utf8")
def _(I, st, ctx, x):
    def ascii(p):
        if p.op == "item":
            h, l = hi_bound(p.args[0]), lo_bound(p.args[0])
            return h is not None and h < 128 and l is not None and l >= 0
        return p.op == "hex" or p.op == "rep" and all(ascii(q) for _, ps in p.args[2] for q in ps)
    if all(ascii(p) for p in seq_parts(x)):
        return Ok(x)
    return note_ret(mk("call", ctx.key, x), ctx)


def note_ret(t, ctx):
    note_type(t, ctx.dty)
    return t


@model("hex::encode")
def _(I, st, ctx, x):
    return mk("hex", x)


@model("char::len_utf8")
def _(I, st, ctx, x):
    return mk("call", "len_utf8", x)


# ------------------------------------------------------------------ maps
@raw("HashMap::insert", "BTreeMap::insert", "BiHashMap::insert")
def _(I, st, ctx, argv):
    m, k, v = [I.load(st, a) for a in argv]
    if argv[0].op != "ref":
        return NotImplemented
    I.store_to(st, argv[0], TM.MInsert(m, k, v))
    return [(st, mget(m, k) if ctx.key != "BiHashMap::insert" else mk("call", "overwritten", m, k, v))]


@raw("HashMap::get_mut", "BTreeMap::get_mut")
def _(I, st, ctx, argv):
    m, k = I.load(st, argv[0]), I.load(st, argv[1])
    g = mget(m, k, st.facts)
    if g is NONE:
        return [(st, NONE)]
    if g.op != "adt" or argv[0].op != "ref":
        return NotImplemented
    return [(st, Some(mk("ref", argv[0].args[0], argv[0].args[1] + (("m", k),))))]


def mget(m, k, facts=()):
    while m.op == "minsert":
        e = teq(m.args[1], k)
        if e not in (TRUE, FALSE) and facts:
            e = {True: TRUE, False: FALSE}.get(entails(facts, e))
        if e is TRUE:
            return Some(m.args[2])
        if e is FALSE:
            m = m.args[0]
            continue
        break
    if m.op == "emptymap":
        return NONE
    return mk("mget", m, k)


@model("HashMap::get", "BTreeMap::get", "BiHashMap::get_by_left")
def _(I, st, ctx, m, k):
    return mget(m, k, st.facts)


@model("HashMap::contains_key", "BTreeMap::contains_key")
def _(I, st, ctx, m, k):
    return isv(mget(m, k), OPTION, 1)


@raw("HashMap::remove", "BTreeMap::remove")
def _(I, st, ctx, argv):
    m, k = I.load(st, argv[0]), I.load(st, argv[1])
    I.store_to(st, argv[0], TM.MRemove(m, k))
    return [(st, mget(m, k))]


@model("HashMap::keys", "HashMap::values", "HashMap::iter", "BTreeMap::iter", "HashMap::into_iter", "BiHashMap::iter")
def _(I, st, ctx, m):
    return mk("it", mk("m" + ctx.key.split("::")[1], m))


# ------------------------------------------------------------------ hashing
def digest_name(t):
    s = str(t)
    for k in ("Ripemd160", "Sha256", "Sha1", "Sha512"):
        if k.lower() in s.lower():
            return k.lower()
    return "digest?"


@raw("Digest::digest")
def _(I, st, ctx, argv):
    return [(st, mk("digest", digest_name(ctx.args), I.load(st, argv[0])))]


@raw("Digest::new")
def _(I, st, ctx, argv):
    return [(st, mk("hasher", digest_name(ctx.args), EMPTY))]


@raw("Digest::update", "Update::update", "Digest::input")
def _(I, st, ctx, argv):
    h = I.load(st, argv[0])
    x = I.load(st, argv[1])
    if h.op == "hasher" and argv[0].op == "ref":
        I.store_to(st, argv[0], mk("hasher", h.args[0], Seq(h.args[1], x)))
        return [(st, UNIT)]
    return NotImplemented


@raw("Digest::chain", "Digest::chain_update", "Update::chain")
def _(I, st, ctx, argv):
    h = I.load(st, argv[0])
    if h.op == "hasher":
        return [(st, mk("hasher", h.args[0], Seq(h.args[1], I.load(st, argv[1]))))]
    return NotImplemented


@model("Digest::finalize", "Digest::result", "FixedOutput::finalize_fixed")
def _(I, st, ctx, h):
    if h.op == "hasher":
        return mk("digest", h.args[0], h.args[1])
    return NotImplemented


# ------------------------------------------------------------------ io
def endian(args):
    s = str(args)
    return "be" if "BigEndian" in s else "le"


def wr(n, ty):
    @raw("WriteBytesExt::write_" + ty)
    def _(I, st, ctx, argv):
        if argv[0].op != "ref":
            return NotImplemented
        v, x = I.load(st, argv[0]), I.load(st, argv[1])
        note_type(x, ("p", ty))
        enc = (LeB if endian(ctx.args) == "le" or n == 1 else BeB)(n, x)
        I.store_to(st, argv[0], Seq(v, enc))
        return [(st, Ok(UNIT))]

    @raw("ReadBytesExt::read_" + ty)
    def _(I, st, ctx, argv):
        out = []
        for s, b in read_bytes(I, st, argv[0], Int(n)):
            if b is None:
                out.append((s, Err(mk("call", "io_eof"))))
            else:
                r = Idx(b, ZERO) if ty == "u8" else unle(n, b, ty, endian(ctx.args) == "be")
                TM.TYP.setdefault(r, ty) if r.op not in ("int", "lin") else None
                out.append((s, Ok(r)))
        return out


for _t in INTS[:5] + INTS[6:11]:
    wr(SIZE[_t], _t)


def read_bytes(I, st, r, n):
    v = I.load(st, r)
    out = []
    if v.op == "cur":
        data, pos = v.args
        for s, b in I.fork(st, le(add(pos, n), Len(data))):
            if b:
                end = add(pos, n)
                I.store_to(s, r, mk("cur", data, end))
                out.append((s, Slice(data, pos, end)))
            else:
                out.append((s, None))
        return out
    if v.op in ("var", "fld", "tfld", "slice", "seq", "idx"):
        for s, b in I.fork(st, le(n, Len(v))):
            if b:
                if r.op == "ref":
                    I.store_to(s, r, Slice(v, n, Len(v)))
                out.append((s, Slice(v, ZERO, n)))
            else:
                out.append((s, None))
        return out
    raise Imprecise("read from %s" % v)


@raw("Read::read_exact")
def _(I, st, ctx, argv):
    buf = I.load(st, argv[1])
    out = []
    for s, b in read_bytes(I, st, argv[0], Len(buf)):
        if b is None:
            out.append((s, Err(mk("call", "io_eof"))))
        else:
            if argv[1].op == "ref":
                I.store_to(s, argv[1], b)
            out.append((s, Ok(UNIT)))
    return out


@raw("Write::write_all", "Write::write")
def _(I, st, ctx, argv):
    if argv[0].op != "ref":
        return NotImplemented
    v, x = I.load(st, argv[0]), I.load(st, argv[1])
    I.store_to(st, argv[0], Seq(v, x))
    return [(st, Ok(UNIT if ctx.key.endswith("all") else Len(x)))]


@model("Cursor::new")
def _(I, st, ctx, x):
    return mk("cur", x, ZERO)


@model("Cursor::position")
def _(I, st, ctx, c):
    return c.args[1] if c.op == "cur" else NotImplemented


@raw("Cursor::set_position")
def _(I, st, ctx, argv):
    c = I.load(st, argv[0])
    if c.op != "cur" or argv[0].op != "ref":
        return NotImplemented
    I.store_to(st, argv[0], mk("cur", c.args[0], I.load(st, argv[1])))
    return [(st, UNIT)]


@model("Cursor::get_ref", "Cursor::into_inner")
def _(I, st, ctx, c):
    return c.args[0] if c.op == "cur" else NotImplemented


# ------------------------------------------------------------------ iterators
def into_iter(I, st, ctx, v, t):
    ref_mut = v.op == "ref"
    x = I.load(st, v) if v.op == "ref" else v
    tt = strip_ref(t) if t else None
    if x.op in ITER_OPS:
        if ref_mut:
            return [(st, v)]
        return [(st, x)]
    if x.op == "adt":
        nm = x.args[0].split("::")[-1]
        if nm == "Range":
            return [(st, mk("range", x.args[2], x.args[3]))]
        if nm == "RangeFrom":
            return [(st, mk("range", x.args[2], Int(2**64)))]
        if nm == "Option":
            return [(st, mk("it", items(*x.args[2:])))]
    if x.op == "rangeinc":
        return [(st, mk("range", x.args[0], add(x.args[1], ONE)))]
    if tt and tt[0] == "adt" and tt[1] == OPTION:
        return [(s, mk("it", items(*fs))) for s, var, fs in I.split(st, x, OPTION)]
    if ref_mut and t and t[0] == "ref" and t[1]:
        # elements by mutable reference
        return [(st, mk("it", mk("refs", v.args[0], v.args[1], x)))]
    if tt and tt[0] == "adt" and I.F.adts.get(tt[1], {}).get("local"):
        r = I.F.resolve("core::iter::traits::collect::IntoIterator::into_iter", "core::iter::traits::collect::IntoIterator", (t,))
        if r and r[0] != "default":
            return call_local(I, st, ctx, r[0], r[1], [v])
    return [(st, mk("it", x))]


@raw("IntoIterator::into_iter", "Vec::into_iter", "[T]::iter", "Vec::iter", "[T;N]::iter", "array::iter", "str::bytes", "[T;N]::into_iter", "HashSet::iter")
def _(I, st, ctx, argv):
    t = ctx.argt[0] if ctx.argt else None
    if ctx.key == "IntoIterator::into_iter" and ctx.args and ctx.args[0][0] not in ("param", "other"):
        t = ctx.args[0]
    elif ctx.key != "IntoIterator::into_iter":
        return [(st, mk("it", I.load(st, argv[0])))]
    return into_iter(I, st, ctx, argv[0], t)


@raw("Punctuated::iter", "Punctuated::into_iter")
def _(I, st, ctx, argv):
    v = I.load(st, argv[0])
    return [(st, mk("it", v))] if v.op == "seq" else NotImplemented


@raw("[T]::iter_mut", "Vec::iter_mut")
def _(I, st, ctx, argv):
    v = argv[0]
    if v.op != "ref":
        return [(st, mk("it", v))]
    return [(st, mk("it", mk("refs", v.args[0], v.args[1], I.load(st, v))))]


TM.REBUILD["refs"] = lambda k, p, x: mk("refs", k, p, x)
_oldLen = TM.Len
_oldIdx = TM.Idx


@model("str::chars")
def _(I, st, ctx, x):
    return mk("it", chars_of(x))


def chars_of(x):
    if x.op == "str":
        return items(*[Int(ord(c)) for c in x.args[0]]) if len(x.args[0]) < 64 else mk("chars", x)
    if x.op == "seq" and all(p.op in ("item", "str") for p in x.args):
        return Seq(*[q for p in x.args for q in ([p] if p.op == "item" else seq_parts(chars_of(p)))])
    return mk("chars", x)


@model("[T]::chunks", "[T]::chunks_exact")
def _(I, st, ctx, xs, n):
    return mk("it", mk("chunks", xs, n))


for nm, op in (("map", "map"), ("filter", "filter"), ("filter_map", "fmap"), ("flat_map", "flatmap"), ("skip_while", "skipwhile"), ("take_while", "takewhile"), ("map_while", "mapwhile")):
    def _mk(op):
        def f(I, st, ctx, argv):
            return [(s, mk(op, it, argv[1])) for s, it in as_iter(I, st, argv[0])]
        return f
    MODELS["Iterator::" + nm] = _mk(op)
ITER_OPS.add("mapwhile")


def as_iter(I, st, v):
    x = I.load(st, v)
    if x.op == "adt" and x.args[0].endswith("::Range"):
        return [(st, mk("range", x.args[2], x.args[3]))]
    if x.op == "adt" and x.args[0].endswith("::RangeFrom"):
        return [(st, mk("range", x.args[2], Int(2**64)))]
    if x.op == "rangeinc":
        return [(st, mk("range", x.args[0], add(x.args[1], ONE)))]
    if x.op in ITER_OPS:
        return [(st, x)]
    return [(st, mk("it", x))]


@raw("Iterator::enumerate")
def _(I, st, ctx, argv):
    return [(s, mk("enum", it, ZERO)) for s, it in as_iter(I, st, argv[0])]


@raw("Iterator::zip", "iter::zip")
def _(I, st, ctx, argv):
    out = []
    for s, a in as_iter(I, st, argv[0]):
        for s2, b in into_iter(I, s, ctx, argv[1], ctx.argt[1] if len(ctx.argt) > 1 else None):
            out.append((s2, mk("zip", a, b)))
    return out


@raw("Iterator::chain")
def _(I, st, ctx, argv):
    out = []
    for s, a in as_iter(I, st, argv[0]):
        for s2, b in into_iter(I, s, ctx, argv[1], ctx.argt[1] if len(ctx.argt) > 1 else None):
            if a.op == "it" and b.op == "it":
                out.append((s2, mk("it", Seq(*[spread(p) for p in (a.args[0], b.args[0])]))))
            else:
                out.append((s2, mk("chain", a, b)))
    return out


def spread(x):
    return x


@raw("Iterator::rev", "DoubleEndedIterator::rev")
def _(I, st, ctx, argv):
    out = []
    for s, a in as_iter(I, st, argv[0]):
        out.append((s, rev_iter(a)))
    return out


def rev_iter(a):
    if a.op == "it":
        return mk("it", Rev(a.args[0]))
    if a.op == "range":
        return mk("it", Rev(mk("rangeseq", a.args[0], a.args[1])))
    if a.op == "map":
        return mk("map", rev_iter(a.args[0]), a.args[1])
    if a.op == "enum" and a.args[0].op == "it":
        xs = a.args[0].args[0]
        return mk("zip", rev_iter(mk("range", a.args[1], add(a.args[1], Len(xs)))), rev_iter(a.args[0]))
    raise Imprecise("rev of %s" % a.op)


@raw("Iterator::skip")
def _(I, st, ctx, argv):
    n = I.load(st, argv[1])
    out = []
    for s, a in as_iter(I, st, argv[0]):
        out += skip_iter(I, s, a, n)
    return out


def skip_iter(I, st, a, n):
    if a.op == "it":
        xs = a.args[0]
        out = []
        for s, b in I.fork(st, le(n, Len(xs))):
            out.append((s, mk("it", Slice(xs, n, Len(xs)) if b else EMPTY)))
        return out
    if a.op == "range":
        return [(s, mk("range", add(a.args[0], n) if b else a.args[1], a.args[1])) for s, b in I.fork(st, le(add(a.args[0], n), a.args[1]))]
    if a.op == "map":
        return [(s, mk("map", x, a.args[1])) for s, x in skip_iter(I, st, a.args[0], n)]
    if a.op == "enum":
        return [(s, mk("enum", x, add(a.args[1], n))) for s, x in skip_iter(I, st, a.args[0], n)]
    if a.op == "zip":
        return [(s2, mk("zip", x, y)) for s, x in skip_iter(I, st, a.args[0], n) for s2, y in skip_iter(I, s, a.args[1], n)]
    raise Imprecise("skip of " + a.op)


@raw("Iterator::take")
def _(I, st, ctx, argv):
    n = I.load(st, argv[1])
    out = []
    for s, a in as_iter(I, st, argv[0]):
        out += take_iter(I, s, a, n)
    return out


def take_iter(I, st, a, n):
    if a.op == "it":
        xs = a.args[0]
        return [(s, mk("it", Slice(xs, ZERO, n) if b else xs)) for s, b in I.fork(st, le(n, Len(xs)))]
    if a.op == "range":
        return [(s, mk("range", a.args[0], add(a.args[0], n) if b else a.args[1])) for s, b in I.fork(st, le(add(a.args[0], n), a.args[1]))]
    if a.op == "map":
        return [(s, mk("map", x, a.args[1])) for s, x in take_iter(I, st, a.args[0], n)]
    if a.op == "enum":
        return [(s, mk("enum", x, a.args[1])) for s, x in take_iter(I, st, a.args[0], n)]
    if a.op == "zip":
        return [(s, mk("zip", x, a.args[1])) for s, x in take_iter(I, st, a.args[0], n)]
    if a.op == "repeatit":
        return [(st, mk("it", mk("repeat", a.args[0], n)))]
    raise Imprecise("take of " + a.op)


@raw("iter::repeat")
def _(I, st, ctx, argv):
    return [(st, mk("repeatit", I.load(st, argv[0])))]


@raw("iter::repeat_n")
def _(I, st, ctx, argv):
    return [(st, mk("it", mk("repeat", I.load(st, argv[0]), I.load(st, argv[1]))))]


@raw("iter::once")
def _(I, st, ctx, argv):
    return [(st, mk("it", items(argv[0])))]


@raw("iter::empty")
def _(I, st, ctx, argv):
    return [(st, mk("it", EMPTY))]


ITER_OPS.add("repeatit")


@raw("Iterator::peekable", "Iterator::fuse", "Iterator::into_iter")
def _(I, st, ctx, argv):
    return [(s, it) for s, it in as_iter(I, st, argv[0])]


@raw("Iterator::step_by")
def _(I, st, ctx, argv):
    n = I.load(st, argv[1])
    out = []
    for s, a in as_iter(I, st, argv[0]):
        if a.op == "range" and a.args[0].op == "int" and a.args[1].op == "int" and n.op == "int":
            out.append((s, mk("it", items(*[Int(i) for i in range(a.args[0].args[0], a.args[1].args[0], n.args[0])]))))
        else:
            out.append((s, mk("it", mk("stepby", a, n))))
    return out


@raw("Iterator::flatten")
def _(I, st, ctx, argv):
    out = []
    for s, a in as_iter(I, st, argv[0]):
        if a.op == "it":
            xs = a.args[0]
            if all(p.op == "item" and p.args[0].op in ("seq", "str", "le", "be", "slice", "var", "fld", "repeat") for p in seq_parts(xs)):
                out.append((s, mk("it", flatten(xs))))
                continue
        out.append((s, mk("flatmap", a, mk("pyfn", "ident"))))
    return out


PYFN["ident"] = lambda I, st, argv, ctx: [(st, argv[0])]

SKIP = mk("SKIP")
MOVED = mk("MOVED")


def refs_elem(x, i):
    """element i of an iterator source"""
    if x.op == "refs":
        return mk("ref", x.args[0], x.args[1] + (("i", i),))
    if x.op == "chunks":
        xs, n = x.args
        lo = mul(n, i)
        return Slice(xs, lo, tmin(add(lo, n), Len(xs)))
    return Idx(x, i)


def elem(x, i):
    """(element i of a sequence, what is known about it): elements of sorted and of filtered sequences are elements of what was sorted or filtered"""
    if x.op == "sorted":
        p = mk("perm", x, i)
        TM.TYP.setdefault(p, "usize")
        e, g = elem(x.args[0], p)
        return e, g + [lt(p, Len(x.args[0]))]
    y = x.args[0] if x.op == "seq" and len(x.args) == 1 else x
    if y.op == "rep" and len(y.args[2]) > 1:
        full = [(g, ps) for g, ps in y.args[2] if ps]
        if len(full) == 1 and len(full[0][1]) == 1 and full[0][1][0].op == "item" and not has_op(y, "lv"):
            p = mk("pick", y, i)
            TM.TYP.setdefault(p, "usize")
            m = {mk("k", y.args[0]): p}
            return subst(full[0][1][0].args[0], m), [subst(g, m) for g in full[0][0]] + [lt(p, y.args[1])]
    return refs_elem(x, i), []


def elems(x, i):
    """the same, one entry per kind of element"""
    if x.op == "rev":
        return elems(x.args[0], sub(sub(Len(x.args[0]), ONE), i))
    if x.op == "slice":
        return elems(x.args[0], add(x.args[1], i))
    y = x.args[0] if x.op == "seq" and len(x.args) == 1 else x
    if y.op == "rep" and len(y.args[2]) > 1 and all(len(ps) == 1 and ps[0].op == "item" for g, ps in y.args[2]) and not has_op(y, "lv"):
        m = {mk("k", y.args[0]): i}
        return [(subst(ps[0].args[0], m), [subst(g, m) for g in gs]) for gs, ps in y.args[2]]
    return [elem(x, i)]


def src_len(x):
    if x.op == "refs":
        return Len(x.args[2])
    if x.op == "chunks":
        return mk("call", "div_ceil", Len(x.args[0]), x.args[1])
    return Len(x)


def src_slice(x, lo, hi):
    if x.op == "refs":
        raise Imprecise("slice of refs")
    return Slice(x, lo, hi)


def step(I, st, it, ctx):
    """one next(): [(state, new iterator, item | None | SKIP)]"""
    o = it.op
    if o == "it":
        xs = it.args[0]
        if xs.op == "refs":
            key, pr, v = xs.args
            n = Len(v)
            pos = ZERO
            if n.op == "int":
                return step(I, st, mk("itr", xs, ZERO), ctx)
            out = []
            for s, b in I.fork_src(st, eq0(n)):
                out.append((s, mk("it", EMPTY), None) if b else (s, mk("itr", xs, ONE), refs_elem(xs, ZERO)))
            return out
        ps = seq_parts(xs)
        if not ps:
            return [(st, it, None)]
        if ps[0].op == "item":
            return [(st, mk("it", Seq(*ps[1:])), ps[0].args[0])]
        n = src_len(xs)
        out = []
        if xs.op == "table" or n.op == "int" and n.args[0] > 64:
            I.src_open = True
        for s, b in I.fork_src(st, eq0(n)):
            if b:
                out.append((s, mk("it", EMPTY), None))
            elif xs.op == "chunks":
                out.append((s, mk("it", mk("chunks", Slice(xs.args[0], xs.args[1], Len(xs.args[0])), xs.args[1])), refs_elem(xs, ZERO)))
            else:
                out.append((s, mk("it", Slice(xs, ONE, n)), Idx(xs, ZERO)))
        return out
    if o == "itr":
        xs, pos = it.args
        n = Len(xs.args[2])
        out = []
        for s, b in I.fork_src(st, lt(pos, n)):
            out.append((s, mk("itr", xs, add(pos, ONE)), refs_elem(xs, pos)) if b else (s, mk("it", EMPTY), None))
        return out
    if o == "itk":
        xs, d, rest = it.args
        K = mk("k", d)
        n = src_len(xs)
        out = []
        I.src_open = True
        s = I.assume(st, lt(K, n))
        for e, known in elems(xs, K):
            t = s
            for g in known:
                t = I.assume(t, g) if t is not None else None
            if t is not None:
                out.append((copy(t), it, e))
        # the source is exhausted: the loop is left, or re-entered for what follows
        s2 = I.assume(st, le(n, K))
        if s2 is not None:
            s2 = copy(s2) if s2 is st else s2
            out.append((s2, mk("it", rest), None if rest is EMPTY else MOVED))
        return out
    if o == "range":
        lo, hi = it.args
        out = []
        for s, b in I.fork_src(st, lt(lo, hi)):
            out.append((s, mk("range", add(lo, ONE), hi), lo) if b else (s, it, None))
        return out
    if o == "map" or o == "mapwhile":
        out = []
        for s, i2, x in step(I, st, it.args[0], ctx):
            if x is None or x is SKIP or x is MOVED:
                out.append((s, mk(o, i2, it.args[1]), x))
            else:
                for s2, r in I.call_value(s, it.args[1], [x], ctx):
                    if o == "map":
                        out.append((s2, mk("map", i2, it.args[1]), r))
                    else:
                        for s3, v, fs in I.split(s2, r, OPTION):
                            out.append((s3, mk(o, i2, it.args[1]), fs[0]) if v else (s3, mk("it", EMPTY), None))
        return out
    if o == "enum":
        out = []
        for s, i2, x in step(I, st, it.args[0], ctx):
            n = it.args[1]
            if x is None or x is SKIP or x is MOVED:
                out.append((s, mk("enum", i2, n), x))
            else:
                n2 = n if i2.op == "itk" else add(n, ONE)
                out.append((s, mk("enum", i2, n2), Tup(n, x)))
        return out
    if o == "zip":
        out = []
        for s, a, x in step(I, st, it.args[0], ctx):
            if x is None or x is SKIP or x is MOVED:
                if x is MOVED:
                    raise Imprecise("zip of a chain")
                out.append((s, mk("zip", a, it.args[1]), x))
                continue
            for s2, b, y in step(I, s, it.args[1], ctx):
                if y is None or y is SKIP or y is MOVED:
                    if y is SKIP or y is MOVED:
                        raise Imprecise("zip with filter")
                    out.append((s2, mk("zip", a, b), None))
                else:
                    out.append((s2, mk("zip", a, b), Tup(x, y)))
        return out
    if o == "chain":
        out = []
        for s, a, x in step(I, st, it.args[0], ctx):
            if x is None and has_itk(it.args[0]):
                out.append((s, it.args[1], MOVED))
            elif x is None:
                out += step(I, s, it.args[1], ctx)
            else:
                out.append((s, mk("chain", a, it.args[1]), x))
        return out
    if o in ("filter", "fmap"):
        out = []
        for s, i2, x in step(I, st, it.args[0], ctx):
            ni = mk(o, i2, it.args[1])
            if x is None or x is SKIP or x is MOVED:
                out.append((s, ni, x))
                continue
            for s2, r in I.call_value(s, it.args[1], [x], ctx):
                if o == "filter":
                    for s3, b in I.fork(s2, r):
                        out.append((s3, ni, x if b else SKIP))
                else:
                    for s3, v, fs in I.split(s2, r, OPTION):
                        out.append((s3, ni, fs[0] if v else SKIP))
        return out
    if o == "takewhile":
        out = []
        for s, i2, x in step(I, st, it.args[0], ctx):
            ni = mk(o, i2, it.args[1])
            if x is None or x is SKIP or x is MOVED:
                out.append((s, ni, x))
                continue
            for s2, r in I.call_value(s, it.args[1], [x], ctx):
                for s3, b in I.fork(s2, r):
                    out.append((s3, ni, x) if b else (s3, mk("it", EMPTY), None))
        return out
    if o == "flatmap":
        # only handled through collect
        raise Imprecise("step flatmap")
    raise Imprecise("step " + o)


ITER_OPS.add("itr")


def next_item(I, st, ref, ctx, depth=0):
    """[(state, item or None)] ; SKIP resolved by stepping again (bounded), or recorded as a no-effect iteration"""
    it = I.load(st, ref)
    if it.op == "adt" or it.op == "rangeinc":
        it = as_iter(I, st, it)[0][1]
    out = []
    for s, i2, x in step(I, st, it, ctx):
        if ref.op == "ref":
            I.store_to(s, ref, i2)
        if x is MOVED:
            I.moved(s)
            continue
        if x is SKIP:
            if any(a.op == "itk" for a in atoms(i2)) or I.src_open and I._skipstack:
                I.skips.append(s)
                continue
            if depth > 100:
                raise Imprecise("filter chain")
            out += next_item(I, s, ref, ctx, depth + 1)
        else:
            out.append((s, x))
    return out


@raw("Iterator::next")
def _(I, st, ctx, argv):
    v = I.load(st, argv[0])
    if v.op not in ITER_OPS and v.op not in ("adt", "rangeinc"):
        return NotImplemented
    I.src_open = False
    res = next_item(I, st, argv[0], ctx)
    if I.src_open:
        I.mark_forked(ctx.fr)
    return [(s, NONE if x is None else Some(x)) for s, x in res]


@raw("DoubleEndedIterator::next_back")
def _(I, st, ctx, argv):
    v = I.load(st, argv[0])
    if v.op == "it" and argv[0].op == "ref":
        xs = v.args[0]
        n = Len(xs)
        out = []
        fk = I.fork(st, eq0(n))
        if n.op != "int":
            I.mark_forked(ctx.fr)
        for s, b in fk:
            if b:
                out.append((s, NONE))
            else:
                m = sub(n, ONE)
                I.store_to(s, argv[0], mk("it", Slice(xs, ZERO, m)))
                out.append((s, Some(Idx(xs, m))))
        return out
    return NotImplemented


@raw("Peekable::peek")
def _(I, st, ctx, argv):
    v = I.load(st, argv[0])
    if v.op == "it":
        xs = v.args[0]
        return [(s, NONE if b else Some(Idx(xs, ZERO))) for s, b in I.fork(st, eq0(Len(xs)))]
    return NotImplemented


# python-level loops over an iterator, summarised by the same machinery as MIR loops
def pyloop(I, st, ctx, it, accs, body, early=False):
    """accs: initial accumulator terms; body(I, state, item, refs) -> [(state, None | break value)].
    -> [(state, [final accs], None | break value)]"""
    kit = I.tmp()
    st.store[kit] = it
    kacc = []
    for a in accs:
        k = I.tmp()
        st.store[k] = a
        kacc.append(k)
    kbr = I.tmp()
    refs = [mk("ref", k, ()) for k in kacc]
    iref = mk("ref", kit, ())
    done = []

    op = [False]
    # a search through a long constant table is treated as a loop over its positions
    if early and it.op == "it" and it.args[0].op == "seq" and len(it.args[0].args) > 8 and \
            all(p.op == "item" and p.args[0].op == "int" for p in it.args[0].args):
        it = mk("it", mk("table", it.args[0]))
        st.store[kit] = it

    def iterate(s):
        exits = {}
        backs = []
        I.src_open = False
        nx = next_item(I, s, iref, ctx)
        op[0] = I.src_open
        for s2, x in nx:
            if x is None:
                exits.setdefault(0, []).append(s2)
                continue
            for s3, br in body(I, s2, x, refs):
                if br is None:
                    backs.append(s3)
                else:
                    s3.store[kbr] = br
                    exits.setdefault(1, []).append(s3)
        return [], exits, backs
    pending = [(st, 0)]
    while pending:
        s0, n = pending.pop()
        base = s0.copy()
        I.skips_push()
        obl0 = {k: (o.ok, o.why, o.n) for k, o in I.obl.items()}
        try:
            r, ex, backs = iterate(s0.copy())
        finally:
            sk = I.skips_pop()
        symbolic = op[0] or sk
        if not symbolic and n < 200:
            for code, ss in ex.items():
                done += [(code, x) for x in ss]
            if len(backs) > 1:
                backs = dedupe(I, backs)
            pending += [(b, n + 1) for b in backs]
            continue
        if not backs and not sk:
            for code, ss in ex.items():
                done += [(code, x) for x in ss]
            continue
        for k in list(I.obl):
            if k not in obl0:
                del I.obl[k]
            else:
                o = I.obl[k]
                o.ok, o.why, o.n = obl0[k]
        r, ex, re = I.summarise(ctx.fr, base, iterate)
        for code, ss in ex.items():
            done += [(code, x) for x in ss]
        pending += [(x, 0) for x in re]
    out = []
    for code, s in done:
        fin = [I.rd(s, k) for k in kacc]
        br = s.store.get(kbr) if code == 1 else None
        for k in kacc + [kit, kbr]:
            s.store.pop(k, None)
        out.append((s, fin, br))
    return out


def dedupe(I, states):
    d = {}
    for s in states:
        d.setdefault(s.key(), []).append(s)
    return [x for ss in d.values() for x in merge_group(ss, 40)]


def collect_seq(I, st, ctx, it):
    if it.op == "it":
        return [(st, it.args[0])]
    if it.op == "range":
        return [(st, mk("rangeseq", it.args[0], it.args[1]))] if not (it.args[0].op == "int" and it.args[1].op == "int" and it.args[1].args[0] - it.args[0].args[0] < 64) \
            else [(st, items(*[Int(i) for i in range(it.args[0].args[0], it.args[1].args[0])]))]
    if it.op == "flatmap":
        def body(I, s, x, refs):
            out = []
            for s2, r in I.call_value(s, it.args[1], [x], ctx):
                for s3, i3 in into_iter(I, s2, ctx, r, None):
                    for s4, xs in collect_seq(I, s3, ctx, i3):
                        I.store_to(s4, refs[0], Seq(I.load(s4, refs[0]), xs))
                        out.append((s4, None))
            return out
        return [(s, f[0]) for s, f, br in pyloop(I, st, ctx, it.args[0], [EMPTY], body)]

    def body(I, s, x, refs):
        I.store_to(s, refs[0], Seq(I.load(s, refs[0]), item(x)))
        return [(s, None)]
    return [(s, f[0]) for s, f, br in pyloop(I, st, ctx, it, [EMPTY], body)]


@raw("Iterator::collect", "FromIterator::from_iter")
def _(I, st, ctx, argv):
    t = ctx.dty
    out = []
    for s, it in into_iter(I, st, ctx, argv[0], None):
        out += collect_into(I, s, ctx, it, t)
    return out


def collect_into(I, st, ctx, it, t):
    nm = t[1].split("::")[-1] if t[0] == "adt" else ""
    if nm in ("Result", "Option"):
        adt = RESULT if nm == "Result" else OPTION
        g = good(adt)
        inner = t[2][0]

        def body(I, s, x, refs):
            out = []
            for s2, v, fs in I.split(s, x, adt):
                if v == g:
                    I.store_to(s2, refs[0], Seq(I.load(s2, refs[0]), item(fs[0])))
                    out.append((s2, None))
                else:
                    out.append((s2, Adt(adt, v, *fs)))
            return out
        return [(s, br if br is not None else Adt(adt, g, from_seq(f[0], inner))) for s, f, br in pyloop(I, st, ctx, it, [EMPTY], body)]
    return [(s, from_seq(xs, t)) for s, xs in collect_seq(I, st, ctx, it)]


def from_seq(xs, t):
    nm = t[1].split("::")[-1] if t[0] == "adt" else ""
    if nm in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        return mk("mapof", xs)
    if nm == "TokenStream":
        return joined(xs)
    if nm == "String":
        # chars stay items; strings are spread
        return xs
    return xs


def joined(xs):
    """token streams one after the other"""
    if xs.op != "seq":
        xs = mk("seq", xs)
    ps = []
    for p in xs.args:
        if p.op == "item":
            ps.append(p.args[0])
        elif p.op == "rep":
            ps.append(mk("rep", p.args[0], p.args[1], tuple((gs, tuple(y.args[0] if y.op == "item" else mk("call", "concat", y) for y in qs)) for gs, qs in p.args[2])))
        else:
            ps.append(mk("call", "concat", p))
    return Seq(*ps)


@raw("Iterator::sum", "Iterator::product")
def _(I, st, ctx, argv):
    out = []
    for s, it in as_iter(I, st, argv[0]):
        def body(I, s, x, refs):
            a = I.load(s, refs[0])
            note_type(x, strip_ref(ctx.dty))
            I.oblige(ctx.fr, ctx.span, "overflow:sum", False, "sum may overflow", s)
            I.store_to(s, refs[0], add(a, x) if ctx.key.endswith("sum") else mul(a, x))
            return [(s, None)]
        for s2, f, br in pyloop(I, s, ctx, it, [ZERO if ctx.key.endswith("sum") else ONE], body):
            note_type(f[0], ctx.dty)
            out.append((s2, f[0]))
    return out


@raw("Iterator::count")
def _(I, st, ctx, argv):
    out = []
    for s, it in as_iter(I, st, argv[0]):
        for s2, xs in collect_seq(I, s, ctx, it):
            out.append((s2, src_len(xs)))
    return out


@raw("ExactSizeIterator::len")
def _(I, st, ctx, argv):
    it = as_iter(I, st, argv[0])[0][1]
    if it.op == "it":
        return [(st, src_len(it.args[0]))]
    if it.op in ("map", "enum") and it.args[0].op == "it":
        return [(st, src_len(it.args[0].args[0]))]
    return NotImplemented


@raw("Iterator::last")
def _(I, st, ctx, argv):
    out = []
    for s, it in as_iter(I, st, argv[0]):
        for s2, xs in collect_seq(I, s, ctx, it):
            n = Len(xs)
            for s3, b in I.fork(s2, eq0(n)):
                out.append((s3, NONE if b else Some(Idx(xs, sub(n, ONE)))))
    return out


@raw("Iterator::nth")
def _(I, st, ctx, argv):
    it = as_iter(I, st, argv[0])[0][1]
    n = I.load(st, argv[1])
    if it.op == "it":
        xs = it.args[0]
        out = []
        for s, b in I.fork(st, lt(n, Len(xs))):
            if argv[0].op == "ref":
                I.store_to(s, argv[0], mk("it", Slice(xs, add(n, ONE), Len(xs)) if b else EMPTY))
            out.append((s, Some(Idx(xs, n)) if b else NONE))
        return out
    return NotImplemented


@raw("Iterator::fold")
def _(I, st, ctx, argv):
    out = []
    for s, it in as_iter(I, st, argv[0]):
        def body(I, s, x, refs):
            r = []
            for s2, v in I.call_value(s, argv[2], [I.load(s, refs[0]), x], ctx):
                I.store_to(s2, refs[0], v)
                r.append((s2, None))
            return r
        out += [(s2, f[0]) for s2, f, br in pyloop(I, s, ctx, it, [argv[1]], body)]
    return out


@raw("Iterator::try_fold")
def _(I, st, ctx, argv):
    out = []
    adt = ctx.dty[1]
    for s, it in as_iter(I, st, argv[0]):
        def body(I, s, x, refs):
            r = []
            for s2, v in I.call_value(s, argv[2], [I.load(s, refs[0]), x], ctx):
                for s3, var, fs in I.split(s2, v, adt):
                    if var == good(adt):
                        I.store_to(s3, refs[0], fs[0])
                        r.append((s3, None))
                    else:
                        r.append((s3, Adt(adt, var, *fs)))
            return r
        out += [(s2, br if br is not None else Adt(adt, good(adt), f[0])) for s2, f, br in pyloop(I, s, ctx, it, [argv[1]], body)]
    return out


@raw("Iterator::for_each", "Iterator::try_for_each")
def _(I, st, ctx, argv):
    out = []
    tr = "try" in ctx.key
    adt = ctx.dty[1] if tr else None
    for s, it in as_iter(I, st, argv[0]):
        def body(I, s, x, refs):
            r = []
            for s2, v in I.call_value(s, argv[1], [x], ctx):
                if not tr:
                    r.append((s2, None))
                    continue
                for s3, var, fs in I.split(s2, v, adt):
                    r.append((s3, None if var == good(adt) else Adt(adt, var, *fs)))
            return r
        out += [(s2, br if br is not None else (Adt(adt, good(adt), UNIT) if tr else UNIT)) for s2, f, br in pyloop(I, s, ctx, it, [], body)]
    return out


@raw("Iterator::any", "Iterator::all", "Iterator::find", "Iterator::position", "Iterator::find_map", "Iterator::rfind", "DoubleEndedIterator::rfind",
     "Iterator::rposition")
def _(I, st, ctx, argv):
    m = ctx.key.split("::")[1]
    out = []
    for s, it in as_iter(I, st, argv[0]):
        n = None
        if m in ("rfind", "rposition"):
            if it.op != "it":
                raise Imprecise(m)
            n = Len(it.args[0])
            it = rev_iter(it)

        def body(I, s, x, refs):
            r = []
            i = I.load(s, refs[0])
            for s2, v in I.call_value(s, argv[1], [x], ctx):
                if m == "find_map":
                    for s3, var, fs in I.split(s2, v, OPTION):
                        r.append((s3, None if var == 0 else Some(fs[0])))
                    continue
                for s3, b in I.fork(s2, v):
                    stop = b if m != "all" else not b
                    if stop:
                        r.append((s3, {"any": TRUE, "all": FALSE, "find": Some(x), "rfind": Some(x), "position": Some(i),
                                        "rposition": Some(sub(sub(n, ONE), i)) if n is not None else None}[m]))
                    else:
                        I.store_to(s3, refs[0], add(i, ONE))
                        r.append((s3, None))
            return r
        end = {"any": FALSE, "all": TRUE}.get(m, NONE)
        for s2, f, br in pyloop(I, s, ctx, it, [ZERO], body, True):
            out.append((s2, br if br is not None else end))
    return out


@raw("Iterator::max", "Iterator::min", "Iterator::max_by_key", "Iterator::min_by_key", "Iterator::max_by", "Iterator::min_by")
def _(I, st, ctx, argv):
    out = []
    for s, it in as_iter(I, st, argv[0]):
        for s2, xs in collect_seq(I, s, ctx, it):
            key = sort_key(I, s2, ctx, argv[1], "sort_by_key" if "key" in ctx.key else "sort_by") if len(argv) > 1 else UNIT
            out.append((s2, mk("call", ctx.key, xs, key)))
    return out


@raw("Iterator::unzip", "Iterator::partition")
def _(I, st, ctx, argv):
    if ctx.key.endswith("partition"):
        return NotImplemented
    out = []
    for s, it in as_iter(I, st, argv[0]):
        def body(I, s, x, refs):
            I.store_to(s, refs[0], Seq(I.load(s, refs[0]), item(TFld(x, 0))))
            I.store_to(s, refs[1], Seq(I.load(s, refs[1]), item(TFld(x, 1))))
            return [(s, None)]
        out += [(s2, Tup(*f)) for s2, f, br in pyloop(I, s, ctx, it, [EMPTY, EMPTY], body)]
    return out


@raw("Iterator::eq")
def _(I, st, ctx, argv):
    out = []
    for s, a in as_iter(I, st, argv[0]):
        for s1, xs in collect_seq(I, s, ctx, a):
            for s2, b in into_iter(I, s1, ctx, argv[1], None):
                for s3, ys in collect_seq(I, s2, ctx, b):
                    out.append((s3, teq(xs, ys)))
    return out


# callables
@raw("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def _(I, st, ctx, argv):
    a = I.load(st, argv[1])
    args = list(a.args) if a.op == "tup" else [a]
    return I.call_value(st, argv[0], args, ctx)


@raw("panicking::panic_fmt", "panicking::panic", "rt::begin_panic", "panicking::panic_display", "panicking::unreachable_display",
     "panicking::unimplemented_default_msg", "panicking::assert_failed", "panicking::panic_explicit", "rt::panic_fmt", "panicking::panic_str_2015")
def _(I, st, ctx, argv):
    I.oblige(ctx.fr, ctx.span, "panic:" + ctx.key.split("::")[1], False, "reachable", st)
    return []


# ------------------------------------------------------------------ the workspace's ByteArray, by its bytes
def bl(*names):
    return lmodel(*["ByteArray::" + n for n in names])


@bl("new", "from_slice")
def _(I, st, ctx, name, data):
    return bytes_from(I, st, ctx, data, 1)


@bl("new_unnamed", "from_slice_unnamed")
def _(I, st, ctx, data):
    return bytes_from(I, st, ctx, data, 0)


def bytes_from(I, st, ctx, data, i):
    return data


@bl("from_preimage")
def _(I, st, ctx, data, name, f, pre):
    return data


@bl("data", "as_slice", "deref", "as_ref", "clone", "from", "as_byte_array", "into")
def _(I, st, ctx, x):
    return x


@bl("hex")
def _(I, st, ctx, x):
    return mk("hex", x)


@bl("named", "named_option")
def _(I, st, ctx, x, n):
    return x


@bl("default")
def _(I, st, ctx):
    return EMPTY


def into_bytes(I, st, ctx, v, i):
    """impl Into<ByteArray> argument number i of a ByteArray method"""
    t = ctx.argt[i] if i < len(ctx.argt) else None
    if t and strip_ref(t)[0] == "adt":
        tt = t
        BA = "bitcoin_cash_base::byte_array::ByteArray"
        if strip_ref(tt)[1] == BA:
            return [(st, v)]
        return convert(I, st, ctx, v, tt, ("adt", BA, ()))
    return [(st, v)]


@bl("concat_named_option", "concat")
def _(I, st, ctx, x, y, name=None):
    return [(s, Seq(x, b)) for s, b in into_bytes(I, st, ctx, y, 1)]


@bl("concat_named")
def _(I, st, ctx, x, name, y):
    return [(s, Seq(x, b)) for s, b in into_bytes(I, st, ctx, y, 2)]


@bl("apply_function")
def _(I, st, ctx, x, data, f):
    return data


@bl("split")
def _(I, st, ctx, x, at):
    out = []
    n = Len(x)
    for s, b in I.fork(st, le(at, n)):
        if b:
            out.append((s, Ok(Tup(Slice(x, ZERO, at), Slice(x, at, n)))))
        else:
            out.append((s, Err(Adt("bitcoin_cash_base::byte_array::ByteArrayError", 0, at, n))))
    return out


def _from_parts(I, st, ctx, argv):
    out = []
    for s, it in into_iter(I, st, ctx, argv[0], ctx.argt[0] if ctx.argt else None):
        for s2, xs in collect_seq(I, s, ctx, it):
            out.append((s2, flatten(xs)))
    return out


LOCAL_MODELS["ByteArray::from_parts"] = _from_parts


@bl("eq")
def _(I, st, ctx, a, b):
    return teq(a, b)


@bl("index")
def _(I, st, ctx, base, i):
    n = Len(base)
    rb = range_bounds(I, st, i, n)
    st = copy(st)
    if rb is None:
        c = lt(i, n)
        e = entails(st.facts, c)
        I.oblige(ctx.fr, ctx.span, "panic:index", e is True, show(c), st)
        f = assume_facts(st.facts, c)
        if f is None:
            return []
        st.facts = f
        return [(st, Idx(base, i))]
    if not check_range(I, st, ctx, rb[0], rb[1], n, "slice"):
        return []
    return [(st, Slice(base, *rb))]


LOCAL_MODELS["FixedByteArray::index"] = LOCAL_MODELS["ByteArray::index"]


# ---------------------------------------------------------------- quote!: token streams as sequences of tokens
# Spans are left out: where a token is reported does not change what it is.
PUNCT = {"add": "+", "add_eq": "+=", "and": "&", "and_and": "&&", "and_eq": "&=", "at": "@", "bang": "!", "caret": "^", "caret_eq": "^=", "colon": ":", "colon2": "::",
         "comma": ",", "div": "/", "div_eq": "/=", "dot": ".", "dot2": "..", "dot3": "...", "dot_dot_eq": "..=", "eq": "=", "eq_eq": "==", "ge": ">=", "gt": ">",
         "le": "<=", "lt": "<", "mul_eq": "*=", "ne": "!=", "or": "|", "or_eq": "|=", "or_or": "||", "pound": "#", "question": "?", "rarrow": "->", "larrow": "<-",
         "rem": "%", "rem_eq": "%=", "fat_arrow": "=>", "semi": ";", "shl": "<<", "shl_eq": "<<=", "shr": ">>", "shr_eq": ">>=", "star": "*", "sub": "-", "sub_eq": "-=",
         "underscore": "_"}


def token(text):
    return mk("call", "tok", Str(text))


def _punct(text):
    def f(I, st, ctx, v, *span):
        return Seq(v, item(token(text)))
    return f


for _n, _t in PUNCT.items():
    mutseq("__private::push_" + _n, "__private::push_%s_spanned" % _n)(_punct(_t))


@mutseq("__private::push_ident", "__private::parse")
def _(I, st, ctx, v, s):
    return Seq(v, item(mk("call", "tok", s)))


@mutseq("__private::push_ident_spanned", "__private::parse_spanned")
def _(I, st, ctx, v, span, s):
    return Seq(v, item(mk("call", "tok", s)))


@mutseq("__private::push_group")
def _(I, st, ctx, v, delim, inner):
    return Seq(v, item(mk("call", "group", delim, inner)))


@mutseq("__private::push_group_spanned")
def _(I, st, ctx, v, span, delim, inner):
    return Seq(v, item(mk("call", "group", delim, inner)))


@raw("TokenStream::new")
def _(I, st, ctx, argv):
    return [(st, EMPTY)]


def tokens_of(I, st, x, t):
    """the tokens a value of type t is written as"""
    x = I.load(st, x)
    t = strip_ref(t) if t else None
    if t and t[0] == "adt" and t[1].endswith("::RepInterp"):
        return tokens_of(I, st, TM.Fld(x, t[1], 0, 0), t[2][0] if t[2] else None)
    if t and t[0] == "adt" and t[1].endswith("::TokenStream"):
        return x
    if t and t[0] in ("param", "other"):
        return None
    return Seq(item(mk("call", "tokens", x)))


@raw("ToTokens::to_tokens")
def _(I, st, ctx, argv):
    t = ctx.args[0] if ctx.args and ctx.args[0][0] not in ("param", "other") else ctx.argt[0] if ctx.argt else None
    if argv[1].op != "ref":
        return NotImplemented
    x = tokens_of(I, st, argv[0], t)
    if x is None:
        return NotImplemented
    I.store_to(st, argv[1], Seq(I.load(st, argv[1]), x))
    return [(st, UNIT)]


@raw("ToTokens::to_token_stream", "ToTokens::into_token_stream")
def _(I, st, ctx, argv):
    t = ctx.args[0] if ctx.args and ctx.args[0][0] not in ("param", "other") else ctx.argt[0] if ctx.argt else None
    x = tokens_of(I, st, argv[0], t)
    return NotImplemented if x is None else [(st, x)]


@raw("RepAsIteratorExt::quote_into_iter")
def _(I, st, ctx, argv):
    return [(st, TM.Tup(mk("it", I.load(st, argv[0])), UNIT))]


@raw("RepIteratorExt::quote_into_iter", "RepToTokensExt::quote_into_iter")
def _(I, st, ctx, argv):
    return [(st, TM.Tup(argv[0], UNIT))]


@raw("RepToTokensExt::next")
def _(I, st, ctx, argv):
    return [(st, Some(I.load(st, argv[0])))]


@raw("CheckHasIterator::check")
def _(I, st, ctx, argv):
    return [(st, UNIT)]
