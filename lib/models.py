"""Transfer functions of library calls."""
import re
from lin import Lin
from absint import Sym, Agg, Ref, VecV, FnV, BoolV, TRUE, FALSE, fnot, fand, f_or

OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
ORD = "core::cmp::Ordering"
UNIT = Agg("()", None, ())

_norm_cache = {}


def norm(path):
    r = _norm_cache.get(path)
    if r is None:
        s, d = [], 0
        # drop balanced <...> (generic arguments and `<impl ...>` segments)
        for ch in path:
            if ch == "<":
                d += 1
            elif ch == ">" and d:
                d -= 1
            elif d == 0:
                s.append(ch)
        segs = [x for x in "".join(s).split("::") if x]
        r = "::".join(segs[-2:])
        _norm_cache[path] = r
    return r


def some(v):
    return Agg(OPT, 1, (v,))


NONE = Agg(OPT, 0, ())


def ok(v):
    return Agg(RES, 0, (v,))


def err(v):
    return Agg(RES, 1, (v,))


M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


KEEP_LOCAL = set()


def lookup(E, fn):
    rid = fn.get("rid") or fn.get("id")
    if rid in E.P.bodies and fn.get("rkind") != "virtual":
        if norm(fn["path"]) == "Clone::clone":
            return M["Clone::clone"]
        return None
    return M.get(norm(fn["path"]))


def tgt(fn, i):
    a = fn.get("targs") or []
    return a[i] if i < len(a) else None


def payload_ty(E, ty, i=0):
    """type of the i-th type argument of an ADT type"""
    if ty is None:
        return None
    t = E.P.types[ty]
    if t["k"] == "adt" and i < len(t["args"]):
        return t["args"][i]
    return None


def pfield(E, st, v, vi, ty):
    return E.proj(st, v, ("f", 0, vi, ty, "0"))


def both(E, st, v, path):
    return E.split_variant(st, v, path, 2)


# ------------------------------------------------------------------ identity-like
@model("Clone::clone", "ToOwned::to_owned", "ToString::to_string", "Option::cloned", "Option::copied")
def m_clone(E, fr, blk, st, fn, args, atys, dty):
    if norm(fn["path"]).startswith("Option"):
        out = []
        for s, vi in both(E, st, args[0], OPT):
            if vi == 0:
                out.append((s, NONE))
            else:
                x = pfield(E, s, args[0], 1, payload_ty(E, atys[0]))
                out.append((s, some(E.deref(s, x))))
        return out
    if norm(fn["path"]) == "ToString::to_string":
        x = E.peel(st, args[0])
        if isinstance(x, VecV):
            return [(st, VecV(x.term, x.len, x.writes, x.ety))]
        if isinstance(x, Lin) and atys and E.P.ts(E.strip_ref(atys[0])) == "char":
            return [(st, VecV(("ch", E.termof(x)), utf8len(E, st, x)))]
        t = ("to_string", E.termof(x))
        return [(st, VecV(t, E.nat(("len", t))))]
    v = args[0]
    if isinstance(v, (Ref, Sym)):
        x = E.deref(st, v)
        # cloning a reference to a reference
        if norm(fn["path"]) == "ToOwned::to_owned":
            x = E.peel(st, v)
        return [(st, E.coerce(x, dty))]
    return [(st, v)]


@model("Cow::into_owned")
def m_into_owned(E, fr, blk, st, fn, args, atys, dty):
    out = []
    for s, vi in both(E, st, args[0], "alloc::borrow::Cow"):
        x = E.peel(s, pfield(E, s, args[0], vi, None))
        if isinstance(x, VecV):
            out.append((s, VecV(x.term, x.len, x.writes, x.ety)))
        else:
            t = ("into_owned", E.content(s, args[0]))
            out.append((s, VecV(t, E.nat(("len", t))) if dty is None or E.vecish(dty) else E.mk(t, dty)))
    return out


@model("Into::into", "From::from", "AsRef::as_ref", "Borrow::borrow", "BorrowMut::borrow_mut", "TryInto::try_into")
def m_into(E, fr, blk, st, fn, args, atys, dty):
    a = args[0]
    n = norm(fn["path"])
    if n == "TryInto::try_into":
        return [(st, E.mk(("try_into", E.termof(a), dty), dty))]
    if dty is not None and atys[0] is not None:
        st_, sf = E.P.types[dty]["s"], E.P.types[atys[0]]["s"]
        if st_ == sf:
            return [(st, a)]
        if isinstance(a, BoolV) and E.is_int(dty):
            return [(s, Lin(1)) for s in E.assume(st.copy(), a.f, True)] + [(s, Lin(0)) for s in E.assume(st, a.f, False)]
        if isinstance(a, Lin) and E.is_int(dty) and E.is_int(atys[0]):
            lo, hi = E.range_of(dty)
            l2, h2 = E.range_of(atys[0])
            if l2 is not None and lo is not None and l2 >= lo and h2 <= hi:
                return [(st, a)]
        if E.vecish(dty):
            x = E.peel(st, a)
            if isinstance(x, VecV):
                return [(st, x)]
        if E.tyk(dty) == "ref" and isinstance(a, (Ref, Sym)):
            return [(st, a)] if E.vecish(E.P.types[dty]["ty"]) else None
    if dty is not None and E.P.types[dty].get("path", "").endswith("string::String") and atys[0] is not None and E.tyk(atys[0]) == "char":
        return [(st, VecV(("ch", E.termof(a)), utf8len(E, st, a)))]
    # a conversion implemented in the crate
    b = convert_target(E, fn, atys, dty)
    if b is not None:
        return E.call_body(st, b, args, fr, blk)
    if is_attrs(E, dty) and atys[0] is not None and E.P.types[atys[0]].get("path", "").endswith("::Attribute"):
        return [(st, Sym(mkattrs({("at", E.content(st, a))}), dty))]
    return [(st, E.mk(("into", E.content(st, a), dty), dty))]


def convert_target(E, fn, atys, dty):
    """From impl of the crate behind an Into::into call"""
    if not norm(fn["path"]).startswith("Into") or dty is None or atys[0] is None:
        return None
    if not hasattr(E, "_from"):
        E._from = {}
        for b in E.P.bodies.values():
            if b.kind == "fn" and b.name == "from" and (b.impl_of or "").endswith("convert::From"):
                rt, at = E.P.types[b.locals[0]["t"]], E.P.types[b.locals[1]["t"]]
                E._from[(erase(rt["s"]), erase(at["s"]))] = b
    return E._from.get((erase(E.P.types[dty]["s"]), erase(E.P.types[atys[0]]["s"])))


def erase(s):
    return re.sub(r"'[a-z_{}0-9]+ ?", "", s)


@model("Deref::deref", "DerefMut::deref_mut")
def m_deref(E, fr, blk, st, fn, args, atys, dty):
    r = E.toref(args[0])
    if r is None:
        return None
    it = E.strip_ref(atys[0]) if atys[0] is not None else None
    if it is not None:
        t = E.P.types[it]
        if E.vecish(it):
            return [(st, Ref(r.root, r.path, it))]
        if t["k"] == "adt" and t["path"] == "alloc::boxed::Box":
            x = E.read(st, r.root, r.path, it)
            rr = E.toref(x)
            if rr is not None:
                return [(st, rr)]
    x = E.content(st, r)
    if isinstance(r.root, tuple) and r.root[0] == "static" and not r.path:
        x = r.root
    rt = E.strip_ref(dty) if dty is not None and E.tyk(dty) == "ref" else None
    return [(st, Ref(("d", ("deref", x)), (), rt))]


@model("Write::by_ref", "Iterator::by_ref", "Option::as_deref", "Vec::as_slice", "Vec::as_mut_slice", "String::as_str",
       "String::as_mut_str", "hint::must_use", "convert::identity", "String::as_bytes", "str::as_bytes",
       "vec::box_assume_init_into_vec_unsafe", "Vec::into_boxed_slice", "slice::into_vec", "black_box::black_box",
       "IntoFuture::into_future", "String::into_boxed_str", "boxed::box_assume_init_into_vec_unsafe")
def m_ident(E, fr, blk, st, fn, args, atys, dty):
    n = norm(fn["path"])
    if n == "Option::as_deref":
        return m_as_ref(E, fr, blk, st, fn, args, atys, dty)
    if n.endswith("box_assume_init_into_vec_unsafe"):
        # vec![a, b, ..]: the boxed array's content
        r = E.toref(args[0])
        x = E.deref(st, args[0])
        for _ in range(4):
            if isinstance(x, VecV):
                return [(st, x)]
            if isinstance(x, Agg) and x.fields:
                x = next((f for f in x.fields if f is not None), None)
            else:
                break
        t = E.fresh("vec")
        return [(st, VecV(t, E.nat(("len", t))))]
    return [(st, args[0])]


@model("Box::new_uninit")
def m_uninit(E, fr, blk, st, fn, args, atys, dty):
    root = siteroot(E, fr, blk, st, "uninit")
    st.mem.pop(root, None)
    return [(st, Ref(root, ()))]


@model("Box::new", "Arc::new", "Rc::new", "Cell::new", "RefCell::new", "Box::pin")
def m_box(E, fr, blk, st, fn, args, atys, dty):
    if norm(fn["path"]) == "Box::new":
        root = ("B", E.fresh("box"))
        st.mem[root] = args[0]
        return [(st, Ref(root, ()))]
    return [(st, E.fresh_val(dty))]


@model("mem::swap")
def m_swap(E, fr, blk, st, fn, args, atys, dty):
    a, b = E.toref(args[0]), E.toref(args[1])
    ty = E.strip_ref(atys[0])
    x, y = E.read(st, a.root, a.path, ty), E.read(st, b.root, b.path, ty)
    E.write(st, a.root, a.path, y)
    E.write(st, b.root, b.path, x)
    return [(st, UNIT)]


@model("mem::replace", "Option::replace", "mem::take", "Option::take", "Option::insert")
def m_replace(E, fr, blk, st, fn, args, atys, dty):
    a = E.toref(args[0])
    ty = E.strip_ref(atys[0]) if atys[0] is not None else None
    x = E.read(st, a.root, a.path, ty)
    n = norm(fn["path"])
    if n == "mem::replace":
        nv = args[1]
    elif n == "Option::replace":
        nv = some(args[1])
    elif n == "Option::take":
        nv = NONE
    elif n == "Option::insert":
        E.write(st, a.root, a.path, some(args[1]))
        return [(st, Ref(a.root, a.path + (("f", 0, 1, None, "0"),)))]
    else:
        nv = default_of(E, fr, blk, st, ty)
    E.write(st, a.root, a.path, nv)
    return [(st, x)]


def default_of(E, fr, blk, st, ty):
    k = E.tyk(ty)
    if k in ("int", "uint", "char"):
        return Lin(0)
    if k == "bool":
        return BoolV(FALSE)
    if ty is not None and E.vecish(ty):
        t = E.P.types[ty]
        if t["k"] != "array":
            return VecV(("empty",), Lin(0), (), E.elem_ty(ty))
    if k == "array" and E.P.types[ty].get("len") and E.P.types[ty]["len"] <= 16:
        n = E.P.types[ty]["len"]
        ety = E.P.types[ty]["ty"]
        x = default_of(E, fr, blk, st, ety)
        return VecV(("default", E.P.types[ty]["s"]), Lin(n), tuple((Lin(i), x) for i in range(n)), ety)
    if k == "adt":
        p = E.P.types[ty]["path"]
        if p == OPT:
            return NONE
        a = E.P.adts.get(p)
        if p.endswith("::ContentStyle") and a and a["variants"][0]["fields"]:
            return Agg(p, None, tuple(default_of(E, fr, blk, st, f["ty"]) for f in a["variants"][0]["fields"]), None, ty)
        for b in E.P.bodies.values():
            if b.kind == "fn" and b.name == "default" and (b.impl_of or "").endswith("default::Default") and \
                    b.impl_self is not None and E.P.types[b.impl_self].get("path") == p:
                r = E.call_body(st, b, [], fr, blk)
                if len(r) == 1 and r[0][0] is st:
                    return r[0][1]
                break
    return E.mk(("default", E.P.types[ty]["s"] if ty is not None else "?"), ty)


@model("Default::default", "Option::unwrap_or_default", "Result::unwrap_or_default")
def m_default(E, fr, blk, st, fn, args, atys, dty):
    n = norm(fn["path"])
    if n == "Default::default":
        return [(st, default_of(E, fr, blk, st, dty))]
    p = OPT if n.startswith("Option") else RES
    out = []
    for s, vi in both(E, st, args[0], p):
        good = (vi == 1) if p == OPT else (vi == 0)
        out.append((s, pfield(E, s, args[0], vi, dty) if good else default_of(E, fr, blk, s, dty)))
    return out


# ------------------------------------------------------------------ Option / Result
def _opt(E, st, v, n):
    p = OPT if n.startswith("Option") else RES
    return p, both(E, st, v, p)


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def m_is(E, fr, blk, st, fn, args, atys, dty):
    n = norm(fn["path"])
    v = E.peel(st, args[0])
    k = E.variant_of(st, v)
    want = 1 if n in ("Option::is_some", "Result::is_err") else 0
    if k is not None:
        return [(st, BoolV(("c", k == want)))]
    d = E.discr(st, v)
    return [(st, BoolV(("eq", d - want)))]


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked",
       "Result::unwrap_err", "Result::expect_err")
def m_unwrap(E, fr, blk, st, fn, args, atys, dty):
    n = norm(fn["path"])
    p, sts = _opt(E, st, args[0], n)
    good = 1 if p == OPT or n.endswith("_err") else 0
    out = []
    bad = [s for s, vi in sts if vi != good]
    E.obligation(fr, blk, "unwrap", not bad, "may be called on the failing variant")
    for s, vi in sts:
        if vi == good:
            out.append((s, pfield(E, s, args[0], vi, dty)))
        elif E.on_event:
            E.on_event(E, fr, blk, s, "unwrap_fail", (n, args))
    return out


@model("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_else", "Result::unwrap_or_else")
def m_unwrap_or(E, fr, blk, st, fn, args, atys, dty):
    n = norm(fn["path"])
    p, sts = _opt(E, st, args[0], n)
    good = 1 if p == OPT else 0
    out = []
    for s, vi in sts:
        if vi == good:
            out.append((s, pfield(E, s, args[0], vi, dty)))
        else:
            if n.endswith("_else"):
                a = [] if p == OPT else [pfield(E, s, args[0], vi, payload_ty(E, atys[0], 1))]
                out.extend(E.call_closure(fr, blk, s, args[1], a))
            else:
                out.append((s, args[1]))
            if E.on_event and p == RES:
                for x in out[-1:]:
                    E.on_event(E, fr, blk, x[0], "err_dropped", (n, args))
    return out


@model("Option::map", "Result::map", "Result::map_err", "Option::and_then", "Result::and_then", "Option::ok_or",
       "Option::ok_or_else", "Option::map_or", "Option::map_or_else", "Option::or", "Option::or_else", "Result::ok", "Result::err",
       "Option::filter", "Option::is_some_and", "Result::or_else", "Result::map_or", "Option::and", "Result::and",
       "Option::is_none_or", "Result::is_ok_and", "Option::xor", "Option::inspect", "Result::map_or_else",
       "Option::unwrap_or_else_")
def m_map(E, fr, blk, st, fn, args, atys, dty):
    n = norm(fn["path"])
    p, sts = _opt(E, st, args[0], n)
    good = 1 if p == OPT else 0
    m = n.split("::")[1]
    gty = payload_ty(E, atys[0], 0)
    ety = payload_ty(E, atys[0], 1)
    out = []
    for s, vi in sts:
        isg = vi == good
        x = None
        if isg:
            x = pfield(E, s, args[0], vi, gty)
        elif p == RES:
            x = pfield(E, s, args[0], vi, ety)
        wrapg = some if p == OPT else ok
        bad = NONE if p == OPT else err(x)
        if m == "map":
            if isg:
                out += [(a, wrapg(b)) for a, b in E.call_closure(fr, blk, s, args[1], [x])]
            else:
                out.append((s, bad))
        elif m == "inspect":
            if isg:
                out += [(a, wrapg(x)) for a, b in E.call_closure(fr, blk, s, args[1], [tmpref(E, s, x)])]
            else:
                out.append((s, bad))
        elif m == "map_err":
            if isg:
                out.append((s, ok(x)))
            else:
                out += [(a, err(b)) for a, b in E.call_closure(fr, blk, s, args[1], [x])]
        elif m == "and_then":
            if isg:
                out += E.call_closure(fr, blk, s, args[1], [x])
            else:
                out.append((s, bad))
        elif m == "and":
            out.append((s, args[1] if isg else bad))
        elif m == "ok_or":
            out.append((s, ok(x) if isg else err(args[1])))
        elif m == "ok_or_else":
            if isg:
                out.append((s, ok(x)))
            else:
                out += [(a, err(b)) for a, b in E.call_closure(fr, blk, s, args[1], [])]
        elif m == "map_or":
            if isg:
                out += E.call_closure(fr, blk, s, args[2], [x])
            else:
                out.append((s, args[1]))
                dropped(E, fr, blk, s, p, n, args)
        elif m == "map_or_else":
            if isg:
                out += E.call_closure(fr, blk, s, args[2], [x])
            else:
                out += E.call_closure(fr, blk, s, args[1], [] if p == OPT else [x])
        elif m == "or":
            out.append((s, args[0] if isg else args[1]))
        elif m == "or_else":
            if isg:
                out.append((s, args[0]))
            else:
                out += E.call_closure(fr, blk, s, args[1], [] if p == OPT else [x])
        elif m == "ok":
            out.append((s, some(x) if isg else NONE))
            if not isg:
                dropped(E, fr, blk, s, p, n, args)
        elif m == "err":
            out.append((s, NONE if isg else some(x)))
        elif m in ("filter", "is_some_and", "is_ok_and", "is_none_or"):
            if not isg:
                out.append((s, NONE if m == "filter" else BoolV(("c", m == "is_none_or"))))
            else:
                a = tmpref(E, s, x) if m == "filter" else x
                for a2, b in E.call_closure(fr, blk, s, args[1], [a]):
                    if m != "filter":
                        out.append((a2, b))
                    else:
                        f = E.asf(b)
                        for a3 in E.assume(a2.copy(), f, True):
                            out.append((a3, some(x)))
                        for a3 in E.assume(a2, f, False):
                            out.append((a3, NONE))
        else:
            out.append((s, E.fresh_val(dty)))
    return out


def dropped(E, fr, blk, s, p, n, args):
    if p == RES and E.on_event:
        E.on_event(E, fr, blk, s, "err_dropped", (n, args))


def tmpref(E, st, v):
    root = ("C", E.fresh("tmp"))
    st.mem[root] = v
    return Ref(root, ())


@model("Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut")
def m_as_ref(E, fr, blk, st, fn, args, atys, dty):
    n = norm(fn["path"])
    p = OPT if n.startswith("Option") else RES
    r = E.toref(args[0])
    ty = E.strip_ref(atys[0]) if atys[0] is not None else None
    v = E.read(st, r.root, r.path, ty)
    out = []
    for s, vi in both(E, st, v, p):
        if p == OPT and vi == 0:
            out.append((s, NONE))
            continue
        pty = payload_ty(E, ty, vi - 1 if p == OPT else vi)
        # pin the variant in memory so that writes through the reference keep it
        cur = E.read(s, r.root, r.path, ty)
        if isinstance(cur, Sym):
            E.write(s, r.root, r.path, Agg(p, vi, (E.mk(E.fterm(cur.term, vi, 0, "0"), pty),), None, ty))
        rr = Ref(r.root, r.path + (("f", 0, vi, pty, "0"),), pty)
        if n == "Option::as_deref":
            x = E.read(s, rr.root, rr.path, pty)
            rr = Ref(rr.root, rr.path, pty)
        out.append((s, Agg(p, vi, (rr,))))
    return out


@model("Option::get_or_insert", "Option::get_or_insert_with")
def m_goi(E, fr, blk, st, fn, args, atys, dty):
    r = E.toref(args[0])
    ty = E.strip_ref(atys[0]) if atys[0] is not None else None
    v = E.read(st, r.root, r.path, ty)
    pty = payload_ty(E, ty, 0)
    rr = Ref(r.root, r.path + (("f", 0, 1, pty, "0"),), pty)
    out = []
    for s, vi in both(E, st, v, OPT):
        if vi == 1:
            E.write(s, r.root, r.path, some(pfield(E, s, v, 1, pty)))
            out.append((s, rr))
        elif norm(fn["path"]).endswith("_with"):
            for s2, x in E.call_closure(fr, blk, s, args[1], []):
                E.write(s2, r.root, r.path, some(x))
                out.append((s2, rr))
        else:
            E.write(s, r.root, r.path, some(args[1]))
            out.append((s, rr))
    return out


@model("Option::zip", "Option::flatten")
def m_zip(E, fr, blk, st, fn, args, atys, dty):
    out = []
    for s, vi in both(E, st, args[0], OPT):
        if vi == 0:
            out.append((s, NONE))
            continue
        x = pfield(E, s, args[0], 1, payload_ty(E, atys[0], 0))
        if norm(fn["path"]).endswith("flatten"):
            out.append((s, x))
            continue
        for s2, vj in both(E, s, args[1], OPT):
            if vj == 0:
                out.append((s2, NONE))
            else:
                y = pfield(E, s2, args[1], 1, payload_ty(E, atys[1], 0))
                out.append((s2, some(Agg("tuple", None, (x, y)))))
    return out


@model("bool::then", "bool::then_some")
def m_then(E, fr, blk, st, fn, args, atys, dty):
    f = E.asf(args[0])
    out = []
    for s in E.assume(st.copy(), f, True):
        if norm(fn["path"]).endswith("then"):
            out += [(a, some(b)) for a, b in E.call_closure(fr, blk, s, args[1], [])]
        else:
            out.append((s, some(args[1])))
    out += [(s, NONE) for s in E.assume(st, f, False)]
    return out


@model("Option::as_deref")
def m_as_deref(E, fr, blk, st, fn, args, atys, dty):
    return m_as_ref(E, fr, blk, st, fn, args, atys, dty)


@model("Try::branch")
def m_branch(E, fr, blk, st, fn, args, atys, dty):
    ty = atys[0]
    p = E.P.types[ty].get("path") if ty is not None else RES
    v = args[0]
    if isinstance(v, Agg):
        p = v.path
    out = []
    for s, vi in both(E, st, v, p):
        if p == OPT:
            if vi == 1:
                out.append((s, Agg(CF, 0, (pfield(E, s, v, 1, payload_ty(E, ty, 0)),))))
            else:
                out.append((s, Agg(CF, 1, (NONE,))))
        else:
            if vi == 0:
                out.append((s, Agg(CF, 0, (pfield(E, s, v, 0, payload_ty(E, ty, 0)),))))
            else:
                e = pfield(E, s, v, 1, payload_ty(E, ty, 1))
                out.append((s, Agg(CF, 1, (err(e),))))
    return out


@model("FromResidual::from_residual")
def m_residual(E, fr, blk, st, fn, args, atys, dty):
    v = args[0]
    if isinstance(v, Agg) and v.path == OPT:
        return [(st, NONE)]
    if isinstance(v, Agg) and v.path == RES:
        e = v.fields[0]
        return [(st, err(Sym(("into", E.termof(e)), None)))]
    if dty is not None and E.P.types[dty].get("path") == OPT:
        return [(st, NONE)]
    return [(st, err(Sym(("into", E.termof(v)), None)))]


@model("Try::from_output")
def m_from_output(E, fr, blk, st, fn, args, atys, dty):
    p = E.P.types[dty].get("path") if dty is not None else RES
    return [(st, some(args[0]) if p == OPT else ok(args[0]))]


# ------------------------------------------------------------------ numbers and comparisons
def num(E, st, v):
    v = E.peel(st, v)
    return v if isinstance(v, Lin) else None


def choose(E, st, f, a, b):
    """[(st, a)] where f, [(st, b)] where not f"""
    t = E.truth(st, f)
    if t is True:
        return [(st, a)]
    if t is False:
        return [(st, b)]
    out = [(s, a) for s in E.assume(st.copy(), f, True)]
    out += [(s, b) for s in E.assume(st, f, False)]
    return out


@model("Ord::min", "cmp::min", "f64::min_", "Ord::max", "cmp::max")
def m_min(E, fr, blk, st, fn, args, atys, dty):
    a, b = args[0], args[1]
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        # a type ordered by the crate: b if b < a for the least, a if b < a for the greatest
        o = local_cmp(E, fr, blk, st, fn, [tmpref(E, st, b), tmpref(E, st, a)])
        if o is None:
            return None
        least = norm(fn["path"]).endswith("min")
        return [(s, b if (v == 0) == least else a) for s, v in o]
    if norm(fn["path"]).endswith("min"):
        return choose(E, st, ("ge", b - a), a, b)
    return choose(E, st, ("ge", a - b), a, b)


@model("Ord::clamp", "cmp::clamp")
def m_clamp(E, fr, blk, st, fn, args, atys, dty):
    x, lo, hi = args
    if not all(isinstance(v, Lin) for v in args):
        return None
    E.obligation(fr, blk, "clamp", E.entails(st, hi - lo), "clamp bounds")
    if not E.add_ge(st, hi - lo):
        return []
    out = []
    for s, v in choose(E, st, ("ge", lo - x), lo, x):
        if v is lo:
            out.append((s, v))
        else:
            out += choose(E, s, ("ge", x - hi), hi, x)
    return out


@model("num::saturating_sub", "num::saturating_add", "num::checked_sub", "num::checked_add", "num::abs_diff",
       "num::wrapping_add", "num::wrapping_sub", "num::overflowing_sub", "num::div_ceil", "num::pow", "num::rem_euclid",
       "num::checked_mul", "num::saturating_mul", "num::wrapping_mul", "num::is_multiple_of", "num::unsigned_abs", "num::abs",
       "num::checked_div", "num::checked_rem", "num::checked_add_signed", "num::saturating_add_signed", "num::next_multiple_of",
       "num::min", "num::max", "num::clamp")
def m_num(E, fr, blk, st, fn, args, atys, dty):
    m = norm(fn["path"]).split("::")[1]
    if m in ("min", "max"):
        return m_min(E, fr, blk, st, fn, args, atys, dty)
    a = args[0]
    b = args[1] if len(args) > 1 else Lin(0)
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        return [(st, E.mk((m, E.termof(a), E.termof(b)), dty))]
    ty = atys[0]
    lo, hi = E.range_of(ty) if ty is not None else (0, 2**64 - 1)
    if m == "saturating_sub":
        return choose(E, st, ("ge", a - b - lo), a - b, Lin(lo))
    if m in ("saturating_add", "saturating_add_signed") or m == "saturating_mul" and (a.is_const() or b.is_const()):
        r = a + b if m != "saturating_mul" else b.scale(a.c) if a.is_const() else a.scale(b.c)
        out = []
        for s, v in choose(E, st, ("ge", Lin(hi) - r), r, Lin(hi)):
            if v is r:
                out += choose(E, s, ("ge", r - lo), r, Lin(lo))
            else:
                out.append((s, v))
        return out
    if m in ("checked_sub",):
        return choose(E, st, ("ge", a - b - lo), some(a - b), NONE)
    if m in ("checked_add",):
        return choose(E, st, ("ge", Lin(hi) - a - b), some(a + b), NONE)
    if m == "checked_add_signed":
        r = a + b
        out = []
        for s, v in choose(E, st, ("ge", r - lo), 1, 0):
            if v:
                out += choose(E, s, ("ge", Lin(hi) - r), some(r), NONE)
            else:
                out.append((s, NONE))
        return out
    if m == "abs_diff":
        return choose(E, st, ("ge", a - b), a - b, b - a)
    if m in ("abs", "unsigned_abs"):
        return choose(E, st, ("ge", a), a, -a)
    if m == "div_ceil" and b.is_const() and b.c > 0:
        return [(st, E.arith(st, "Div", a + (b.c - 1), b, ty))]
    if m in ("wrapping_add", "wrapping_sub"):
        r = a + b if m == "wrapping_add" else a - b
        if E.entails(st, r - lo) and E.entails(st, Lin(hi) - r):
            return [(st, r)]
        return [(st, E.mk((m, a, b), dty))]
    if m == "pow" and b.is_const() and a.is_const() and 0 <= b.c < 64:
        return [(st, Lin(a.c ** b.c))]
    return [(st, E.mk((m, a, b), dty))]


def eqf(E, st, a, b, depth=0):
    """formula of a == b on values (references are looked through)"""
    a, b = E.peel(st, a), E.peel(st, b)
    if isinstance(a, Lin) and isinstance(b, Lin):
        return E.cmp("Eq", a, b)
    if isinstance(a, BoolV) and isinstance(b, BoolV):
        return E.binop(st, "Eq", a, b, None).f
    ta, tb = E.termof(a), E.termof(b)
    if ta == tb:
        return TRUE
    if isinstance(a, VecV) or isinstance(b, VecV) or ta[0] == "str" or tb[0] == "str":
        la = ta[1] if ta[0] == "str" else None
        lb = tb[1] if tb[0] == "str" else None
        if la is not None and lb is not None:
            return ("c", la == lb)
        if la is not None:
            ta, tb, la, lb = tb, ta, lb, la
        if lb is not None:
            return ("s", ("streq", ta, lb))
        return ("s", ("eqv",) + tuple(sorted((ta, tb), key=repr)))
    if isinstance(a, Agg) and isinstance(b, Agg) and a.path == b.path:
        if a.vi != b.vi:
            return FALSE
        f = TRUE
        if depth < 4:
            for i in range(max(len(a.fields), len(b.fields))):
                x = a.fields[i] if i < len(a.fields) else None
                y = b.fields[i] if i < len(b.fields) else None
                if x is None or y is None:
                    return ("s", ("eqv",) + tuple(sorted((ta, tb), key=repr)))
                f = fand(f, eqf(E, st, x, y, depth + 1))
            return f
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Agg) and x.vi is not None and isinstance(y, Sym):
            k = E.variant_of(st, y)
            if k is not None and k != E.discr_val(x.path, x.vi):
                return FALSE
            d = E.discr(st, y)
            f = ("eq", d - E.discr_val(x.path, x.vi))
            if d.is_const():
                f = ("c", d.c == E.discr_val(x.path, x.vi))
            for i, xf in enumerate(x.fields):
                if xf is None or depth > 3:
                    return ("s", ("eqv",) + tuple(sorted((ta, tb), key=repr)))
                yf = E.mk(E.fterm(y.term, x.vi, i, str(i)), None)
                if isinstance(xf, Lin):
                    yf = E.atom(yf.term)
                elif isinstance(xf, BoolV):
                    yf = BoolV(("s", yf.term))
                f = fand(f, eqf(E, st, xf, yf, depth + 1))
            return f
    if isinstance(a, Sym) and isinstance(b, Sym) and a.ty is not None and E.tyk(a.ty) == "adt":
        vs = E.variants(E.P.types[a.ty]["path"])
        if vs and all(not v["fields"] for v in vs):
            return E.cmp("Eq", E.discr(st, a), E.discr(st, b))
    return ("s", ("eqv",) + tuple(sorted((ta, tb), key=repr)))


@model("PartialEq::eq", "PartialEq::ne", "str::eq_ignore_ascii_case")
def m_eq(E, fr, blk, st, fn, args, atys, dty):
    n = norm(fn["path"])
    if n.startswith("str"):
        return [(st, BoolV(("s", ("eqi", E.content(st, args[0]), E.content(st, args[1])))))]
    # element equality implemented in the crate, behind Option / Vec / references
    f = eqf(E, st, args[0], args[1])
    return [(st, BoolV(f if n.endswith("eq") else fnot(f)))]


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_ord(E, fr, blk, st, fn, args, atys, dty):
    a, b = E.peel(st, args[0]), E.peel(st, args[1])
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[norm(fn["path"]).split("::")[1]]
    if isinstance(a, Lin) and isinstance(b, Lin):
        return [(st, BoolV(E.cmp(op, a, b)))]
    o = local_cmp(E, fr, blk, st, fn, args)
    if o is not None:
        yes = {"Lt": (0,), "Le": (0, 1), "Gt": (2,), "Ge": (1, 2)}[op]
        return [(s, BoolV(TRUE if v in yes else FALSE)) for s, v in o]
    return [(st, BoolV(("s", ("cmp", op, E.termof(a), E.termof(b)))))]


def local_cmp(E, fr, blk, st, fn, args):
    """[(state, variant of the ordering)], from the comparison the crate defines for the type"""
    if not fn.get("targs"):
        return None
    ty = fn["targs"][0]
    ty = E.strip_ref(ty) or ty
    adt = E.P.adt_of(ty) if ty is not None else None
    b = None
    for x in E.P.bodies.values():
        if x.kind == "fn" and x.name == "cmp" and "cmp::Ord" in (x.impl_of or "") and adt and E.P.adt_of(x.impl_self) == adt:
            b = x
    if b is None:
        return None
    rs = []
    for a in args[:2]:
        r = E.toref(a)
        while r is not None:
            v = E.read(st, r.root, r.path, r.ty)
            n = E.toref(v) if isinstance(v, (Ref, Sym)) and not (isinstance(v, Sym) and (v.ty is None or E.tyk(v.ty) != "ref")) else None
            if n is None:
                break
            r = n
        if r is None:
            return None
        rs.append(r)
    out = []
    for s, v in E.call_body(st, b, rs, fr, blk):
        vi = E.variant_of(s, v)
        if vi is not None:
            out.append((s, vi))
            continue
        for k in (0, 1, 2):
            s2 = s.copy()
            if E.add_eq(s2, E.discr(s2, v) - (k - 1)) and E.feasible(s2, []):
                out.append((s2, k))
    return out


@model("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(E, fr, blk, st, fn, args, atys, dty):
    a, b = E.peel(st, args[0]), E.peel(st, args[1])
    part = norm(fn["path"]).endswith("partial_cmp")
    if fn.get("rlocal") and not (isinstance(a, Lin) and isinstance(b, Lin)):
        return None
    wrap = some if part else (lambda x: x)
    if isinstance(a, Lin) and isinstance(b, Lin):
        out = []
        d = a - b
        for l, vi in ((-d - 1, 0), (None, 1), (d - 1, 2)):
            s = st.copy()
            if (E.add_eq(s, d) if l is None else E.add_ge(s, l)):
                out.append((s, wrap(Agg(ORD, vi, ()))))
        return out
    return [(st, E.mk(("cmp", E.termof(a), E.termof(b)), dty))]


@model("Ordering::then", "Ordering::then_with", "Ordering::reverse", "Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt",
       "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def m_ordering(E, fr, blk, st, fn, args, atys, dty):
    a, m = args[0], norm(fn["path"]).split("::")[-1]
    if not isinstance(a, Agg) or a.path != ORD or a.vi not in (0, 1, 2):
        return None
    if m.startswith("then"):
        if a.vi != 1:
            return [(st, a)]
        return [(st, args[1])] if m == "then" else E.call_closure(fr, blk, st, args[1], [])
    if m == "reverse":
        return [(st, Agg(ORD, 2 - a.vi, ()))]
    yes = {"is_lt": (0,), "is_le": (0, 1), "is_gt": (2,), "is_ge": (1, 2), "is_eq": (1,), "is_ne": (0, 2)}[m]
    return [(st, BoolV(TRUE if a.vi in yes else FALSE))]


# ------------------------------------------------------------------ vectors, slices, strings
def vec_at(E, st, a, aty=None):
    r = E.toref(a)
    if r is None:
        return None, a if isinstance(a, VecV) else None
    v = E.read(st, r.root, r.path, None)
    n = 0
    while isinstance(v, (Ref, Sym)) and n < 4:
        if isinstance(v, Sym):
            if v.ty is not None and E.tyk(v.ty) == "ref":
                r = E.toref(v)
                v = E.read(st, r.root, r.path, r.ty)
            else:
                ty = E.strip_ref(aty) if aty is not None else None
                v = VecV(v.term, E.nat(("len", v.term)), (), E.elem_ty(ty) if ty is not None and E.vecish(ty) else None)
        else:
            r = v
            v = E.read(st, r.root, r.path, r.ty)
        n += 1
    return r, v if isinstance(v, VecV) else None


@model("Vec::new", "String::new", "Vec::with_capacity", "String::with_capacity", "Vec::default")
def m_vnew(E, fr, blk, st, fn, args, atys, dty):
    return [(st, VecV(("empty",), Lin(0), (), E.elem_ty(dty) if dty is not None else None))]


@model("vec::from_elem")
def m_from_elem(E, fr, blk, st, fn, args, atys, dty):
    n = args[1]
    t = ("vrep", E.termof(args[0]), n)
    return [(st, VecV(E.fresh("vrep"), n if isinstance(n, Lin) else E.nat(("n", t)), (), E.elem_ty(dty)))]


@model("Vec::len", "slice::len", "str::len", "String::len")
def m_len(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if v is None:
        return None
    return [(st, v.len)]


@model("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty")
def m_is_empty(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if v is None:
        return None
    return [(st, BoolV(E.cmp("Eq", v.len, Lin(0))))]


def runs(t):
    """a string content term as a list of (unit, repetition count)"""
    if t == ("empty",):
        return []
    if isinstance(t, tuple) and t:
        if t[0] == "cat":
            out = []
            for x in t[1:]:
                out += runs(x)
            return out
        if t[0] == "rep":
            return [(t[1], t[2])]
        if t[0] == "str":
            if t[1] == "":
                return []
            if len(t[1]) == 1 or len(set(t[1])) == 1:
                return [(("ch", ("lin", Lin(ord(t[1][0])))), Lin(len(t[1])))]
    return [(t, Lin(1))]


def unruns(rs):
    out = []
    for x, n in rs:
        if n == Lin(0):
            continue
        if out and out[-1][0] == x and x[0] in ("ch", "o"):
            out[-1] = (x, out[-1][1] + n)
        else:
            out.append((x, n))
    parts = [x if n == Lin(1) else ("rep", x, n) for x, n in out]
    if not parts:
        return ("empty",)
    if len(parts) > 60:
        return None
    return parts[0] if len(parts) == 1 else ("cat",) + tuple(parts)


def strcat(a, b):
    return unruns(runs(a) + runs(b))


@model("str::repeat", "slice::repeat")
def m_repeat(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    n = args[1]
    if v is None or not isinstance(n, Lin):
        t = E.fresh("str")
        return [(st, VecV(t, E.nat(("len", t))))]
    rs = runs(v.term)
    if len(rs) == 1 and rs[0][1].is_const() and rs[0][1].c == 1:
        t = unruns([(rs[0][0], n)])
    else:
        t = ("rep", v.term, n)
    if v.len.is_const():
        return [(st, VecV(t, n.scale(v.len.c)))]
    if n.is_const():
        return [(st, VecV(t, v.len.scale(n.c)))]
    return [(st, VecV(t, E.nat(("len", t))))]


@model("Vec::push", "String::push", "String::push_str", "Vec::extend_from_slice", "Vec::push_within_capacity")
def m_push(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if v is None:
        return None
    n = norm(fn["path"])
    if n == "Vec::push":
        nv = VecV(v.term, v.len + 1, v.writes + ((v.len, args[1]),), v.ety)
        if len(nv.writes) > E.max_writes:
            nv = VecV(E.fresh("vec"), v.len + 1, nv.writes[-2:], v.ety)
    elif n == "String::push":
        l = utf8len(E, st, args[1])
        t = strcat(v.term, ("ch", E.termof(args[1]))) or E.fresh("str")
        nv = VecV(t, v.len + l)
    else:
        _, w = vec_at(E, st, args[1], atys[1])
        if w is None:
            t = E.fresh("str")
            nv = VecV(t, E.nat(("len", t)))
            E.add_ge(st, nv.len - v.len, False)
        else:
            t = (strcat(v.term, w.term) if not v.writes and not w.writes else None) or E.fresh("str")
            nv = VecV(t, v.len + w.len, (), v.ety)
    E.write(st, r.root, r.path, nv)
    return [(st, UNIT)]


def utf8len(E, st, c):
    if isinstance(c, Lin) and c.is_const() and 0 <= c.c <= 0x10ffff:
        return Lin(len(chr(c.c).encode("utf8", "surrogatepass")))
    a = E.atom(("utf8len", E.termof(c)), None, 1, 4)
    return a


@model("methods::len_utf8", "char::len_utf8")
def m_len_utf8(E, fr, blk, st, fn, args, atys, dty):
    return [(st, utf8len(E, st, args[0]))]


@model("Vec::insert", "String::insert", "String::insert_str")
def m_insert(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if v is None:
        return None
    i = args[1]
    if isinstance(i, Lin):
        E.obligation(fr, blk, "insert", E.entails(st, v.len - i), "index <= len not proven: " + E.showlin(v.len - i))
        if not E.add_ge(st, v.len - i):
            return []
    n = norm(fn["path"])
    if n == "Vec::insert":
        nv = VecV(E.fresh("vec"), v.len + 1, ((i, args[2]),) if isinstance(i, Lin) else (), v.ety)
        # elements before the insertion point are unchanged
        if isinstance(i, Lin):
            keep = tuple((j, x) for j, x in v.writes if j is not None and E.entails(st, i - j - 1))
            nv = VecV(("ins", v.term if not v.writes else E.fresh("vec"), i), v.len + 1, keep + ((i, args[2]),), v.ety)
    elif n == "String::insert":
        nv = VecV(E.fresh("str"), v.len + utf8len(E, st, args[2]))
    else:
        t = E.fresh("str")
        nv = VecV(t, E.nat(("len", t)))
    E.write(st, r.root, r.path, nv)
    return [(st, UNIT)]


@model("Vec::remove", "Vec::swap_remove", "String::remove")
def m_remove(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if v is None:
        return None
    i = args[1]
    if isinstance(i, Lin):
        E.obligation(fr, blk, "remove", E.entails(st, v.len - i - 1), "index < len not proven: " + E.showlin(v.len - i - 1))
        if not E.add_ge(st, v.len - i - 1):
            return []
    x = E.elem(st, v, i if isinstance(i, Lin) else None, v.ety)
    if norm(fn["path"]) == "String::remove":
        x = E.fresh_val(dty, "ch")
        nv = VecV(E.fresh("str"), v.len - utf8len(E, st, x))
    else:
        keep = tuple((j, y) for j, y in v.writes if j is not None and isinstance(i, Lin) and E.entails(st, i - j - 1))
        nv = VecV(E.fresh("vec"), v.len - 1, keep, v.ety)
    E.write(st, r.root, r.path, nv)
    return [(st, E.coerce(x, dty))]


@model("Vec::pop", "String::pop")
def m_pop(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if v is None:
        return None
    out = []
    for s in E.assume(st.copy(), E.cmp("Ge", v.len, Lin(1)), True):
        if norm(fn["path"]) == "Vec::pop":
            x = E.elem(s, v, v.len - 1, v.ety)
            w = tuple((j, y) for j, y in v.writes if j is not None and j != v.len - 1)
            if any(j is None for j, _ in v.writes):
                nv = VecV(E.fresh("vec"), v.len - 1, (), v.ety)
            else:
                nv = VecV(v.term, v.len - 1, w, v.ety)
        else:
            x = E.fresh_val(payload_ty(E, dty), "ch")
            nv = VecV(E.fresh("str"), v.len - utf8len(E, s, x))
        E.write(s, r.root, r.path, nv)
        out.append((s, some(x)))
    for s in E.assume(st, E.cmp("Eq", v.len, Lin(0)), True):
        out.append((s, NONE))
    return out


@model("Vec::truncate", "String::truncate")
def m_truncate(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if v is None or not isinstance(args[1], Lin):
        return None
    n = args[1]
    out = []
    for s, k in choose(E, st, ("ge", v.len - n), n, v.len):
        if k is n:
            if norm(fn["path"]).startswith("String"):
                nv = VecV(("sub", E.termof(v), Lin(0), n), n)
                if n == v.len:
                    nv = v
            else:
                nv = VecV(v.term, n, v.writes, v.ety)
            E.write(s, r.root, r.path, nv)
        out.append((s, UNIT))
    return out


@model("Vec::clear", "String::clear")
def m_clear(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if r is None:
        return None
    E.write(st, r.root, r.path, VecV(("empty",), Lin(0), (), v.ety if v else None))
    return [(st, UNIT)]


@model("Vec::resize", "Vec::resize_with")
def m_resize(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if r is None or not isinstance(args[1], Lin):
        return None
    E.write(st, r.root, r.path, VecV(E.fresh("vec"), args[1], (), v.ety if v else None))
    return [(st, UNIT)]


@model("Vec::append")
def m_append(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    r2, w = vec_at(E, st, args[1], atys[1])
    if v is None or w is None:
        return None
    E.write(st, r.root, r.path, VecV(E.fresh("vec"), v.len + w.len, (), v.ety))
    E.write(st, r2.root, r2.path, VecV(("empty",), Lin(0), (), w.ety))
    return [(st, UNIT)]


def pushes(E, fr, blk, st, fn, args, atys, dty, v):
    """what an iterator gives is pushed, item after item"""
    it = args[1]
    if isinstance(it, VecV) and it.len.is_const():
        root = ("C", E.fresh("ext"))
        st.mem[root] = it
        it = Agg("m:own", None, (Ref(root, ()), Lin(0), it.len))
    if not isinstance(it, Agg) or not it.path.startswith("m:"):
        return None
    pushed = dict(fn, path="alloc::vec::Vec::<T, A>::push")

    def step(s, i, a):
        out = []
        for s2, i2, x in nxt(E, fr, blk, s, i, v.ety):
            if x is None:
                out.append((s2, None, None))
                continue
            x = E.deref(s2, x) if isinstance(x, Ref) and E.tyk(v.ety) != "ref" else x
            w = E.on_call(E, fr, blk, s2, "alloc::vec::Vec::push", pushed, [args[0], x]) if E.on_call is not None else None
            for s3, _ in w if w is not None else m_push(E, fr, blk, s2, pushed, [args[0], x], [atys[0], v.ety], dty):
                out.append((s3, i2, None))
        return out
    return [(s, UNIT) for s, _ in E.synth(fr, blk, st, it, None, step, (args[0],))]


@model("Vec::extend", "Extend::extend")
def m_extend(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if v is None:
        return None
    aty = E.P.types[atys[1]].get("path") if atys and len(atys) > 1 and atys[1] is not None else None
    if aty == OPT or isinstance(args[1], Agg) and args[1].path == OPT:
        # the value, if any, is pushed
        out = []
        for s, vi in both(E, st, args[1], OPT):
            if vi == 0:
                out.append((s, UNIT))
            else:
                x = pfield(E, s, args[1], 1, payload_ty(E, atys[1]))
                pushed = dict(fn, path="alloc::vec::Vec::<T, A>::push")
                w = E.on_call(E, fr, blk, s, "alloc::vec::Vec::push", pushed, [args[0], x]) if E.on_call is not None else None
                out += w if w is not None else m_push(E, fr, blk, s, pushed, [args[0], x], [atys[0], v.ety], dty)
        return out
    if E.adaptors:
        out = pushes(E, fr, blk, st, fn, args, atys, dty, v)
        if out is not None:
            return out
    t = E.fresh("vec")
    nv = VecV(t, E.nat(("len", t)), (), v.ety)
    E.add_ge(st, nv.len - v.len, False)
    consume_once(E, fr, blk, st, args[1])
    E.write(st, r.root, r.path, nv)
    return [(st, UNIT)]


@model("Vec::split_off")
def m_split_off(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if v is None or not isinstance(args[1], Lin):
        return None
    i = args[1]
    E.obligation(fr, blk, "split_off", E.entails(st, v.len - i), "at <= len not proven: " + E.showlin(v.len - i))
    if not E.add_ge(st, v.len - i):
        return []
    E.write(st, r.root, r.path, VecV(v.term, i, v.writes, v.ety))
    return [(st, VecV(("sub", E.termof(v), i, v.len), v.len - i, (), v.ety))]


def range_bounds(E, st, rv, ln, rty=None):
    """(lo, hi) of a range value over a sequence of length ln"""
    if isinstance(rv, Agg):
        p = rv.path.split("::")[-1]
        f = rv.fields
    elif isinstance(rv, Sym) and rv.ty is not None and E.tyk(rv.ty) == "adt":
        p = E.P.types[rv.ty]["path"].split("::")[-1]
        f = [E.atom(E.fterm(rv.term, None, i, n)) for i, n in enumerate(("start", "end"))]
    elif rty is not None and E.tyk(rty) == "adt":
        p = E.P.types[rty]["path"].split("::")[-1]
        f = ()
    else:
        return None
    if p == "RangeFull":
        return Lin(0), ln
    if p == "Range":
        return f[0], f[1]
    if p == "RangeFrom":
        return f[0], ln
    if p == "RangeTo":
        return Lin(0), f[0]
    if p == "RangeToInclusive":
        return Lin(0), f[0] + 1 if isinstance(f[0], Lin) else None
    if p == "RangeInclusive":
        return f[0], f[1] + 1 if isinstance(f[1], Lin) else None
    return None


@model("RangeInclusive::new")
def m_ri(E, fr, blk, st, fn, args, atys, dty):
    return [(st, Agg("core::ops::range::RangeInclusive", None, (args[0], args[1], BoolV(FALSE)), None, dty))]


def check_range(E, fr, blk, st, lo, hi, ln, kind):
    c = [hi - lo, ln - hi]
    okk = all(E.entails(st, x) for x in c)
    E.obligation(fr, blk, kind, okk, "range not proven within bounds: " + " ; ".join(E.showlin(x) + ">=0" for x in c))
    for x in c:
        if not E.add_ge(st, x):
            return False
    return True


def siteroot(E, fr, blk, st, tag):
    """the same in all the states which come here, so that they can be joined"""
    root = ("C", (tag, fr.id, blk)) if fr is not None else ("C", E.fresh(tag))
    return root if root not in st.mem else ("C", E.fresh(tag))


@model("Vec::drain", "String::drain")
def m_drain(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if v is None:
        return None
    b = range_bounds(E, st, args[1], v.len, atys[1])
    if b is None or b[0] is None or b[1] is None:
        E.havoc_loc(st, r.root, r.path)
        return [(st, E.fresh_val(dty))]
    lo, hi = b
    if not check_range(E, fr, blk, st, lo, hi, v.len, "drain"):
        return []
    content = E.subvec(st, v, lo, hi)
    if lo == Lin(0) and hi == v.len:
        nv = VecV(("empty",), Lin(0), (), v.ety)
        content = v
    elif hi == v.len:
        nv = VecV(v.term, lo, v.writes, v.ety)
    elif (hi - lo) == Lin(0):
        nv = v
    else:
        keep = tuple((j, y) for j, y in v.writes if j is not None and E.entails(st, lo - j - 1))
        nv = VecV(E.fresh("vec"), v.len - (hi - lo), keep, v.ety)
    E.write(st, r.root, r.path, nv)
    root = siteroot(E, fr, blk, st, "drain")
    st.mem[root] = content
    return [(st, Agg("m:own", None, (Ref(root, (), None), Lin(0), hi - lo)))]


@model("Index::index", "IndexMut::index_mut", "SliceIndex::index")
def m_index(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if v is None:
        # HashMap etc
        t = ("index", E.content(st, args[0]), E.content(st, args[1]))
        return [(st, Ref(("d", t), (), E.strip_ref(dty) if dty is not None else None))]
    i = args[1]
    if isinstance(i, Lin):
        c = v.len - i - 1
        E.obligation(fr, blk, "index", E.entails(st, c), "index < len not proven: " + E.showlin(c))
        if not E.add_ge(st, c):
            return []
        ety = E.strip_ref(dty) if dty is not None and E.tyk(dty) == "ref" else v.ety
        return [(st, Ref(r.root, r.path + (("e", i, ety),), ety))]
    b = range_bounds(E, st, i, v.len, atys[1])
    if b is None or not isinstance(b[0], Lin) or not isinstance(b[1], Lin):
        return [(st, E.fresh_val(dty))]
    lo, hi = b
    isstr = dty is not None and E.tyk(dty) == "ref" and E.tyk(E.strip_ref(dty)) == "str"
    if not check_range(E, fr, blk, st, lo, hi, v.len, "slice"):
        return []
    if E.on_event and isstr:
        E.on_event(E, fr, blk, st, "str_slice", (v, lo, hi))
    if lo == Lin(0) and hi == v.len:
        return [(st, r)]
    sub = E.subvec(st, v, lo, hi)
    if isinstance(r.root, tuple) and sub.term[0] == "sub":
        root = ("d", ("slice", sub.term))
        root = ("S", sub.term)
    else:
        root = ("S", sub.term)
    st.mem[root] = sub
    if norm(fn["path"]) == "IndexMut::index_mut":
        st.alias[root] = ((r.root, r.path),)
    return [(st, Ref(root, (), E.strip_ref(dty) if dty is not None else None))]


@model("slice::get", "slice::get_mut", "Vec::get", "str::get")
def m_get(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    i = args[1]
    if v is None or not isinstance(i, Lin):
        if v is not None:
            b = range_bounds(E, st, i, v.len, atys[1])
            if b and isinstance(b[0], Lin) and isinstance(b[1], Lin):
                out = []
                f = fand(("ge", b[1] - b[0]), ("ge", v.len - b[1]))
                isstr = "str" in norm(fn["path"])
                for s in E.assume(st.copy(), f, True):
                    sub = E.subvec(s, v, b[0], b[1])
                    root = ("S", sub.term)
                    s.mem[root] = sub
                    out.append((s, some(Ref(root, ()))))
                    if isstr:
                        out.append((s.copy(), NONE))
                for s in E.assume(st, f, False):
                    out.append((s, NONE))
                return out
        return None
    rt = payload_ty(E, dty)
    ety = E.strip_ref(rt) if rt is not None and E.tyk(rt) == "ref" else v.ety
    return choose(E, st, ("ge", v.len - i - 1), some(Ref(r.root, r.path + (("e", i, ety),), ety)), NONE)


@model("slice::first", "slice::last", "slice::last_mut", "slice::first_mut")
def m_first(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if v is None:
        return None
    rt = payload_ty(E, dty)
    ety = E.strip_ref(rt) if rt is not None and E.tyk(rt) == "ref" else v.ety
    i = Lin(0) if "first" in fn["path"] else v.len - 1
    return choose(E, st, E.cmp("Ge", v.len, Lin(1)), some(Ref(r.root, r.path + (("e", i, ety),), ety)), NONE)


@model("slice::swap", "slice::sort_by", "slice::sort_by_key", "slice::sort", "slice::sort_unstable_by", "slice::reverse",
       "slice::sort_unstable_by_key", "slice::sort_unstable", "slice::clone_from_slice", "slice::copy_from_slice", "slice::fill")
def m_permute(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if v is None:
        return None
    n = norm(fn["path"]).split("::")[1]
    if n == "swap" and isinstance(args[1], Lin) and isinstance(args[2], Lin):
        c = [v.len - args[1] - 1, v.len - args[2] - 1]
        E.obligation(fr, blk, "swap", all(E.entails(st, x) for x in c), "swap index")
        for x in c:
            if not E.add_ge(st, x):
                return []
    if n in ("clone_from_slice", "copy_from_slice"):
        _, w = vec_at(E, st, args[1], atys[1])
        if w is not None:
            E.obligation(fr, blk, "clone_from_slice", E.entails_eq0(st, v.len - w.len), "length mismatch")
            if not E.add_eq(st, v.len - w.len):
                return []
            E.write(st, r.root, r.path, VecV(w.term, v.len, w.writes, v.ety))
            return [(st, UNIT)]
    if n.startswith("sort") and len(args) > 1:
        run_closure_unknown(E, fr, blk, st, args[1], 2 if n.endswith("_by") else 1)
    E.write(st, r.root, r.path, VecV(E.fresh("vec"), v.len, (), v.ety))
    return [(st, UNIT)]


@model("slice::contains", "str::contains", "str::starts_with", "str::ends_with", "Regex::is_match", "Attributes::has",
       "KeyModifiers::intersects", "KeyModifiers::is_empty", "KeyModifiers::contains", "methods::is_alphanumeric",
       "methods::is_whitespace", "char::is_alphanumeric", "char::is_whitespace", "HashMap::contains_key",
       "methods::is_ascii_digit", "methods::is_control", "char::is_ascii_whitespace", "methods::is_numeric",
       "event::intersects", "_::intersects", "_::is_empty", "_::contains", "methods::is_ascii_whitespace",
       "str::is_char_boundary")
def m_pure_bool(E, fr, blk, st, fn, args, atys, dty):
    return [(st, BoolV(("s", (norm(fn["path"]),) + tuple(E.content(st, a) for a in args))))]


@model("UnicodeWidthStr::width", "str::width")
def m_width(E, fr, blk, st, fn, args, atys, dty):
    return [(st, E.nat(("width", E.content(st, args[0]))))]


@model("UnicodeWidthChar::width", "char::width")
def m_cwidth(E, fr, blk, st, fn, args, atys, dty):
    t = ("cwidth", E.content(st, args[0]))
    w = E.atom(t, None, 0, 2)
    c = args[0]
    if isinstance(c, Lin) and c.is_const() and 32 <= c.c < 127:
        return [(st, some(Lin(1)))]
    d = E.atom(("disc", ("cwidthopt", t)))
    out = []
    for i in (0, 1):
        s = st.copy()
        if E.add_eq(s, d - i):
            out.append((s, some(w) if i else NONE))
    return out


@model("str::trim_end", "str::trim_start", "str::trim", "str::trim_end_matches", "str::trim_start_matches", "str::to_lowercase",
       "str::to_uppercase", "str::replace", "str::lines", "str::split_whitespace")
def m_trim(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    n = norm(fn["path"]).split("::")[1]
    t = (n,) + tuple(E.content(st, a) for a in args)
    nv = VecV(t, E.nat(("len", t)))
    if v is not None and n.startswith("trim"):
        E.add_ge(st, v.len - nv.len, False)
    if n in ("lines", "split_whitespace"):
        return [(st, Agg("m:opq", None, (Sym(t, None),)))]
    if dty is not None and E.tyk(dty) == "ref":
        root = ("S", t)
        st.mem[root] = nv
        return [(st, Ref(root, ()))]
    return [(st, nv)]


@model("Range::contains", "RangeInclusive::contains")
def m_rcontains(E, fr, blk, st, fn, args, atys, dty):
    rg = E.peel(st, args[0])
    x = E.peel(st, args[1])
    b = range_bounds(E, st, rg, Lin(0))
    if b and isinstance(x, Lin) and isinstance(b[0], Lin) and isinstance(b[1], Lin):
        return [(st, BoolV(fand(("ge", x - b[0]), ("ge", b[1] - x - 1))))]
    return None


# ------------------------------------------------------------------ iterators
@model("slice::iter", "slice::iter_mut", "Vec::iter", "Vec::iter_mut")
def m_iter(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    if v is None:
        return None
    return [(st, Agg("m:slice", None, (Ref(r.root, r.path), Lin(0), v.len)))]


@model("IntoIterator::into_iter")
def m_into_iter(E, fr, blk, st, fn, args, atys, dty):
    a = args[0]
    if isinstance(a, Agg) and (a.path.startswith("m:") or "ops::range" in a.path):
        return [(st, a)]
    ty = atys[0]
    if ty is not None:
        t = E.P.types[ty]
        if t["k"] == "ref" and E.vecish(t["ty"]):
            r, v = vec_at(E, st, a, ty)
            if v is not None:
                return [(st, Agg("m:slice", None, (Ref(r.root, r.path), Lin(0), v.len)))]
        if t["k"] == "adt" and t["path"] == "alloc::vec::Vec" or t["k"] == "array":
            v = a if isinstance(a, VecV) else E.peel(st, a)
            if isinstance(v, VecV):
                root = siteroot(E, fr, blk, st, "into")
                st.mem[root] = v
                return [(st, Agg("m:own", None, (Ref(root, ()), Lin(0), v.len)))]
        if t["k"] == "adt" and t["path"].startswith("core::ops::range"):
            return [(st, a)]
        if t["k"] == "ref" and E.tyk(t["ty"]) == "adt" and E.P.types[t["ty"]]["path"].endswith("HashMap"):
            return m_hm(E, fr, blk, st, fn, args, atys, dty) or [(st, Agg("m:opq", None, (Sym(E.fresh("iter"), None),)))]
        if dty is not None and E.P.types[dty]["s"] == t["s"]:
            return [(st, a)]
    return [(st, Agg("m:opq", None, (Sym(E.fresh("iter"), None),)))]


@model("str::chars", "str::char_indices", "str::bytes")
def m_chars(E, fr, blk, st, fn, args, atys, dty):
    r, v = vec_at(E, st, args[0], atys[0])
    n = norm(fn["path"]).split("::")[1]
    if v is None:
        return [(st, Agg("m:opq", None, (Sym(E.fresh("chars"), None),)))]
    if E.on_chars is not None and n != "bytes":
        E.on_chars(E, st, v)
    return [(st, Agg("m:" + n, None, (Sym(E.termof(v), None), Lin(0), v.len)))]


@model("Iterator::enumerate", "Iterator::rev", "Iterator::skip", "Iterator::take", "Iterator::map", "Iterator::filter",
       "Iterator::filter_map", "Iterator::peekable", "Iterator::zip", "Iterator::chain", "Iterator::skip_while",
       "Iterator::take_while", "Iterator::step_by", "Iterator::cloned", "Iterator::copied", "Iterator::flat_map",
       "Iterator::scan", "Iterator::inspect", "Iterator::cycle", "Iterator::fuse", "Iterator::flatten", "Iterator::map_while")
def m_adapt(E, fr, blk, st, fn, args, atys, dty):
    n = norm(fn["path"]).split("::")[1]
    it = args[0]
    if isinstance(it, Ref):
        pass
    if n == "enumerate":
        return [(st, Agg("m:enum", None, (it, Lin(0))))]
    if n == "skip" and isinstance(it, Agg) and it.path in ("m:slice", "m:own") and isinstance(args[1], Lin):
        r, pos, end = it.fields
        np = pos + args[1]
        return [(s, Agg(it.path, None, (r, p, end))) for s, p in choose(E, st, ("ge", end - np), np, end)]
    if n == "take" and isinstance(it, Agg) and it.path in ("m:slice", "m:own") and isinstance(args[1], Lin):
        r, pos, end = it.fields
        ne = pos + args[1]
        return [(s, Agg(it.path, None, (r, pos, p))) for s, p in choose(E, st, ("ge", end - ne), ne, end)]
    return [(st, Agg("m:" + n, None, tuple(args)))]


@model("iter::repeat", "iter::once", "iter::empty", "iter::successors", "iter::from_fn", "iter::repeat_n", "iter::zip")
def m_src(E, fr, blk, st, fn, args, atys, dty):
    n = norm(fn["path"]).split("::")[1]
    return [(st, Agg("m:src_" + n, None, tuple(args)))]


def item_ty(E, dty):
    return payload_ty(E, dty)


def nxt(E, fr, blk, st, it, ity, back=False, depth=0):
    """[(st, new iterator, item or None)]; ity: item type or None"""
    if isinstance(it, Ref):
        inner = E.read(st, it.root, it.path)
        out = []
        for s, ni, x in nxt(E, fr, blk, st, inner, ity, back, depth + 1):
            E.write(s, it.root, it.path, ni)
            out.append((s, it, x))
        return out
    if isinstance(it, Sym) or not isinstance(it, Agg) or depth > 8:
        s2 = st.copy()
        return [(st, it, E.fresh_val(ity, "item")), (s2, it, None)]
    p, f = it.path, it.fields
    if p == "core::ops::range::Range" or p == "core::ops::range::RangeInclusive":
        a, b = f[0], f[1]
        incl = p.endswith("Inclusive")
        if isinstance(a, Lin) and isinstance(b, Lin):
            e = b + 1 if incl else b
            out = []
            for s in E.assume(st.copy(), E.cmp("Lt", a, e), True):
                if back:
                    out.append((s, Agg(p, None, (a, b - 1) + tuple(f[2:]), it.base, it.ty), e - 1))
                else:
                    out.append((s, Agg(p, None, (a + 1, b) + tuple(f[2:]), it.base, it.ty), a))
            for s in E.assume(st, E.cmp("Lt", a, e), False):
                out.append((s, it, None))
            return out
    if p == "core::ops::range::RangeFrom" and isinstance(f[0], Lin):
        return [(st, Agg(p, None, (f[0] + 1,), it.base, it.ty), f[0])]
    if p in ("m:slice", "m:own"):
        r, pos, end = f
        r = E.toref(r)
        if r is None or not isinstance(pos, Lin) or not isinstance(end, Lin):
            s2 = st.copy()
            return [(st, it, E.fresh_val(ity, "item")), (s2, it, None)]
        out = []
        for s in E.assume(st.copy(), E.cmp("Lt", pos, end), True):
            i = end - 1 if back else pos
            ety = None
            if ity is not None:
                ety = E.strip_ref(ity) if p == "m:slice" and E.tyk(ity) == "ref" else (ity if p == "m:own" else None)
            if p == "m:slice":
                x = Ref(r.root, r.path + (("e", i, ety),), ety)
            else:
                x = E.coerce(E.read(s, r.root, r.path + (("e", i, ety),)), ety)
            for s2 in ([s] if E.on_item is None else E.on_item(E, s, r, i, x, back)):
                out.append((s2, Agg(p, None, (r, pos, end - 1) if back else (r, pos + 1, end)), x))
        for s in E.assume(st, E.cmp("Lt", pos, end), False):
            out.append((s, it, None))
        return out
    if p == "m:hm":
        ety = None
        if isinstance(f[0], Agg) and isinstance(f[0].fields[0], Ref):
            vv = E.read(st, f[0].fields[0].root, f[0].fields[0].path)
            ety = getattr(vv, "ety", None)
        out = []
        for s, ni, x in nxt(E, fr, blk, st, f[0], None, back, depth + 1):
            if isinstance(x, Ref) and x.ty is None:
                x = Ref(x.root, x.path[:-1] + (("e", x.path[-1][1], ety),), ety)
            out.append((s, Agg(p, None, (ni,)), None if x is None else Agg("(tuple)", None, (Sym(E.fresh("key"), None), x))))
        return out
    if p in ("m:chars", "m:char_indices", "m:bytes"):
        src, pos, end = f
        out = []
        for s in E.assume(st.copy(), E.cmp("Lt", pos, end), True):
            c = E.atom(("char_at", src.term, pos) if not back else E.fresh("ch"), None, 0, 0x10ffff)
            if p == "m:bytes":
                out.append((s, Agg(p, None, (src, pos + 1, end)), E.atom(E.fresh("byte"), None, 0, 255)))
                continue
            l = utf8len(E, s, c)
            if back:
                i = end - l
                if not E.add_ge(s, i - pos):
                    continue
                ni = Agg(p, None, (src, pos, i))
            else:
                i = pos
                if not E.add_ge(s, end - pos - l):
                    continue
                ni = Agg(p, None, (src, pos + l, end))
            x = c if p == "m:chars" else Agg("tuple", None, (i, c))
            if E.on_char is not None:
                for s2 in E.on_char(E, s, src, pos, l, c, back):
                    out.append((s2, ni, x))
            else:
                out.append((s, ni, x))
        for s in E.assume(st, E.cmp("Lt", pos, end), False):
            out.append((s, it, None))
        return out
    if p == "m:enum":
        ity2 = None
        if ity is not None and E.tyk(ity) == "tuple" and len(E.P.types[ity]["args"]) == 2:
            ity2 = E.P.types[ity]["args"][1]
        out = []
        if back:
            n = remaining(E, st, f[0])
            for s, ni, x in nxt(E, fr, blk, st, f[0], ity2, True, depth + 1):
                if x is None:
                    out.append((s, Agg(p, None, (ni, f[1])), None))
                else:
                    k = f[1] + (n - 1) if n is not None else E.nat(E.fresh("idx"))
                    out.append((s, Agg(p, None, (ni, f[1])), Agg("tuple", None, (k, x))))
            return out
        for s, ni, x in nxt(E, fr, blk, st, f[0], ity2, False, depth + 1):
            if x is None:
                out.append((s, Agg(p, None, (ni, f[1])), None))
            else:
                out.append((s, Agg(p, None, (ni, f[1] + 1)), Agg("tuple", None, (f[1], x))))
        return out
    if p == "m:rev":
        return [(s, Agg(p, None, (ni,)), x) for s, ni, x in nxt(E, fr, blk, st, f[0], ity, not back, depth + 1)]
    if p == "m:take" and isinstance(f[1], Lin) and not back:
        out = []
        for s in E.assume(st.copy(), E.cmp("Ge", f[1], Lin(1)), True):
            for s2, ni, x in nxt(E, fr, blk, s, f[0], ity, False, depth + 1):
                out.append((s2, Agg(p, None, (ni, f[1] - 1)), x))
        for s in E.assume(st, E.cmp("Ge", f[1], Lin(1)), False):
            out.append((s, it, None))
        return out
    if E.adaptors and p == "m:skip" and isinstance(f[1], Lin) and not back:
        out = []
        for s, ni, x in nth_item(E, fr, blk, st, f[0], f[1], ity, depth):
            out.append((s, Agg(p, None, (ni, Lin(0))), x))
        return out
    if p == "m:skip" and isinstance(f[1], Lin) and not back:
        # the first call skips: forget the position of opaque iterators
        inner = f[0]
        if isinstance(inner, Agg) and inner.path in ("m:chars", "m:char_indices"):
            src, pos, end = inner.fields
            np = E.nat(E.fresh("skip"))
            if not E.add_ge(st, np - pos) or not E.add_ge(st, end - np):
                return []
            inner = Agg(inner.path, None, (src, np, end))
        return [(s, ni, x) for s, ni, x in nxt(E, fr, blk, st, inner, ity, False, depth + 1)]
    if p == "m:map":
        out = []
        for s, ni, x in nxt(E, fr, blk, st, f[0], None, back, depth + 1):
            if x is None:
                out.append((s, Agg(p, None, (ni, f[1])), None))
            else:
                for s2, y in E.call_closure(fr, blk, s, f[1], [x]):
                    out.append((s2, Agg(p, None, (ni, f[1])), E.coerce(y, ity)))
        return out
    if p in ("m:cloned", "m:copied"):
        return [(s, Agg(p, None, (ni,)), None if x is None else E.deref(s, x))
                for s, ni, x in nxt(E, fr, blk, st, f[0], None, back, depth + 1)]
    if E.adaptors and p in ("m:filter", "m:filter_map", "m:skip_while"):
        return sifted(E, fr, blk, st, it, ity, back, depth)
    if p in ("m:filter", "m:skip_while", "m:take_while"):
        out = []
        for s, ni, x in nxt(E, fr, blk, st, havoc_iter(E, st, f[0]) if p != "m:take_while" else f[0], ity, back, depth + 1):
            if x is None:
                out.append((s, Agg(p, None, (ni, f[1])), None))
            else:
                for s2, y in E.call_closure(fr, blk, s, f[1], [tmpref(E, s, x)]):
                    fm = E.asf(y)
                    if p == "m:skip_while":
                        out.append((s2, ni, x))
                        continue
                    for s3 in E.assume(s2.copy(), fm, True):
                        out.append((s3, Agg(p, None, (ni, f[1])), x))
                    if p == "m:take_while":
                        for s3 in E.assume(s2, fm, False):
                            out.append((s3, Agg(p, None, (ni, f[1])), None))
        return out
    if p in ("m:filter_map", "m:map_while", "m:flat_map"):
        out = []
        h = havoc_iter(E, st, f[0])
        for s, ni, x in nxt(E, fr, blk, st, h, None, back, depth + 1):
            if x is None:
                out.append((s, Agg(p, None, (ni, f[1])), None))
            else:
                for s2, y in E.call_closure(fr, blk, s, f[1], [x]):
                    if p == "m:flat_map":
                        out.append((s2, it, E.fresh_val(ity)))
                        continue
                    for s3, vi in both(E, s2, y, OPT):
                        if vi == 1:
                            out.append((s3, Agg(p, None, (ni, f[1])), pfield(E, s3, y, 1, ity)))
                        elif p == "m:map_while":
                            out.append((s3, Agg(p, None, (ni, f[1])), None))
        return out
    if p == "m:peekable" or p == "m:fuse":
        return [(s, Agg(p, None, (ni,)), x) for s, ni, x in nxt(E, fr, blk, st, f[0], ity, back, depth + 1)]
    if p == "m:zip":
        out = []
        for s, ni, x in nxt(E, fr, blk, st, f[0], None, back, depth + 1):
            if x is None:
                out.append((s, Agg(p, None, (ni, f[1])), None))
                continue
            g = f[1]
            if isinstance(g, (VecV,)):
                root = ("C", E.fresh("zip"))
                s.mem[root] = g
                g = Agg("m:own", None, (Ref(root, ()), Lin(0), g.len))
            elif isinstance(g, Ref):
                r, v = vec_at(E, s, g)
                if v is not None:
                    g = Agg("m:slice", None, (Ref(r.root, r.path), Lin(0), v.len))
            for s2, nj, y in nxt(E, fr, blk, s, g, None, back, depth + 1):
                if y is None:
                    out.append((s2, Agg(p, None, (ni, nj)), None))
                else:
                    out.append((s2, Agg(p, None, (ni, nj)), Agg("tuple", None, (x, y))))
        return out
    if p.startswith("m:src_repeat"):
        return [(st, it, f[0])]
    s2 = st.copy()
    return [(st, it, E.fresh_val(ity, "item")), (s2, it, None)]


def sifted(E, fr, blk, st, it, ity, back, depth):
    """the next item of a filter, as a loop on the items of its source"""
    p, f = it.path, it.fields
    if p == "m:skip_while" and isinstance(f[1], Agg) and f[1].path == "m:done":
        return [(s, Agg(p, None, (ni, f[1])), x) for s, ni, x in nxt(E, fr, blk, st, f[0], ity, back, depth + 1)]
    first = set()

    def step(s, i, a):
        out = []
        for s2, ni, x in nxt(E, fr, blk, s, i, ity if p != "m:filter_map" else None, back, depth + 1):
            if x is None:
                out.append((s2, None, Agg("m:end", None, (ni,))))
            elif p == "m:filter_map":
                for s3, y in E.call_closure(fr, blk, s2, f[1], [x]):
                    for s4, vi in both(E, s3, y, OPT):
                        out.append((s4, None, Agg("m:hit", None, (ni, pfield(E, s4, y, 1, ity)))) if vi == 1 else (s4, ni, None))
            else:
                for s3, y in E.call_closure(fr, blk, s2, f[1], [tmpref(E, s2, x)]):
                    fm = E.asf(y) if p == "m:filter" else fnot(E.asf(y))
                    out += [(s4, None, Agg("m:hit", None, (ni, x))) for s4 in E.assume(s3.copy(), fm, True)]
                    out += [(s4, ni, None) for s4 in E.assume(s3, fm, False)]
        return out
    done = Agg("m:done", None, ())
    out = []
    for s, a in E.synth(fr, blk, st, f[0], None, step):
        if a.path == "m:end":
            out.append((s, Agg(p, None, (a.fields[0], f[1])), None))
        else:
            out.append((s, Agg(p, None, (a.fields[0], f[1] if p != "m:skip_while" else done)), a.fields[1]))
    return out


def nth_item(E, fr, blk, st, it, n, ity, depth=0):
    """[(state, iterator, item or None)]: n items are skipped, then comes the item"""
    if n == Lin(0):
        return nxt(E, fr, blk, st, it, ity, False, depth + 1)

    def step(s, i, k):
        out = []
        for v in (True, False):
            for s1 in E.assume(s.copy(), E.cmp("Eq", k, n), v):
                for s2, ni, x in nxt(E, fr, blk, s1, i, ity, False, depth + 1):
                    if x is None:
                        out.append((s2, None, Agg("m:end", None, (ni,))))
                    elif v:
                        out.append((s2, None, Agg("m:hit", None, (ni, x))))
                    else:
                        out.append((s2, ni, k + 1))
        return out
    return [(s, a.fields[0], None if a.path == "m:end" else a.fields[1]) for s, a in E.synth(fr, blk, st, it, Lin(0), step, (n,))]


def reduced(E, fr, blk, st, n, it, args, dty):
    """count, sum or fold, as a loop"""
    def add(s, a, x):
        if n == "count":
            return [(s, a + 1)]
        if n == "fold":
            return E.call_closure(fr, blk, s, args[2], [a, x])
        x = E.deref(s, x) if isinstance(x, Ref) else x
        return [(s, a + x if isinstance(a, Lin) and isinstance(x, Lin) else E.fresh_val(dty, "sum"))]

    def step(s, i, a):
        out = []
        for s2, ni, x in nxt(E, fr, blk, s, i, None):
            if x is None:
                out.append((s2, None, a))
            else:
                out += [(s3, ni, b) for s3, b in add(s2, a, x)]
        return out
    return E.synth(fr, blk, st, it, args[1] if n == "fold" else Lin(0), step)


def searched(E, fr, blk, st, n, it, cl, dty):
    """[(state, iterator, result)] of find, position, any..., as a loop"""
    total = remaining(E, st, it)

    def step(s, i, k):
        out = []
        for s2, ni, x in nxt(E, fr, blk, s, i, None, n == "rposition"):
            if x is None:
                v = BoolV(TRUE if n == "all" else FALSE) if n in ("any", "all") else NONE
                out.append((s2, None, Agg("m:hit", None, (ni, v))))
                continue
            for s3, y in E.call_closure(fr, blk, s2, cl, [tmpref(E, s2, x) if n == "find" else x]):
                if n == "find_map":
                    for s4, vi in both(E, s3, y, OPT):
                        out.append((s4, None, Agg("m:hit", None, (ni, y))) if vi == 1 else (s4, ni, k + 1))
                    continue
                fm = E.asf(y)
                if n == "all":
                    fm = fnot(fm)
                v = some(x) if n == "find" else some(k) if n == "position" else BoolV(TRUE if n == "any" else FALSE)
                if n == "rposition":
                    v = some(total - 1 - k)
                out += [(s4, None, Agg("m:hit", None, (ni, v))) for s4 in E.assume(s3.copy(), fm, True)]
                out += [(s4, ni, k + 1) for s4 in E.assume(s3, fm, False)]
        return out
    return [(s, a.fields[0], a.fields[1]) for s, a in E.synth(fr, blk, st, it, Lin(0), step, (total,))]


def havoc_iter(E, st, it):
    """iterator advanced an unknown number of steps"""
    if isinstance(it, Agg) and it.path in ("m:slice", "m:own", "m:chars", "m:char_indices"):
        r, pos, end = it.fields
        np = E.nat(E.fresh("adv"))
        E.add_ge(st, np - pos, False)
        E.add_ge(st, end - np, False)
        return Agg(it.path, None, (r, np, end))
    if isinstance(it, Agg) and it.path == "core::ops::range::Range" and all(isinstance(x, Lin) for x in it.fields):
        np = E.nat(E.fresh("adv"))
        if E.entails(st, it.fields[1] - it.fields[0]):
            E.add_ge(st, np - it.fields[0], False)
            E.add_ge(st, it.fields[1] - np, False)
            return Agg(it.path, None, (np, it.fields[1]), it.base, it.ty)
        return it
    if isinstance(it, Agg) and it.path == "m:enum":
        inner = it.fields[0]
        h = havoc_iter(E, st, inner)
        if isinstance(h, Agg) and h.path in ("m:slice", "m:own"):
            return Agg("m:enum", None, (h, it.fields[1] + (h.fields[1] - inner.fields[1])))
        c = E.nat(E.fresh("cnt"))
        E.add_ge(st, c - it.fields[1], False)
        return Agg("m:enum", None, (h, c))
    if isinstance(it, Agg) and it.path.startswith("m:") and it.fields:
        return Agg(it.path, None, (havoc_iter(E, st, it.fields[0]),) + it.fields[1:])
    return it


def remaining(E, st, it):
    """number of items left, when known"""
    if isinstance(it, Ref):
        return None
    if isinstance(it, Agg):
        if it.path in ("m:slice", "m:own") and all(isinstance(x, Lin) for x in it.fields[1:]):
            if E.entails(st, it.fields[2] - it.fields[1]):
                return it.fields[2] - it.fields[1]
            return None
        if it.path == "core::ops::range::Range" and all(isinstance(x, Lin) for x in it.fields):
            if E.entails(st, it.fields[1] - it.fields[0]):
                return it.fields[1] - it.fields[0]
            return None
        if it.path in ("m:map", "m:enum", "m:rev", "m:cloned", "m:copied", "m:peekable"):
            return remaining(E, st, it.fields[0])
    return None


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(E, fr, blk, st, fn, args, atys, dty):
    r = E.toref(args[0])
    if r is None:
        return None
    it = E.read(st, r.root, r.path, None)
    ity = item_ty(E, dty)
    out = []
    if isinstance(it, Sym) and it.ty is not None and E.tyk(it.ty) == "adt" and \
            E.P.types[it.ty]["path"] == "core::ops::range::Range":
        ety = E.P.types[it.ty]["args"][0]
        it = Agg("core::ops::range::Range", None, (E.mk(E.fterm(it.term, None, 0, "start"), ety),
                                                  E.mk(E.fterm(it.term, None, 1, "end"), ety)), None, it.ty)
    for s, ni, x in nxt(E, fr, blk, st, it, ity, norm(fn["path"]).endswith("next_back")):
        if not isinstance(ni, Ref):
            E.write(s, r.root, r.path, ni)
        out.append((s, NONE if x is None else some(x)))
    return out


def all_of_chars(E, it):
    """an iterator on all the chars of a text, not advanced yet"""
    return isinstance(it, Agg) and it.path in ("m:chars", "m:char_indices") and it.fields[1] == Lin(0) and \
        it.fields[2] == E.nat(("len", it.fields[0].term))


def nth_char(E, fr, blk, st, r, it, n):
    """the chars before the n-th one are consumed, then it is"""
    total = E.nat(("nchars", it.fields[0].term))

    def step(s, i, k):
        out = []
        for v in (True, False):
            for s1 in E.assume(s.copy(), E.cmp("Eq", k, n), v):
                if v and E.entails(s1, n - k):
                    out.append((s1, None, Agg("m:at", None, (i, k))))
                    continue
                for s2, i2, x in nxt(E, fr, blk, s1, i, None):
                    if x is not None:
                        out.append((s2, i2, k + 1))
                    elif E.add_eq(s2, k - total):
                        out.append((s2, None, Agg("m:end", None, (i2,))))
        return out
    out = []
    for s, a in E.synth(fr, blk, st, it, Lin(0), step, (n,)):
        if a.path == "m:end":
            E.write(s, r.root, r.path, a.fields[0])
            out.append((s, NONE))
            continue
        for s2, i2, x in nxt(E, fr, blk, s, a.fields[0], None):
            if x is None and not E.add_eq(s2, a.fields[1] - total):
                continue
            E.write(s2, r.root, r.path, i2)
            out.append((s2, NONE if x is None else some(x)))
    return out


def count_chars(E, fr, blk, st, it):
    total = E.nat(("nchars", it.fields[0].term))

    def step(s, i, k):
        return [(s2, None if x is None else i2, k if x is None else k + 1) for s2, i2, x in nxt(E, fr, blk, s, i, None)]
    return [(s, k) for s, k in E.synth(fr, blk, st, it, Lin(0), step) if E.add_eq(s, k - total)]


@model("Peekable::peek", "Iterator::nth")
def m_peek(E, fr, blk, st, fn, args, atys, dty):
    if norm(fn["path"]) == "Iterator::nth":
        r = E.toref(args[0])
        it = E.read(st, r.root, r.path, None)
        if E.on_char is not None and all_of_chars(E, it) and isinstance(args[1], Lin):
            return nth_char(E, fr, blk, st, r, it, args[1])
        if E.adaptors and isinstance(it, Agg) and isinstance(args[1], Lin):
            out = []
            for s, ni, x in nth_item(E, fr, blk, st, it, args[1], item_ty(E, dty)):
                E.write(s, r.root, r.path, ni)
                out.append((s, NONE if x is None else some(x)))
            return out
        h = havoc_iter(E, st, it)
        E.write(st, r.root, r.path, h)
        if isinstance(it, Agg) and it.path == "m:char_indices" and it.fields[1] == Lin(0) and isinstance(args[1], Lin):
            # the index of the n-th char
            src, _, end = it.fields
            i = E.nat(("cidx", src.term, args[1]))
            s = st.copy()
            out = [(st, NONE)]
            if E.add_ge(s, end - i - 1):
                c = E.atom(("char_at", src.term, i), None, 0, 0x10ffff)
                out.append((s, some(Agg("tuple", None, (i, c)))))
            return out
        return [(st, E.fresh_val(dty, "nth"))]
    r = E.toref(args[0])
    it = E.read(st, r.root, r.path, None)
    out = []
    ity = payload_ty(E, dty)
    ity = E.strip_ref(ity) if ity is not None and E.tyk(ity) == "ref" else None
    inner = it.fields[0] if isinstance(it, Agg) and it.path == "m:peekable" else it
    for s, ni, x in nxt(E, fr, blk, st, inner, ity):
        out.append((s, NONE if x is None else some(tmpref(E, s, x))))
    return out


def consume_once(E, fr, blk, st, it, extra=None):
    """an adaptor consumes the iterator: analyse one arbitrary step for its obligations, in a
    copy of the state, and forget what its closures can mutate"""
    havoc_closures(E, st, it)
    s = st.copy()
    h = havoc_iter(E, s, it) if isinstance(it, Agg) else it
    try:
        for s2, ni, x in nxt(E, fr, blk, s, h, None):
            if x is not None and extra is not None:
                extra(s2, x)
    except RecursionError:
        raise


def havoc_closures(E, st, v, depth=0):
    if isinstance(v, Agg) and depth < 6:
        if v.path.startswith("closure:"):
            tys = closure_upvars(E, v.path[8:])
            for i, f in enumerate(v.fields):
                ty = tys[i] if tys and i < len(tys) else None
                if isinstance(f, Ref):
                    if ty is None or (E.tyk(ty) == "ref" and E.P.types[ty]["mut"]):
                        E.havoc_loc(st, f.root, f.path, E.strip_ref(ty) if ty is not None else None)
                elif isinstance(f, Agg):
                    havoc_closures(E, st, f, depth + 1)
        elif v.path.startswith("m:"):
            for f in v.fields:
                havoc_closures(E, st, f, depth + 1)


def closure_upvars(E, path):
    if not hasattr(E, "_upv"):
        E._upv = {t["path"]: t["args"] for t in E.P.types if t["k"] == "closure"}
    return E._upv.get(path)


def run_closure_unknown(E, fr, blk, st, cv, nargs):
    havoc_closures(E, st, cv)
    s = st.copy()
    E.call_closure(fr, blk, s, cv, [None] * nargs)


def iter_term(E, st, it):
    if isinstance(it, Ref):
        return iter_term(E, st, E.read(st, it.root, it.path))
    if isinstance(it, Agg):
        if it.path in ("m:slice", "m:own"):
            r = it.fields[0]
            return (it.path, E.content(st, r), it.fields[1], it.fields[2])
        return (it.path,) + tuple(iter_term(E, st, f) for f in it.fields)
    if isinstance(it, Lin):
        return it
    return E.termof(it)


def steps_all(E, fr, blk, st, it, ity, acc, f, stop=None):
    """every step of an iterator of a known small length, in order; f(state, acc, item) -> [(state, acc)]; None when the
    length isn't known"""
    if isinstance(it, Ref) or not E.unroll:
        return None
    k = remaining(E, st, it)
    if k is None or not k.is_const() or k.c > E.unroll:
        return None
    cur, done = [(st.copy(), it, acc)], []
    for _ in range(k.c + 1):
        nxts = []
        for s, i, a in cur:
            for s2, i2, x in nxt(E, fr, blk, s, i, ity):
                if x is None:
                    done.append((s2, a))
                    continue
                for s3, a2 in f(s2, a, x):
                    if stop is not None and stop(s3, a2):
                        done.append((s3, a2))
                    else:
                        nxts.append((s3, i2, a2))
        cur = nxts
    return None if cur else done


def exact_reduce(E, fr, blk, st, n, it, args, dty):
    if n == "fold":
        return steps_all(E, fr, blk, st, it, None, args[1], lambda s, a, x: E.call_closure(fr, blk, s, args[2], [a, x]))
    if n == "sum" and E.is_int(dty):
        def add(s, a, x):
            if isinstance(x, Ref):
                x = E.read(s, x.root, x.path, dty)
            if isinstance(x, Sym):
                r = E.toref(x)
                x = E.read(s, r.root, r.path, dty) if r is not None and x.ty is not None and E.tyk(x.ty) == "ref" else E.mk(x.term, dty)
            return [(s, a + x)] if isinstance(a, Lin) and isinstance(x, Lin) else [(s, E.fresh_val(dty, "sum"))]
        return steps_all(E, fr, blk, st, it, None, Lin(0), add)
    if n in ("all", "any"):
        want = n == "any"

        def f(s, a, x):
            out = []
            for s2, y in E.call_closure(fr, blk, s, args[-1], [x]):
                for v in (True, False):
                    for s3 in E.assume(s2.copy(), E.asf(y), v):
                        out.append((s3, v))
            return out
        r = steps_all(E, fr, blk, st, it, None, not want, f, lambda s, a: a == want)
        return r if r is None else [(s, BoolV(TRUE if a else FALSE)) for s, a in r]
    if n == "for_each":
        r = steps_all(E, fr, blk, st, it, None, None,
                      lambda s, a, x: [(s2, None) for s2, y in E.call_closure(fr, blk, s, args[-1], [x])])
        return r if r is None else [(s, UNIT) for s, a in r]
    if n in ("try_for_each", "try_fold"):
        # the accumulator is what the closure gave last
        r = steps_all(E, fr, blk, st, it, None, ok(args[1] if n == "try_fold" else UNIT), trier(E, fr, blk, n, args), failed)
        return r
    return None


def trier(E, fr, blk, n, args):
    def f(s, a, x):
        out = []
        for s2, y in E.call_closure(fr, blk, s, args[-1], [a.fields[0], x] if n == "try_fold" else [x]):
            for s3, vi in both(E, s2, y, RES):
                if isinstance(y, Agg):
                    out.append((s3, y))
                elif vi == 0 and n == "try_for_each":
                    out.append((s3, ok(UNIT)))
                else:
                    out.append((s3, Agg(RES, vi, (E.mk(("f", E.termof(y), vi, 0, "0"), None),))))
        return out
    return f


def failed(s, a):
    return a.vi == 1


def looped(E, fr, blk, st, n, it, args):
    """an adaptor calling a closure on each item, as a loop"""
    res = n in ("try_for_each", "try_fold")
    tr = trier(E, fr, blk, n, args) if res else None

    def step(s, i, a):
        out = []
        for s2, i2, x in nxt(E, fr, blk, s, i, None):
            if x is None:
                out.append((s2, None, a))
            elif not res:
                out += [(s3, i2, None) for s3, _ in E.call_closure(fr, blk, s2, args[-1], [x])]
            else:
                for s3, y in tr(s2, a, x):
                    out.append((s3, None if y.vi == 1 else i2, y))
        return out
    acc = None
    if res:
        acc = ok(args[1] if n == "try_fold" else UNIT)
    r = E.synth(fr, blk, st, it, acc, step)
    return [(s, a if res else UNIT) for s, a in r]


@model("Iterator::sum", "Iterator::count", "Iterator::fold", "Iterator::max", "Iterator::min", "Iterator::max_by_key",
       "Iterator::min_by_key", "Iterator::last", "Iterator::product")
def m_reduce(E, fr, blk, st, fn, args, atys, dty):
    n = norm(fn["path"]).split("::")[1]
    it = args[0]
    if n == "count":
        k = remaining(E, st, it)
        if k is not None:
            return [(st, k)]
        if E.on_char is not None and all_of_chars(E, it):
            return count_chars(E, fr, blk, st, it)
    r = exact_reduce(E, fr, blk, st, n, it, args, dty)
    if r is not None:
        return r
    if E.adaptors and isinstance(it, Agg) and (n == "count" or n == "fold" or n == "sum" and E.is_int(dty)):
        return reduced(E, fr, blk, st, n, it, args, dty)
    term = (n, iter_term(E, st, it)) + tuple(E.termof(a) for a in args[1:])

    def extra(s, x):
        if n == "fold":
            E.call_closure(fr, blk, s, args[2], [E.fresh_val(atys[1]), x])
        elif n.endswith("_by_key"):
            E.call_closure(fr, blk, s, args[1], [tmpref(E, s, x)])
    consume_once(E, fr, blk, st, it, extra)
    for a in args[1:]:
        havoc_closures(E, st, a)
    if n in ("max", "min", "last", "max_by_key", "min_by_key"):
        k = remaining(E, st, it)
        v = E.mk(term, dty)
        return [(st, v)]
    if dty is not None and E.is_int(dty):
        return [(st, E.mk(term, dty))]
    return [(st, E.mk(term, dty))]


def all_chars(E, it, found):
    """all / any over the chars of a whole text, of a predicate of the char alone"""
    if not (isinstance(it, Agg) and it.path == "m:chars" and it.fields[1] == Lin(0) and it.fields[2] == E.nat(("len", it.fields[0].term))):
        return None
    if len(found) != 1 or not isinstance(found[0][1], Lin):
        return None
    x, f = E.termof(found[0][1]), E.asf(found[0][2])
    neg = False
    while f[0] == "not":
        neg, f = not neg, f[1]
    if f[0] != "s" or not isinstance(f[1], tuple) or len(f[1]) != 2 or f[1][1] != x:
        return None
    pred = f[1][0].split("::")[-1]
    return lambda n: ("s", ("allchars", it.fields[0].term, pred, neg)) if n == "all" else \
        fnot(("s", ("allchars", it.fields[0].term, pred, not neg)))


@model("Iterator::any", "Iterator::all", "Iterator::position", "Iterator::find", "Iterator::find_map", "Iterator::for_each",
       "Iterator::try_for_each", "Iterator::rposition", "Iterator::try_fold")
def m_search(E, fr, blk, st, fn, args, atys, dty):
    n = norm(fn["path"]).split("::")[1]
    it = args[0]
    itv = it
    if isinstance(it, Ref):
        itv = E.read(st, it.root, it.path)
    cl = args[-1]
    r = exact_reduce(E, fr, blk, st, n, itv, args, dty) if n != "try_fold" or E.P.types[dty].get("path") == RES else None
    if r is None and n in ("for_each", "try_for_each", "try_fold") and isinstance(itv, Agg) and (n == "for_each" or E.P.types[dty].get("path") == RES):
        r = looped(E, fr, blk, st, n, itv, args)
    if r is not None:
        if isinstance(it, Ref):
            for s, _ in r:
                E.write(s, it.root, it.path, havoc_iter(E, s, itv))
        return r
    if E.adaptors and isinstance(itv, Agg) and n in ("find", "find_map", "any", "all", "position", "rposition") and \
            (n != "rposition" or remaining(E, st, itv) is not None):
        out = []
        for s, ni, v in searched(E, fr, blk, st, n, itv, cl, dty):
            if isinstance(it, Ref):
                E.write(s, it.root, it.path, ni)
            out.append((s, v))
        return out
    found = []

    def extra(s, x):
        if n == "try_fold":
            r = E.call_closure(fr, blk, s, cl, [E.fresh_val(atys[1]), x])
        else:
            a = tmpref(E, s, x) if n == "find" else x
            r = E.call_closure(fr, blk, s, cl, [a])
        for s2, y in r:
            found.append((s2, x, y))
    havoc_closures(E, st, cl)
    consume_once(E, fr, blk, st, itv, extra)
    out = []
    if n == "position":
        k = remaining(E, st, itv)
        i = E.nat(E.fresh("pos"))
        s = st.copy()
        if k is not None:
            if E.add_ge(s, k - i - 1):
                out.append((s, some(i)))
        else:
            out.append((s, some(i)))
        out.append((st, NONE))
    elif n == "find":
        for s2, x, y in found:
            for s3 in E.assume(s2, E.asf(y), True):
                out.append((s3, some(x)))
        out.append((st, NONE))
    elif n == "find_map":
        for s2, x, y in found:
            for s3, vi in both(E, s2, y, OPT):
                if vi == 1:
                    out.append((s3, y))
        out.append((st, NONE))
    elif n == "for_each":
        out.append((st, UNIT))
    elif n == "try_for_each":
        out.append((st, ok(UNIT)))
        for s2, x, y in found:
            for s3, vi in both(E, s2, y, RES):
                if vi == 1:
                    out.append((s3, y))
    else:
        f = all_chars(E, itv, found) if n in ("all", "any") else None
        if f is not None:
            out.append((st, BoolV(f(n))))
        else:
            t = (n, iter_term(E, st, itv), E.termof(cl))
            out.append((st, E.mk(t, dty)))
    if isinstance(it, Ref):
        for s, _ in out:
            E.write(s, it.root, it.path, havoc_iter(E, s, itv))
    return out


@model("Iterator::collect", "FromIterator::from_iter", "Iterator::partition", "Iterator::unzip")
def m_collect(E, fr, blk, st, fn, args, atys, dty):
    it = args[0]
    k = remaining(E, st, it)
    t = ("collect", iter_term(E, st, it))
    if dty is not None and E.P.types[dty].get("path") == "alloc::string::String" and isinstance(it, Agg) and \
            it.path == "m:take" and isinstance(it.fields[1], Lin) and isinstance(it.fields[0], Agg) and it.fields[0].path in ("m:src_repeat", "m:src_repeat_n"):
        x, k = it.fields[0].fields[0], it.fields[1]
        u = ("ch", E.termof(x)) if isinstance(x, Lin) else E.content(st, x)
        l = k if isinstance(x, Lin) and x.is_const() and x.c < 128 else E.nat(("len", ("rep", u, k)))
        return [(st, VecV(unruns([(u, k)]) if u[0] == "ch" else ("rep", u, k), l))]
    consume_once(E, fr, blk, st, it)
    if dty is not None and E.vecish(dty):
        if E.tyk(dty) == "adt" and E.P.types[dty]["path"] == "alloc::vec::Vec":
            return [(st, VecV(t, k if k is not None else E.nat(("len", t)), (), E.elem_ty(dty)))]
        return [(st, VecV(t, E.nat(("len", t))))]
    return [(st, E.mk(t, dty))]


# ------------------------------------------------------------------ formatting and output
@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex")
def m_fmtarg(E, fr, blk, st, fn, args, atys, dty):
    return [(st, Agg("m:fmtarg", None, (args[0], Sym(("kind", norm(fn["path"])), None)), None, atys[0]))]


@model("Arguments::new", "Arguments::from_str", "Arguments::new_const", "Arguments::new_v1")
def m_args(E, fr, blk, st, fn, args, atys, dty):
    return [(st, Agg("m:fmt", None, tuple(args)))]


@model("fmt::format", "alloc::format")
def m_format(E, fr, blk, st, fn, args, atys, dty):
    t = ("format", fmt_parts(E, st, args[0]) or E.fresh("fmt"))
    return [(st, VecV(t, E.nat(("len", t))))]


def fmt_parts(E, st, a):
    """tuple of ('lit', s) / ('arg', content term) of a fmt::Arguments value, or None"""
    if isinstance(a, Ref):
        a = E.read(st, a.root, a.path)
    if not (isinstance(a, Agg) and a.path == "m:fmt"):
        return None
    if len(a.fields) == 1:
        t = E.content(st, a.fields[0])
        return (("lit", t[1]),) if t[0] == "str" else None
    tpl = E.peel(st, a.fields[0])
    tt = E.termof(a.fields[0]) if not isinstance(a.fields[0], Sym) else a.fields[0].term
    if isinstance(tt, tuple) and tt and tt[0] == "bytes":
        data = tt[1]
    else:
        return None
    args = E.peel(st, a.fields[1])
    av = []
    if isinstance(args, VecV):
        n = args.len.c if args.len.is_const() else 0
        av = [E.elem(st, args, Lin(i), None) for i in range(n)]
    out, i, k = [], 0, 0
    while i < len(data):
        b = data[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(("lit", bytes(data[i:i + b]).decode("utf8", "replace")))
            i += b
        elif b == 0x80:
            ln = data[i] | data[i + 1] << 8
            i += 2
            out.append(("lit", bytes(data[i:i + ln]).decode("utf8", "replace")))
            i += ln
        else:
            opts = []
            if b & 1:
                opts.append(("flags", tuple(data[i:i + 4])))
                i += 4
            if b & 2:
                opts.append(("width", tuple(data[i:i + 2])))
                i += 2
            if b & 4:
                opts.append(("prec", tuple(data[i:i + 2])))
                i += 2
            if b & 8:
                k = data[i] | data[i + 1] << 8
                i += 2
            x = av[k] if k < len(av) else None
            k += 1
            if isinstance(x, Agg) and x.path == "m:fmtarg":
                out.append(("arg", E.content(st, x.fields[0]), tuple(opts), x.fields[1].term[1].split("_")[-1], k - 1))
            else:
                out.append(("arg", E.termof(x) if x is not None else None, tuple(opts), "?", k - 1))
    return tuple(out)


def fmt_args(E, st, a):
    """[(value, type)] of the arguments of a fmt::Arguments value"""
    if isinstance(a, Ref):
        a = E.read(st, a.root, a.path)
    out = []
    if isinstance(a, Agg) and a.path == "m:fmt" and len(a.fields) > 1:
        args = E.peel(st, a.fields[1])
        if isinstance(args, VecV) and args.len.is_const():
            for i in range(args.len.c):
                x = E.elem(st, args, Lin(i), None)
                if isinstance(x, Agg) and x.path == "m:fmtarg":
                    out.append((x.fields[0], x.ty))
                else:
                    out.append((x, None))
    return out


@model("Write::write_fmt", "Formatter::write_fmt", "Write::write_str", "Formatter::write_str", "Write::write_char",
       "Formatter::pad", "Write::write_all", "Write::flush", "Formatter::write_char", "Write::write",
       "QueueableCommand::queue", "ExecutableCommand::execute", "stdio::_print", "stdio::_eprint", "io::_print", "io::_eprint")
def m_write(E, fr, blk, st, fn, args, atys, dty):
    n = norm(fn["path"])
    if n in ("io::_print", "io::_eprint", "stdio::_print", "stdio::_eprint"):
        if E.on_event:
            E.on_event(E, fr, blk, st, "print", (n, args))
        return [(st, UNIT)]
    t = E.fresh("res")
    okv = args[0] if n in ("QueueableCommand::queue", "ExecutableCommand::execute") else UNIT
    if n == "Write::write":
        okv = E.nat(E.fresh("n"))
    s1, s2 = st, st.copy()
    out = []
    if E.on_event:
        E.on_event(E, fr, blk, s1, "write", (n, args, atys))
    out.append((s1, ok(okv)))
    if E.__dict__.get("write_errors", True):
        if E.on_event:
            E.on_event(E, fr, blk, s2, "write_err", (n, args, atys))
        out.append((s2, err(Sym(("ioerr", t), None))))
    return out


@model("panicking::panic", "panicking::panic_fmt", "panicking::unreachable_display", "panicking::panic_display",
       "panicking::assert_failed", "panicking::panic_explicit", "rt::begin_panic")
def m_panic(E, fr, blk, st, fn, args, atys, dty):
    E.obligation(fr, blk, "panic", False, "reachable panic")
    return []


@model("f64::floor", "f64::ceil", "f64::round", "f32::round", "f32::fract", "f32::floor", "f32::ceil", "f64::fract",
       "f64::trunc", "f32::trunc", "f64::min", "f64::max", "f32::min", "f32::max", "Mul::mul", "Div::div",
       "Captures::get", "Match::as_str", "Regex::captures",
       "HashMap::get", "str::parse", "num::from_str_radix", "Composite::from_inline")
def m_pure(E, fr, blk, st, fn, args, atys, dty):
    t = (norm(fn["path"]),) + tuple(E.content(st, a) for a in args)
    return [(st, E.mk(t, dty))]


def compound_fields(E, ty):
    t = E.P.types[ty]
    if t["k"] == "ref":
        t = E.P.types[t["ty"]]
    a = E.P.adts.get(t.get("path"))
    if a is None or not t["path"].endswith("::Compound"):
        return None
    return t["path"], {x["name"]: ("f", i, None, x["ty"], x["name"]) for i, x in enumerate(a["variants"][0]["fields"])}


@model("Compound::raw_str", "Compound::as_str", "Compound::is_empty", "Compound::char_length", "Compound::set_str",
       "Compound::set_attributes_from", "Compound::sub", "Compound::tail", "Compound::cut_tail", "Compound::bold",
       "Compound::italic", "Compound::code", "Compound::strikeout", "Compound::set_bold", "Compound::set_italic",
       "Compound::set_code", "Compound::set_strikeout")
def m_compound(E, fr, blk, st, fn, args, atys, dty):
    """the simple methods of minimad's Compound, from their source"""
    n = norm(fn["path"]).split("::")[1]
    cf = compound_fields(E, dty if n == "raw_str" else atys[0])
    if cf is None:
        return None
    path, f = cf
    if n == "raw_str":
        return [(st, Agg(path, None, tuple(args[0] if k == "src" else BoolV(FALSE) for k in f)))]
    if n in ("bold", "italic", "code", "strikeout"):
        return [(st, Agg(path, None, tuple(BoolV(TRUE) if k == n else E.proj(st, args[0], f[k]) for k in f)))]
    r = E.toref(args[0])
    if r is None:
        return None

    def get(k):
        return E.read(st, r.root, r.path + (f[k],), f[k][3])
    if n == "set_str":
        E.write(st, r.root, r.path + (f["src"],), args[1])
        return [(st, UNIT)]
    if n.startswith("set_") and n[4:] in f:
        E.write(st, r.root, r.path + (f[n[4:]],), args[1])
        return [(st, UNIT)]
    if n == "set_attributes_from":
        o = E.toref(args[1])
        if o is None:
            return None
        for k in f:
            if k != "src":
                E.write(st, r.root, r.path + (f[k],), E.read(st, o.root, o.path + (f[k],), f[k][3]))
        return [(st, UNIT)]
    src = get("src")
    if n == "as_str":
        return [(st, src)]
    sr, v = vec_at(E, st, src, f["src"][3])
    if v is None or sr is None:
        return None
    if n == "is_empty":
        return [(st, BoolV(E.cmp("Eq", v.len, Lin(0))))]
    if n == "char_length":
        return [(st, E.nat(("chars", v.term)))]
    lo, hi = args[1], (args[2] if n == "sub" else v.len)
    if n == "cut_tail":
        lo = v.len - lo
    if not isinstance(lo, Lin) or not isinstance(hi, Lin) or not check_range(E, fr, blk, st, lo, hi, v.len, "slice"):
        return []
    if E.on_event:
        E.on_event(E, fr, blk, st, "str_slice", (v, lo, hi))

    def part(a, b):
        if a == Lin(0) and b == v.len:
            return sr
        x = E.subvec(st, v, a, b)
        root = ("S", x.term)
        st.mem[root] = x
        return Ref(root, (), E.strip_ref(f["src"][3]))
    res = Agg(path, None, tuple(part(lo, hi) if k == "src" else get(k) for k in f))
    if n == "cut_tail":
        E.write(st, r.root, r.path + (f["src"],), part(Lin(0), lo))
    return [(st, res)]


@model("Add::add", "Sub::sub")
def m_addsub(E, fr, blk, st, fn, args, atys, dty):
    if dty is not None and E.is_int(dty):
        v = []
        for a in args:
            for _ in range(3):
                if isinstance(a, Ref):
                    a = E.read(st, a.root, a.path, dty)
                elif isinstance(a, Sym) and a.ty is not None and E.tyk(a.ty) == "ref":
                    r = E.toref(a)
                    a = E.read(st, r.root, r.path, dty)
            v.append(a)
        if all(isinstance(x, Lin) for x in v):
            add = norm(fn["path"]).endswith("add")
            return [(st, v[0] + v[1] if add else v[0] - v[1])]
    return m_pure(E, fr, blk, st, fn, args, atys, dty)


@model("AddAssign::add_assign", "SubAssign::sub_assign")
def m_addassign(E, fr, blk, st, fn, args, atys, dty):
    r = E.toref(args[0])
    t = E.strip_ref(atys[0]) if atys and atys[0] is not None else None
    if r is None or t is None or not E.is_int(t):
        return None
    x = E.read(st, r.root, r.path, t)
    a = args[1]
    for _ in range(3):
        if isinstance(a, Ref):
            a = E.read(st, a.root, a.path, t)
    if not isinstance(x, Lin) or not isinstance(a, Lin):
        return None
    st = st.copy()
    E.write(st, r.root, r.path, x + a if norm(fn["path"]).endswith("add_assign") else x - a)
    return [(st, UNIT)]


@model("ContentStyle::apply")
def m_apply(E, fr, blk, st, fn, args, atys, dty):
    p = E.P.types[dty]["path"] if dty is not None and E.tyk(dty) == "adt" else "crossterm::style::StyledContent"
    return [(st, Agg(p, None, (args[0], args[1]), None, dty))]


@model("StyledContent::new")
def m_styled_new(E, fr, blk, st, fn, args, atys, dty):
    return m_apply(E, fr, blk, st, fn, args, atys, dty)


def attrset(t):
    """an attribute set as the union of a set of terms; single attributes are ("at", term)"""
    if isinstance(t, tuple) and t and t[0] == "attrs":
        return frozenset(t[1:])
    if isinstance(t, tuple) and t and t[0] == "default":
        return frozenset()
    return frozenset([t])


def mkattrs(x):
    """canonical term: order and repetition don't matter"""
    x = sorted(x, key=repr)
    return x[0] if len(x) == 1 and x[0][0] != "at" else ("attrs",) + tuple(x)


def attrs_op(op, a, b):
    x = attrset(a)
    if op == "set":
        r = x | {("at", b)}
    elif op == "extend":
        r = x | attrset(b)
    else:
        return ("Attributes::" + op, mkattrs(x), b)
    return mkattrs(r)


@model("Attributes::set", "Attributes::unset", "Attributes::extend", "Attributes::toggle")
def m_attrs(E, fr, blk, st, fn, args, atys, dty):
    r = E.toref(args[0])
    if r is None:
        return None
    ty = r.ty if r.ty is not None else (E.P.types[atys[0]]["ty"] if E.tyk(atys[0]) == "ref" else None)
    old = E.read(st, r.root, r.path, ty)
    a, b = E.content(st, old), E.content(st, args[1])
    E.write(st, r.root, r.path, Sym(attrs_op(norm(fn["path"]).split("::")[1], a, b), ty))
    return [(st, UNIT)]


@model("Attributes::with", "Attributes::without")
def m_attrs_with(E, fr, blk, st, fn, args, atys, dty):
    n = {"with": "set", "without": "unset"}[norm(fn["path"]).split("::")[1]]
    return [(st, Sym(attrs_op(n, E.content(st, args[0]), E.content(st, args[1])), dty))]


@model("BitOr::bitor", "BitOrAssign::bitor_assign")
def m_bitor(E, fr, blk, st, fn, args, atys, dty):
    one = {"set" if E.P.types[atys[1]].get("path", "").endswith("::Attribute") else "extend": 1} if atys[1] is not None else {}
    if norm(fn["path"]).startswith("BitOrA"):
        r = E.toref(args[0])
        ty = E.P.types[atys[0]]["ty"] if atys[0] is not None and E.tyk(atys[0]) == "ref" else None
        if r is None or not is_attrs(E, ty):
            return None
        old = E.content(st, E.read(st, r.root, r.path, ty))
        E.write(st, r.root, r.path, Sym(attrs_op(next(iter(one)), old, E.content(st, args[1])), ty))
        return [(st, UNIT)]
    if is_attrs(E, atys[0]):
        return [(st, Sym(attrs_op(next(iter(one)), E.content(st, args[0]), E.content(st, args[1])), dty))]
    return m_pure(E, fr, blk, st, fn, args, atys, dty)


@model("Attributes::none")
def m_attrs_none(E, fr, blk, st, fn, args, atys, dty):
    return [(st, Sym(("attrs",), dty))]


def is_attrs(E, ty):
    t = E.P.types[ty] if ty is not None else {"k": ""}
    return t["k"] == "adt" and t["path"].endswith("::Attributes")


@model("Color::blend")
def m_cblend(E, fr, blk, st, fn, args, atys, dty):
    return m_pure(E, fr, blk, st, fn, args, atys, dty)


# maps: iterated as the vector of their values (the length is unknown unless the analysis set the content)
@model("HashMap::iter", "HashMap::iter_mut", "HashMap::values", "HashMap::values_mut")
def m_hm(E, fr, blk, st, fn, args, atys, dty):
    ty = atys[0]
    mty = E.P.types[ty]["ty"] if ty is not None and E.tyk(ty) == "ref" else None
    r = E.toref(args[0])
    if r is None:
        return None
    v = E.read(st, r.root, r.path, mty)
    if not isinstance(v, VecV):
        t = E.termof(v)
        v = VecV(("hm", t), E.nat(("len", t)), (), payload_ty(E, mty, 1))
        E.write(st, r.root, r.path, v)
    it = Agg("m:slice", None, (Ref(r.root, r.path), Lin(0), v.len))
    if "values" in norm(fn["path"]):
        return [(st, it)]
    return [(st, Agg("m:hm", None, (it,)))]


@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def m_fncall(E, fr, blk, st, fn, args, atys, dty):
    tup = args[1]
    xs = list(tup.fields) if isinstance(tup, Agg) else []
    cv = args[0]
    inner = E.peel(st, cv)
    if isinstance(inner, Agg) and inner.path.startswith("closure:") or isinstance(inner, FnV):
        return E.call_closure(fr, blk, st, cv if isinstance(cv, Ref) else inner, xs)
    return [(st, E.fresh_val(dty, "fncall"))]
