"""Transfer functions of the standard-library operations the analysed bodies call. Everything not
listed here is interpreted from its own body when that is available, and forgotten otherwise."""
import itertools
import re
from terms import *
from values import *
import interp
from interp import (P_u8, St, seq_get, seq_set, seq_sub, vec, vec_of, streq, veq, s_lit, str_fn, strlen,
                    int_range, udiv, urem, region_bytes, split_div, Unsupported, merge)
import solve

M = {}
ADDR = 1 << 47


def model(*keys):
    def d(f):
        for k in keys:
            M[k] = f
        return f
    return d


INTS = {f"{s}{b}" for s in "iu" for b in ("8", "16", "32", "64", "128", "size")}


def norm_self(s):
    s = s.strip()
    if s.startswith("["):
        return "array" if ";" in s else "slice"
    if s.startswith("*"):
        return "ptr"
    if s in INTS:
        return "num"
    if s in ("f32", "f64"):
        return "float"
    s = re.sub(r"<.*", "", s)
    return s.split("::")[-1]


def strip_generics(p):
    out, d = [], 0
    for ch in p:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


_keys = {}


def keys_of(inst):
    n = inst["path"]
    k = _keys.get(n)
    if k is None:
        k = []
        if inst.get("intrinsic"):
            k.append("intr::" + inst["intrinsic"])
        tr = inst.get("trait") or inst.get("impl_trait")
        m = inst.get("method")
        if tr and m:
            t = strip_generics(tr).split("::")[-1]
            if inst.get("impl_self"):
                k.append(f"{norm_self(inst['impl_self'])}:{t}::{m}")
            k.append(f"{t}::{m}")
        elif inst.get("impl_self") and m:
            k.append(f"{norm_self(inst['impl_self'])}::{m}")
        else:
            seg = [x for x in strip_generics(n).split("::") if x]
            k.append("::".join(seg[-2:]))
        _keys[n] = k
    return k


def lookup(inst):
    for k in keys_of(inst):
        f = M.get(k)
        if f:
            return f
    return None


def lookup_path(path):
    seg = [x for x in strip_generics(path).split("::") if x]
    return M.get("::".join(seg[-2:]))


# ------------------------------------------------------------------ helpers
def T_(t):
    return interp.P.types[t]


def tsize(t):
    return T_(t).get("size")


def first_ty(inst):
    for a in inst.get("args", []):
        if isinstance(a, int):
            return a
    return None


def tyargs(inst):
    return [a for a in inst.get("args", []) if isinstance(a, int)]


def ptr_to(o, path, t):
    return mkv("ptr", o, path, t, "p", 0, None)


def refto(E, st, v, t=None):
    o = E.alloc(st, v, "T")
    return ptr_to(o, (), t)


def slice_ptr(o, path, e, off, n):
    return mkv("ptr", o, path, e, ("r", e, False), off, n)


def some(x):
    return agg(1, x)


NONE = agg(0)


def ok(x):
    return agg(0, x)


def err(x):
    return agg(1, x)


def opt_of(alts):
    """[(cond, value or None)] -> Option value."""
    return mkcase([(c, NONE if v is None else some(v)) for c, v in alts])


def deref1(E, st, p):
    return E.read_ptr(st, p)


def deep(E, st, v, n=6):
    """Value behind any number of references."""
    while n and isinstance(v, V) and v.k in ("ptr", "refval", "case"):
        if v.k == "case" and not all(isk(w, "ptr") or isk(w, "refval") for _, w in v.a):
            return v
        v = E.narrow(st, E.read_ptr(st, v))
        n -= 1
    return v


def as_slice(E, st, v, e=None):
    """Slice pointer for &[T], &Vec<T>, &[T;N], &Arc<[T]>."""
    v = E.narrow(st, v)
    if isk(v, "case"):
        return mkcase([(c, as_slice(E, st, w, e)) for c, w in v.a])
    if isk(v, "arc"):
        w = E.getobj(st, v.a[0])
        return slice_ptr(v.a[0], ("buf",), e if e is not None else P_u8(), 0, w.a[1] if isk(w, "vec") else unk(0, ADDR))
    if isk(v, "refval"):
        o = E.alloc(st, v.a[0], "T")
        v = ptr_to(o, (), None)
    if not isk(v, "ptr"):
        return v
    if v.a[3] != "p":
        return v
    w = E.read_ptr(st, v)
    w = E.narrow(st, w)
    if isk(w, "ptr") or isk(w, "arc") or isk(w, "refval") or isk(w, "case") and all(isk(x, "ptr") for _, x in w.a):
        return as_slice(E, st, w, e)
    t = v.a[2]
    if isk(w, "vec"):
        if e is None and t is not None and T_(t)["kind"] == "adt":
            e = T_(t)["args"][0]
        return slice_ptr(v.a[0], v.a[1] + ("buf",), e, 0, w.a[1])
    if t is not None and T_(t)["kind"] == "array":
        return slice_ptr(v.a[0], v.a[1], T_(t)["elem"], 0, T_(t)["len"])
    n = seqlen(w)
    if n is not None:
        return slice_ptr(v.a[0], v.a[1], e, 0, n)
    if e is not None:
        return slice_ptr(v.a[0], v.a[1] + ("buf",), e, 0, A(atom("unk", mkv("len", w), lo=0, hi=ADDR)))
    return v


def slen(E, st, p):
    p = E.narrow(st, p)
    if isk(p, "case"):
        return mkcase([(c, slen(E, st, w)) for c, w in p.a])
    if isk(p, "ptr") and p.a[5] is not None:
        return p.a[5]
    if isk(p, "str"):
        return strlen(p)
    return A(atom("unk", mkv("len", p), lo=0, hi=ADDR))


def elem_ptr(E, p, i):
    """Pointer to element i of a slice pointer."""
    if isk(p, "case"):
        return mkcase([(c, elem_ptr(E, w, i)) for c, w in p.a])
    if not isk(p, "ptr"):
        return mkv("refval", unkv("elem", p, i))
    obj, path, e, kind, off, meta = p.a
    if kind == "p":
        return p
    s = tsize(e) if e is not None else 0
    if not s:
        return ptr_to(obj, path + (("ix", add(off, i)),), e)
    return E.renorm(mkv("ptr", obj, path, e, kind, add(off, scale(i, s) if isint(i) else i), None))


def sub_ptr(E, p, lo, n):
    if isk(p, "case"):
        return mkcase([(c, sub_ptr(E, w, lo, n)) for c, w in p.a])
    if not isk(p, "ptr"):
        return unkv("subslice", p, lo, n)
    obj, path, e, kind, off, meta = p.a
    s = tsize(e)
    return mkv("ptr", obj, path, e, kind, add(off, scale(lo, s)), n)


def slice_val(E, st, p):
    """Contents of a slice as a sequence value, and its length."""
    p = E.narrow(st, p)
    if isk(p, "ptr") and p.a[5] is not None:
        return E.read_loc(st, ("r", p)), p.a[5]
    v = deep(E, st, p)
    s, n = vec_of(v)
    if s is not None:
        return s, n
    return unkv("slice", v), unk(0, ADDR)


def lits(st):
    return interp.lits_of(st.pc)


def read_vec(E, st, p):
    """(pointer value, vec value) for a &mut Vec."""
    p = E.narrow(st, p)
    v = E.narrow(st, E.read_ptr(st, p))
    if isk(v, "vec"):
        return v
    if isk(v, "undef"):
        return vec(seq_list([]))
    return vec(unkv("seq", v), A(atom("unk", mkv("len", v), lo=0, hi=ADDR)))


def content(v):
    """Initialised contents of a vec value."""
    return interp.truncate(v.a[0], v.a[1])


def alloc_event(E, st, n, size, span, what, exact=True):
    E.event(st, "alloc", n=n, size=size, span=span, what=what)
    if size:
        E.oblige(st, "alloc", f"{what}: capacity {show(n)} x {size} bytes", ge(sub(I64MAX, scale(toint(n), size))), span)


def vec_push(E, st, p, x, t, span):
    v = read_vec(E, st, p)
    s = v.a[0]
    n = v.a[1]
    if isk(s, "over") or isk(s, "hole") or True:
        ns = cat([s, seq_list([x])])
    nn = add(n, 1) if isint(n) else add(toint(n), 1)
    cap = v.a[2]
    c = toint(cap)
    if isinstance(c, int) and isinstance(nn, int):
        cap = max(c, nn)
    elif not solve.prove(lits(st), le(nn, c), E.axioms, 2):
        cap = mkcase([(le(nn, c), c), (lt(c, nn), nn)])
        E.event(st, "grow", n=nn, size=tsize(t) if t is not None else 1, span=span, what="Vec::push")
    E.write_ptr(st, p, mkv("vec", ns, nn, cap))


# ------------------------------------------------------------------ iterators
def mk_iter(kind, *f):
    return mkv("iter", kind, tuple(f))


def slice_iter(E, st, p, mut=False, e=None):
    p = as_slice(E, st, p, e)
    n = slen(E, st, p)
    e = p.a[2] if isk(p, "ptr") else e
    return mk_iter(("slice", e), p, 0, n)


def seq_iter(s, n=None):
    return mk_iter(("seq",), s, 0, seqlen(s) if n is None else n)


def is_range_ty(t):
    T = T_(t) if t is not None else None
    return T is not None and T["kind"] == "adt" and T["path"].split("::")[-1].startswith("Range")


def as_iter(E, st, v, t=None):
    """An iterator value of a known kind for any IntoIterator."""
    v = E.narrow(st, v)
    if isk(v, "iter"):
        return v
    T = T_(t) if t is not None else None
    last = T["path"].split("::")[-1] if T is not None and T["kind"] == "adt" else None
    if isk(v, "case"):
        its = [(c, as_iter(E, st, w, t)) for c, w in v.a]
        return mkcase(its)
    if isk(v, "vec"):
        return seq_iter(content(v), v.a[1])
    if isk(v, "list"):
        return seq_iter(v)
    if T is not None and T["kind"] == "array":
        return seq_iter(v, T["len"])
    if isk(v, "agg") and last == "Range":
        return mk_iter(("range", T["args"][0]), v.a[1][0], v.a[1][1])
    if isk(v, "agg") and last == "RangeInclusive":
        return mk_iter(("range", T["args"][0]), v.a[1][0], add(toint(v.a[1][1]), 1))
    if isk(v, "agg") and last == "RangeFrom":
        return mk_iter(("from", T["args"][0]), v.a[1][0])
    if isk(v, "agg") and last == "Option":
        return mk_iter(("opt",), v)
    if isk(v, "agg") and last == "Result":
        return mk_iter(("opt",), NONE if v.a[0] else some(v.a[1][0]))
    if isk(v, "ptr") and v.a[5] is not None:
        return slice_iter(E, st, v)
    if isk(v, "ptr") and T is not None and T["kind"] == "ref":
        to = T_(T["to"])
        w = E.read_ptr(st, v)
        if to["kind"] in ("array", "slice"):
            return slice_iter(E, st, v)
        if to["kind"] == "adt" and to["path"].split("::")[-1] == "Vec":
            return slice_iter(E, st, v, e=to["args"][0])
        if isk(w, "vec") or isk(w, "list"):
            return slice_iter(E, st, v)
        if to["kind"] == "adt" and to["path"].split("::")[-1] == "Option":
            w = deep(E, st, v)
            p = v
            return mk_iter(("opt",), mkcase([(c, some(ptr_to(p.a[0], p.a[1] + (("v", 1), 0), None)) if isk(x, "agg") and x.a[0] == 1 else NONE) for c, x in alts_of(w)]))
        return mk_iter(("byref", T["to"]), v)
    if isk(v, "ptr"):
        w = E.read_ptr(st, v)
        if isk(w, "vec") or isk(w, "list"):
            return slice_iter(E, st, v)
    if T is not None and T.get("methods", {}).get("Iterator::next") is not None:
        return mk_iter(("user", t), v)
    return mk_iter(("unk",), v)


def un_iter(it, old):
    """Store an iterator back in the representation of its type."""
    if isk(old, "agg") and isk(it, "iter"):
        if it.a[0][0] == "range":
            if len(old.a[1]) == 2:
                return agg(0, *it.a[1])
            return agg(0, it.a[1][0], sub(toint(it.a[1][1]), 1), False)
        if it.a[0][0] in ("user",):
            return it.a[1][0]
        if it.a[0][0] == "from":
            return agg(0, it.a[1][0])
        if it.a[0][0] == "opt":
            return it.a[1][0]
    if isk(it, "iter") and it.a[0][0] == "user":
        return it.a[1][0]
    return it


def mark(E, lo, hi):
    fl = E.flags[-1]
    d = sub(toint(hi), toint(lo))
    if isinstance(d, int):
        fl.conc = True
    else:
        fl.sym = True


def setf(it, i, x):
    f = list(it.a[1])
    f[i] = x
    return mkv("iter", it.a[0], tuple(f))


def split(st, c):
    """[(holds, state)]"""
    out = []
    s = st.assume(c) if c is not False else None
    if s is not None:
        out.append((True, s))
    n = fnot(c)
    s = st.assume(n) if n is not False else None
    if s is not None:
        out.append((False, s))
    return out


def iter_step(E, st, it, back=False):
    """One step: [(state, 'item'|'skip'|'none', iterator, item)]."""
    it = E.narrow(st, it)
    if isk(it, "case"):
        out = []
        for c, w in it.a:
            s = st.assume(c)
            if s is not None:
                out += iter_step(E, s, w, back)
        return out
    if not isk(it, "iter"):
        E.flags[-1].sym = True
        return iter_unknown(E, st, it)
    kind, f = it.a
    k = kind[0]
    out = []
    if k in ("slice", "seq", "range"):
        if k == "range":
            src, (lo, hi) = None, f
            il, ih = 0, 1
        else:
            src, lo, hi = f
            il, ih = 1, 2
        lo, hi = toint(lo), toint(hi)
        mark(E, lo, hi)
        for h, s in split(st, lt(lo, hi)):
            if not h:
                out.append((s, "none", it, None))
                continue
            pos = sub(hi, 1) if back else lo
            it2 = setf(it, ih, pos) if back else setf(it, il, add(lo, 1))
            if k == "slice":
                x = elem_ptr(E, src, pos)
            elif k == "seq":
                x = seq_get(src, pos)
            else:
                x = pos
            out.append((s, "item", it2, x))
        return out
    if k == "from":
        E.flags[-1].sym = True
        return [(st, "item", setf(it, 0, add(toint(f[0]), 1)), f[0])]
    if k == "map":
        for s, t, i2, x in iter_step(E, st, f[0], back):
            if t != "item":
                out.append((s, t, setf(it, 0, i2), None))
                continue
            for s2, r, f2 in E.call_value(s, f[1], kind[1], [x]):
                out.append((s2, "item", mkv("iter", kind, (i2, f2)), r))
        return out
    if k in ("filter", "skip_while", "take_while", "inspect"):
        for s, t, i2, x in iter_step(E, st, f[0], back):
            it2 = setf(it, 0, i2)
            if t != "item":
                out.append((s, t, it2, None))
                continue
            if k == "skip_while" and f[2] is True:
                out.append((s, "item", it2, x))
                continue
            s = s.copy()
            r = refto(E, s, x)
            for s2, b, f2 in E.call_value(s, f[1], kind[1], [r]):
                it3 = setf(it2, 1, f2)
                if k == "inspect":
                    out.append((s2, "item", it3, x))
                    continue
                b = tobool(b)
                for h, s3 in split(s2, b):
                    s3 = s3.copy()
                    s3.mem.pop(r.a[0], None)
                    if k == "filter":
                        out.append((s3, "item" if h else "skip", it3, x))
                    elif k == "take_while":
                        out.append((s3, "item" if h else "none", it3, x))
                    else:
                        out.append((s3, "skip" if h else "item", setf(it3, 2, not h), x))
        return out
    if k in ("filter_map", "map_while"):
        for s, t, i2, x in iter_step(E, st, f[0], back):
            it2 = setf(it, 0, i2)
            if t != "item":
                out.append((s, t, it2, None))
                continue
            for s2, r, f2 in E.call_value(s, f[1], kind[1], [x]):
                r = E.narrow(s2, r)
                for c, w in alts_of(r):
                    s3 = s2.assume(c)
                    if s3 is None:
                        continue
                    if isk(w, "agg"):
                        tag = "item" if w.a[0] == 1 else ("skip" if k == "filter_map" else "none")
                        out.append((s3, tag, setf(it2, 1, f2), w.a[1][0] if w.a[0] == 1 else None))
                    else:
                        out.append((s3, "item", setf(it2, 1, f2), unkv("some", w)))
        return out
    if k == "enumerate":
        if back:
            raise Unsupported("reversed enumerate")
        for s, t, i2, x in iter_step(E, st, f[0]):
            if t != "item":
                out.append((s, t, setf(it, 0, i2), None))
            else:
                out.append((s, t, mkv("iter", kind, (i2, add(toint(f[1]), 1))), agg(0, f[1], x)))
        return out
    if k == "zip":
        if back:
            la, lb = iter_len(E, st, f[0]), iter_len(E, st, f[1])
            if la is None or lb is None or not same(la, lb):
                raise Unsupported("reversed zip")
        for s, t, i2, x in one(E, st, f[0], back):
            if t != "item":
                out.append((s, t, setf(it, 0, i2), None))
                continue
            for s2, t2, j2, y in one(E, s, f[1], back):
                it2 = mkv("iter", kind, (i2, j2))
                out.append((s2, t2, it2, agg(0, x, y) if t2 == "item" else None))
        return out
    if k == "chain":
        a, b = (1, 0) if back else (0, 1)
        for s, t, i2, x in iter_step(E, st, f[a], back):
            it2 = setf(it, a, i2)
            if t != "none":
                out.append((s, t, it2, x))
                continue
            for s2, t2, j2, y in iter_step(E, s, f[b], back):
                out.append((s2, t2, setf(it2, b, j2), y))
        return out
    if k == "take":
        if back:
            raise Unsupported("reversed take")
        n = toint(f[1])
        mark(E, 0, n)
        for h, s in split(st, lt(0, n)):
            if not h:
                out.append((s, "none", it, None))
                continue
            for s2, t, i2, x in iter_step(E, s, f[0]):
                out.append((s2, t, mkv("iter", kind, (i2, sub(n, 1) if t == "item" else n)), x))
        return out
    if k == "skip":
        n = toint(f[1])
        if same(n, 0):
            return [(s, t, setf(it, 0, i2), x) for s, t, i2, x in iter_step(E, st, f[0], back)]
        i2 = advance(E, st, f[0], n)
        if i2 is not None:
            return iter_step(E, st, mkv("iter", kind, (i2, 0)), back)
        if back:
            raise Unsupported("reversed skip")
        for h, s in split(st, lt(0, n)):
            for s2, t, i2, x in iter_step(E, s, f[0]):
                it2 = mkv("iter", kind, (i2, sub(n, 1) if h and t == "item" else n))
                out.append((s2, "skip" if h and t == "item" else t, it2, x))
        return out
    if k == "rev":
        return [(s, t, setf(it, 0, i2), x) for s, t, i2, x in iter_step(E, st, f[0], not back)]
    if k in ("cloned", "copied"):
        for s, t, i2, x in iter_step(E, st, f[0], back):
            out.append((s, t, setf(it, 0, i2), clone(E, s, E.read_ptr(s, x)) if t == "item" else None))
        return out
    if k in ("fuse", "peek"):
        if k == "peek" and not same(f[1], NONE):
            for c, w in alts_of(f[1]):
                s = st.assume(c)
                if s is None:
                    continue
                if isk(w, "agg") and w.a[0] == 1:
                    out.append((s, "item", setf(it, 1, NONE), w.a[1][0]))
                else:
                    out += [(s2, t, setf(setf(it, 1, NONE), 0, i2), x) for s2, t, i2, x in iter_step(E, s, f[0], back)]
            return out
        return [(s, t, setf(it, 0, i2), x) for s, t, i2, x in iter_step(E, st, f[0], back)]
    if k == "opt":
        E.flags[-1].conc = True
        for c, w in alts_of(E.narrow(st, f[0])):
            s = st.assume(c)
            if s is None:
                continue
            if isk(w, "agg") and w.a[0] == 1:
                out.append((s, "item", setf(it, 0, NONE), w.a[1][0]))
            else:
                out.append((s, "none", setf(it, 0, NONE), None))
        return out
    if k == "repeat":
        E.flags[-1].sym = True
        return [(st, "item", it, clone(E, st, f[0]))]
    if k in ("chunks", "windows"):
        p, i, n, size, ln, e = f
        i, n = toint(i), toint(n)
        mark(E, i, n)
        for h, s in split(st, lt(i, n)):
            if not h:
                out.append((s, "none", it, None))
                continue
            pos = sub(n, 1) if back else i
            it2 = setf(it, 2, pos) if back else setf(it, 1, add(i, 1))
            if k == "windows":
                x = sub_ptr(E, p, pos, size)
            else:
                off = mul(pos, size)
                if kind[1]:
                    m = size
                else:
                    r = sub(ln, off)
                    m = toint(mkcase([(le(size, r), size), (lt(r, size), r)]))
                x = sub_ptr(E, p, off, m)
            out.append((s, "item", it2, x))
        return out
    if k == "step_by":
        first, n = f[1], toint(f[2])
        inner = f[0]
        if first is not True:
            i2 = advance(E, st, inner, sub(n, 1))
            if i2 is None:
                raise Unsupported("step_by")
            inner = i2
        return [(s, t, mkv("iter", kind, (i2, False, n)), x) for s, t, i2, x in iter_step(E, st, inner, back)]
    if k == "byref":
        inner = E.read_ptr(st, f[0])
        return step_place(E, st, it, f[0], kind[1], back)
    if k == "user":
        o = E.alloc(st.copy(), None)
        s = st.copy()
        s.mem[o] = f[0]
        m = T_(kind[1])["methods"].get("DoubleEndedIterator::next_back" if back else "Iterator::next")
        if m is None:
            raise Unsupported("no next")
        for s2, r in E.call_inst(s, m, [ptr_to(o, (), kind[1])]):
            v2 = s2.mem.get(o, UNDEF)
            s2 = s2.copy()
            s2.mem.pop(o, None)
            r = E.narrow(s2, r)
            for c, w in alts_of(r):
                s3 = s2.assume(c)
                if s3 is None:
                    continue
                it2 = setf(it, 0, v2)
                if isk(w, "agg"):
                    out.append((s3, "item" if w.a[0] == 1 else "none", it2, w.a[1][0] if w.a[0] == 1 else None))
                else:
                    out += iter_unknown(E, s3, it2)
        return out
    if k == "flat_map":
        # inner iterators are consumed completely before the outer one moves on
        cur = f[2]
        if not same(cur, NONE):
            for s, t, i2, x in iter_step(E, st, cur.a[1][0] if isk(cur, "agg") else cur, back):
                if t == "none":
                    out.append((s, "skip", setf(it, 2, NONE), None))
                else:
                    out.append((s, t, setf(it, 2, some(i2)), x))
            return out
        for s, t, i2, x in iter_step(E, st, f[0], back):
            if t != "item":
                out.append((s, t, setf(it, 0, i2), None))
                continue
            if kind[1] is None:
                rs = [(s, x, f[1])]
            else:
                rs = E.call_value(s, f[1], kind[1], [x])
            for s2, r, f2 in rs:
                inner = as_iter(E, s2, r, kind[2] if len(kind) > 2 else None)
                out.append((s2, "skip", mkv("iter", kind, (i2, f2, some(inner))), None))
        return out
    E.flags[-1].sym = True
    return iter_unknown(E, st, it)


def iter_unknown(E, st, it):
    E.unmodelled["iterator " + str(it.a[0] if isk(it, "iter") else it.k)[:60]] = 1
    c = unkb()
    E.event(st, "unmodelled", name="iterator", span=None)
    out = []
    for h, s in split(st, c):
        out.append((s, "item" if h else "none", it, unkv("item", it, fresh_id()) if h else None))
    return out


def one(E, st, it, back=False):
    """Next item with skipped elements passed over: outcomes are 'item' or 'none' only."""
    r = iter_step(E, st, it, back)
    if not any(t == "skip" for _, t, _, _ in r):
        return r
    done = [x for x in r if x[1] != "skip"]
    s0 = st.copy()
    I, X = ("T", fresh_id()), ("T", fresh_id())
    s0.mem[I] = it
    s0.mem[X] = UNDEF

    def step(s):
        out = []
        for s2, t, i2, x in iter_step(E, s, s.mem[I], back):
            s2 = s2.copy()
            s2.mem[I] = i2
            if t == "item":
                s2.mem[X] = x
            out.append(("cont" if t == "skip" else t, s2))
        return out
    out = []
    for t, s in E.loop(s0, step):
        s = s.copy()
        i2, x = s.mem.pop(I), s.mem.pop(X)
        out.append((s, t, i2, x if t == "item" else None))
    return out


def step_place(E, st, it, p, t, back):
    """Advance the iterator stored behind a pointer."""
    old = E.read_ptr(st, p)
    inner = as_iter(E, st, old, t)
    out = []
    for s, tag, i2, x in iter_step(E, st, inner, back):
        s = s.copy()
        E.write_ptr(s, p, un_iter(i2, old))
        out.append((s, tag, it, x))
    return out


def advance(E, st, it, n):
    """The iterator after n items, where that is a position update; None if it is not."""
    if not isk(it, "iter"):
        return None
    kind, f = it.a
    k = kind[0]
    if k in ("slice", "seq", "range", "chunks", "windows"):
        il, ih = {"range": (0, 1)}.get(k, (1, 2))
        lo, hi = toint(f[il]), toint(f[ih])
        x = add(lo, n)
        if isinstance(x, int) and isinstance(hi, int):
            return setf(it, il, min(x, hi))
        if solve.prove(lits(st), le(x, hi), E.axioms, 2):
            return setf(it, il, x)
        return setf(it, il, toint(mkcase([(le(x, hi), x), (lt(hi, x), hi)])))
    if k in ("map", "cloned", "copied", "enumerate") and k != "map":
        i2 = advance(E, st, f[0], n)
        if i2 is None:
            return None
        if k == "enumerate":
            return mkv("iter", kind, (i2, add(toint(f[1]), n)))
        return setf(it, 0, i2)
    if k == "zip":
        a, b = advance(E, st, f[0], n), advance(E, st, f[1], n)
        return None if a is None or b is None else mkv("iter", kind, (a, b))
    return None


def tmin(a, b):
    if same(a, b):
        return a
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    if le(a, b) is True:
        return a
    if le(b, a) is True:
        return b
    return toint(mkcase([(le(a, b), a), (lt(b, a), b)]))


def iter_len(E, st, it):
    """Exact remaining number of items, if the kind determines it."""
    it = E.narrow(st, it)
    if not isk(it, "iter"):
        return None
    kind, f = it.a
    k = kind[0]
    if k in ("slice", "seq", "chunks", "windows"):
        return sub(toint(f[2]), toint(f[1]))
    if k == "range":
        lo, hi = toint(f[0]), toint(f[1])
        d = sub(hi, lo)
        if isinstance(d, int):
            return max(d, 0)
        if ge(d) is True or solve.prove(lits(st), ge(d), E.axioms, 2):
            return d
        return toint(mkcase([(ge(d), d), (fnot(ge(d)), 0)]))
    if k in ("map", "enumerate", "cloned", "copied", "inspect", "rev", "fuse"):
        return iter_len(E, st, f[0])
    if k == "zip":
        a, b = iter_len(E, st, f[0]), iter_len(E, st, f[1])
        return None if a is None or b is None else tmin(a, b)
    if k == "take":
        a = iter_len(E, st, f[0])
        return None if a is None else tmin(a, toint(f[1]))
    if k == "chain":
        a, b = iter_len(E, st, f[0]), iter_len(E, st, f[1])
        return None if a is None or b is None else add(a, b)
    if k == "opt":
        return toint(mkcase([(c, 1 if isk(w, "agg") and w.a[0] == 1 else 0) for c, w in alts_of(f[0])]))
    if k == "skip":
        a = iter_len(E, st, f[0])
        if a is None:
            return None
        n = toint(f[1])
        return sub(a, tmin(n, a))
    if k == "peek" and same(f[1], NONE):
        return iter_len(E, st, f[0])
    return None


def self_iter(E, st, inst, v, argtys=None, by_ref=False):
    """Iterator for the receiver of an Iterator method."""
    t = None
    if inst.get("trait"):
        t = first_ty(inst)
    elif argtys:
        t = argtys[0]
        if by_ref and t is not None and T_(t)["kind"] in ("ref", "ptr"):
            t = T_(t)["to"]
    if t is None and isk(v, "agg") and "Range<" in inst.get("impl_self", ""):
        if len(v.a[1]) == 2:
            return mk_iter(("range", None), v.a[1][0], v.a[1][1])
    if isk(v, "agg") and "RangeInclusive<" in inst.get("impl_self", "") and len(v.a[1]) == 3:
        return mk_iter(("range", None), v.a[1][0], add(toint(v.a[1][1]), 1))
    return as_iter(E, st, v, t)


# -- adapters
def adapter(kind, *extra):
    def f(E, st, inst, args, argtys, destty, span):
        it = self_iter(E, st, inst, args[0], argtys)
        return [(st, mk_iter((kind,), it, *(list(args[1:]) + list(extra))))]
    return f


def fn_adapter(kind, *extra):
    def f(E, st, inst, args, argtys, destty, span):
        it = self_iter(E, st, inst, args[0], argtys)
        fty = tyargs(inst)[-1]
        return [(st, mk_iter((kind, fty), it, args[1], *extra))]
    return f


for _n in ("map", "filter", "filter_map", "take_while", "inspect", "map_while"):
    M["Iterator::" + _n] = fn_adapter(_n)
M["Iterator::skip_while"] = fn_adapter("skip_while", False)
for _n in ("rev", "cloned", "copied", "fuse", "skip"):
    M["Iterator::" + _n] = adapter(_n)


def shorten(E, st, it, n):
    """The iterator cut to its first n items, where that is a position update; None if it is not."""
    if not isk(it, "iter"):
        return None
    kind, f = it.a
    k = kind[0]
    if k in ("slice", "seq", "range", "chunks", "windows"):
        il, ih = {"range": (0, 1)}.get(k, (1, 2))
        lo, hi = toint(f[il]), toint(f[ih])
        if k == "range":
            m = iter_len(E, st, it)
            if m is None:
                return None
            return setf(it, ih, add(lo, tmin(n, toint(m))))
        return setf(it, ih, tmin(add(lo, n), hi))
    if k in ("map", "cloned", "copied", "enumerate", "inspect"):
        i2 = shorten(E, st, f[0], n)
        return None if i2 is None else setf(it, 0, i2)
    if k == "zip":
        a = shorten(E, st, f[0], n)
        return None if a is None else setf(it, 0, a)
    return None


@model("Iterator::take")
def _(E, st, inst, args, argtys, destty, span):
    it = self_iter(E, st, inst, args[0], argtys)
    i2 = shorten(E, st, it, toint(args[1]))
    return [(st, mk_iter(("take",), it, args[1]) if i2 is None else i2)]

M["Iterator::enumerate"] = adapter("enumerate", 0)
M["Iterator::peekable"] = adapter("peek", NONE)


@model("Iterator::by_ref")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, args[0])]


@model("Iterator::step_by")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, mk_iter(("step_by",), self_iter(E, st, inst, args[0], argtys), True, args[1]))]


@model("Iterator::zip", "Iterator::chain", "zip::zip")
def _(E, st, inst, args, argtys, destty, span):
    a = tyargs(inst)
    k = inst.get("method") or "zip"
    if k == "zip" and not inst.get("trait"):
        x = as_iter(E, st, args[0], a[0])
        y = as_iter(E, st, args[1], a[1])
    else:
        x = self_iter(E, st, inst, args[0], argtys)
        y = as_iter(E, st, args[1], a[-1])
    return [(st, mk_iter((k,), x, y))]


@model("Iterator::flat_map")
def _(E, st, inst, args, argtys, destty, span):
    a = tyargs(inst)
    return [(st, mk_iter(("flat_map", a[-1], a[-2]), self_iter(E, st, inst, args[0], argtys), args[1], NONE))]


@model("Iterator::flatten")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, mk_iter(("flat_map", None, None), self_iter(E, st, inst, args[0], argtys), UNIT, NONE))]


@model("once::once")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, mk_iter(("opt",), some(args[0])))]


@model("empty::empty")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, mk_iter(("opt",), NONE))]


@model("repeat::repeat")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, mk_iter(("repeat",), args[0]))]


@model("repeat_n::repeat_n")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, mk_iter(("seq",), mkv("rep", toint(args[1]), args[0]), 0, toint(args[1])))]


@model("IntoIterator::into_iter")
def _(E, st, inst, args, argtys, destty, span):
    s = inst.get("impl_self", "")
    if s == "I":
        return [(st, args[0])]
    t = argtys[0] if argtys else None
    if t is None and ("Option" in s):
        return [(st, mk_iter(("opt",), args[0]))]
    return [(st, as_iter(E, st, args[0], t))]


@model("slice::iter", "slice::iter_mut", "array::iter", "Vec::iter")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, slice_iter(E, st, args[0], e=first_ty(inst)))]


@model("Option::iter", "Option::iter_mut")
def _(E, st, inst, args, argtys, destty, span):
    w = deep(E, st, args[0])
    p = E.narrow(st, args[0])
    return [(st, mk_iter(("opt",), mkcase([(c, some(ptr_to(p.a[0], p.a[1] + (("v", 1), 0), first_ty(inst))) if isk(x, "agg") and x.a[0] == 1 else NONE) for c, x in alts_of(w)])))]


@model("slice::chunks", "slice::chunks_exact", "slice::chunks_mut", "slice::chunks_exact_mut", "slice::windows")
def _(E, st, inst, args, argtys, destty, span):
    e = first_ty(inst)
    p = as_slice(E, st, args[0], e)
    n = toint(slen(E, st, p))
    size = toint(args[1])
    st = E.require(st, "panic", f"{inst['method']}: chunk size is not zero", lt(0, size), span)
    if st is None:
        return []
    if inst["method"] == "windows":
        cnt = toint(mkcase([(le(size, n), add(sub(n, size), 1)), (lt(n, size), 0)]))
        return [(st, mk_iter(("windows",), p, 0, cnt, size, n, UNIT))]
    exact = "exact" in inst["method"]
    cnt = udiv(n, size) if exact else udiv(sub(add(n, size), 1), size)
    return [(st, mk_iter(("chunks", exact), p, 0, cnt, size, n, UNIT))]


# -- consumers
def consume(E, st0, it, per_item, init=None):
    """Run an iterator to its end. per_item(state, item) -> [(state, tag)] with tag 'cont' or an
    exit tag; the iterator lives in a memory cell so that its progress is a loop variable."""
    s0 = st0.copy()
    I = ("T", fresh_id())
    s0.mem[I] = it

    def step(s):
        out = []
        for s2, t, i2, x in iter_step(E, s, s.mem[I]):
            s2 = s2.copy()
            s2.mem[I] = i2
            if t == "item":
                for s3, tag in per_item(s2, x):
                    if s3 is not None:
                        out.append((tag, s3))
            else:
                out.append(("cont" if t == "skip" else "none", s2))
        return out
    out = []
    for t, s in E.loop(s0, step):
        s = s.copy()
        i2 = s.mem.pop(I)
        out.append((t, s, i2))
    return out


def cell(st, v):
    k = ("T", fresh_id())
    st.mem[k] = v
    return k


def back_to_ref(E, st, inst, args, it2):
    """Methods taking &mut self store the advanced iterator."""
    p = args[0]
    if isk(p, "ptr"):
        old = E.read_ptr(st, p)
        E.write_ptr(st, p, un_iter(it2, old))


def by_ref_self(E, st, inst, args, argtys):
    p = E.narrow(st, args[0])
    v = E.read_ptr(st, p)
    return self_iter(E, st, inst, v, argtys, by_ref=True)


@model("Iterator::next", "DoubleEndedIterator::next_back")
def _(E, st, inst, args, argtys, destty, span):
    back = inst["method"] == "next_back"
    p = E.narrow(st, args[0])
    it = by_ref_self(E, st, inst, args, argtys)
    old = E.read_ptr(st, p)
    out = []
    for s, t, i2, x in one(E, st, it, back):
        s = s.copy()
        E.write_ptr(s, p, un_iter(i2, old))
        out.append((s, some(x) if t == "item" else NONE))
    return out


@model("Peekable::peek")
def _(E, st, inst, args, argtys, destty, span):
    p = E.narrow(st, args[0])
    it = E.read_ptr(st, p)
    if not isk(it, "iter") or it.a[0][0] != "peek":
        return None
    out = []
    if not same(it.a[1][1], NONE):
        return None
    for s, t, i2, x in one(E, st, it.a[1][0]):
        s = s.copy()
        if t == "item":
            E.write_ptr(s, p, mkv("iter", it.a[0], (i2, some(x))))
            out.append((s, some(ptr_to(p.a[0], p.a[1] + (("it", 1), ("v", 1), 0), None))))
        else:
            E.write_ptr(s, p, mkv("iter", it.a[0], (i2, NONE)))
            out.append((s, NONE))
    return out


@model("Iterator::for_each")
def _(E, st, inst, args, argtys, destty, span):
    it = self_iter(E, st, inst, args[0], argtys)
    fty = tyargs(inst)[-1]
    st = st.copy()
    F_ = cell(st, args[1])

    def item(s, x):
        out = []
        for s2, _, f2 in E.call_value(s, s.mem[F_], fty, [x], span):
            s2 = s2.copy()
            s2.mem[F_] = f2
            out.append((s2, "cont"))
        return out
    out = []
    for t, s, _ in consume(E, st, it, item):
        s.mem.pop(F_, None)
        out.append((s, UNIT))
    return out


@model("Iterator::fold")
def _(E, st, inst, args, argtys, destty, span):
    it = self_iter(E, st, inst, args[0], argtys)
    fty = tyargs(inst)[-1]
    st = st.copy()
    F_, X = cell(st, args[2]), cell(st, args[1])

    def item(s, x):
        out = []
        for s2, r, f2 in E.call_value(s, s.mem[F_], fty, [s.mem[X], x], span):
            s2 = s2.copy()
            s2.mem[F_], s2.mem[X] = f2, r
            out.append((s2, "cont"))
        return out
    out = []
    for t, s, _ in consume(E, st, it, item):
        s.mem.pop(F_, None)
        out.append((s, s.mem.pop(X)))
    return out


def is_continue(t, w):
    """Payload of Some/Ok/Continue, or None."""
    T = T_(t) if t is not None else None
    last = T["path"].split("::")[-1] if T and T["kind"] == "adt" else None
    good = {"Option": 1, "Result": 0, "ControlFlow": 0}.get(last)
    return good is not None and w.a[0] == good


@model("Iterator::try_fold", "Iterator::try_for_each")
def _(E, st, inst, args, argtys, destty, span):
    fe = inst["method"] == "try_for_each"
    it = by_ref_self(E, st, inst, args, argtys)
    a = tyargs(inst)
    fty, rty = a[-2], a[-1]
    if T_(rty)["kind"] != "adt":
        return None
    last = T_(rty)["path"].split("::")[-1]
    good = {"Option": 1, "Result": 0, "ControlFlow": 0}.get(last)
    if good is None:
        return None
    st = st.copy()
    F_, X, R = cell(st, args[-1]), cell(st, UNIT if fe else args[1]), cell(st, UNDEF)

    def item(s, x):
        out = []
        for s2, r, f2 in E.call_value(s, s.mem[F_], fty, [x] if fe else [s.mem[X], x], span):
            r = E.narrow(s2, r)
            for c, w in alts_of(r):
                s3 = s2.assume(c)
                if s3 is None:
                    continue
                s3 = s3.copy()
                s3.mem[F_] = f2
                if isk(w, "agg") and w.a[0] == good:
                    if not fe:
                        s3.mem[X] = w.a[1][0]
                    out.append((s3, "cont"))
                elif isk(w, "agg"):
                    s3.mem[R] = w
                    out.append((s3, "brk"))
                else:
                    raise Unsupported("try_fold result")
        return out
    out = []
    for t, s, i2 in consume(E, st, it, item):
        s.mem.pop(F_, None)
        x, r = s.mem.pop(X), s.mem.pop(R)
        back_to_ref(E, s, inst, args, i2)
        out.append((s, r if t == "brk" else agg(good, x)))
    return out


def arith_add(E, st, a, b, t, span, op="Add"):
    T = T_(t)
    if T["kind"] == "float":
        return st, mkfl(T["bits"], ("op", op, a, b))
    lo, hi = int_range(T)
    r = add(toint(a), toint(b)) if op == "Add" else mul(toint(a), toint(b))
    st = E.require(st, "overflow", f"sum/product of an iterator stays in {T['bits']} bits", f_and([ge(sub(r, lo)), ge(sub(hi, r))]), span)
    return st, r


@model("Iterator::sum", "Iterator::product", "Iterator::count")
def _(E, st, inst, args, argtys, destty, span):
    it = self_iter(E, st, inst, args[0], argtys)
    m = inst["method"]
    t = destty if destty is not None else tyargs(inst)[-1]
    if m != "count" and T_(t)["kind"] not in ("int", "float"):
        return None
    st = st.copy()
    z = 1 if m == "product" else 0
    if T_(t)["kind"] == "float":
        z = mkfl(T_(t)["bits"], ("op", "const", z))
    if m == "count":
        n = iter_len(E, st, it)
        if n is not None and it.a[0][0] not in ("map", "inspect"):
            return [(st, n)]
    X = cell(st, z)

    def item(s, x):
        x = E.narrow(s, x)
        if m == "count":
            x = 1
        elif isk(x, "ptr") or isk(x, "refval"):
            x = E.read_ptr(s, x)
        s2, r = arith_add(E, s, s.mem[X], x, t, span, "Mul" if m == "product" else "Add")
        if s2 is None:
            return []
        s2 = s2.copy()
        s2.mem[X] = r
        return [(s2, "cont")]
    out = []
    for tg, s, _ in consume(E, st, it, item):
        out.append((s, s.mem.pop(X)))
    return out


def searcher(E, st, inst, args, argtys, span, wrap, on_hit, on_end, hit_when=True):
    it = by_ref_self(E, st, inst, args, argtys)
    fty = tyargs(inst)[-1]
    st = st.copy()
    F_, X, N = cell(st, args[1]), cell(st, UNDEF), cell(st, 0)

    def item(s, x):
        out = []
        s = s.copy()
        a = refto(E, s, x) if wrap else x
        for s2, r, f2 in E.call_value(s, s.mem[F_], fty, [a], span):
            for h, s3 in split(s2, tobool(r)):
                s3 = s3.copy()
                if wrap:
                    s3.mem.pop(a.a[0], None)
                s3.mem[F_] = f2
                if h == hit_when:
                    s3.mem[X] = x
                    out.append((s3, "hit"))
                else:
                    if inst["method"] == "position":
                        s3.mem[N] = add(toint(s3.mem[N]), 1)
                    out.append((s3, "cont"))
        return out
    out = []
    for t, s, i2 in consume(E, st, it, item):
        s.mem.pop(F_, None)
        x, n = s.mem.pop(X), s.mem.pop(N)
        back_to_ref(E, s, inst, args, i2)
        out.append((s, on_hit(x, n) if t == "hit" else on_end()))
    return out


@model("Iterator::any")
def _(E, st, inst, args, argtys, destty, span):
    return searcher(E, st, inst, args, argtys, span, False, lambda x, n: True, lambda: False)


@model("Iterator::all")
def _(E, st, inst, args, argtys, destty, span):
    return searcher(E, st, inst, args, argtys, span, False, lambda x, n: False, lambda: True, hit_when=False)


@model("Iterator::find")
def _(E, st, inst, args, argtys, destty, span):
    return searcher(E, st, inst, args, argtys, span, True, lambda x, n: some(x), lambda: NONE)


@model("Iterator::position")
def _(E, st, inst, args, argtys, destty, span):
    return searcher(E, st, inst, args, argtys, span, False, lambda x, n: some(n), lambda: NONE)


@model("Iterator::find_map")
def _(E, st, inst, args, argtys, destty, span):
    it = by_ref_self(E, st, inst, args, argtys)
    fm = mk_iter(("filter_map", tyargs(inst)[-1]), it, args[1])
    out = []
    for s, t, i2, x in one(E, st, fm):
        s = s.copy()
        back_to_ref(E, s, inst, args, i2.a[1][0] if isk(i2, "iter") else i2)
        out.append((s, some(x) if t == "item" else NONE))
    return out


@model("Iterator::last")
def _(E, st, inst, args, argtys, destty, span):
    it = self_iter(E, st, inst, args[0], argtys)
    n = iter_len(E, st, it)
    if n is not None and isk(it, "iter"):
        i2 = advance(E, st, it, sub(n, 1))
        if i2 is not None:
            out = []
            for h, s in split(st, lt(0, toint(n))):
                if h:
                    out += [(s2, some(x)) for s2, t, _, x in iter_step(E, s, i2) if t == "item"]
                else:
                    out.append((s, NONE))
            return out
    st = st.copy()
    X = cell(st, NONE)

    def item(s, x):
        s = s.copy()
        s.mem[X] = some(x)
        return [(s, "cont")]
    return [(s, s.mem.pop(X)) for t, s, _ in consume(E, st, it, item)]


@model("Iterator::nth")
def _(E, st, inst, args, argtys, destty, span):
    it = by_ref_self(E, st, inst, args, argtys)
    i2 = advance(E, st, it, toint(args[1]))
    if i2 is None:
        return None
    out = []
    for s, t, i3, x in iter_step(E, st, i2):
        s = s.copy()
        back_to_ref(E, s, inst, args, i3)
        out.append((s, some(x) if t == "item" else NONE))
    return out


@model("Iterator::size_hint")
def _(E, st, inst, args, argtys, destty, span):
    it = by_ref_self(E, st, inst, args, argtys)
    if isk(it, "iter") and it.a[0][0] == "user":
        m = T_(it.a[0][1])["methods"].get("Iterator::size_hint")
        return E.call_inst(st, m, args) if m is not None and "body" in interp.P.insts[m] and interp.P.insts[m]["crate"] in interp.MINE else [(st, agg(0, 0, NONE))]
    n = iter_len(E, st, it)
    if n is None:
        return [(st, agg(0, unk(0, ADDR), unkv()))]
    return [(st, agg(0, n, some(n)))]


@model("ExactSizeIterator::len")
def _(E, st, inst, args, argtys, destty, span):
    it = by_ref_self(E, st, inst, args, argtys)
    if isk(it, "iter") and it.a[0][0] == "user":
        # default: the lower bound of size_hint, asserted equal to the upper bound
        m = T_(it.a[0][1])["methods"].get("Iterator::size_hint")
        if m is None:
            return None
        out = []
        for s, v in E.call_inst(st, m, args):
            lo, hi = E.step(v, 0), E.step(v, 1)
            up = E.step(hi, ("v", 1))
            s = E.require(s, "panic", "ExactSizeIterator: size_hint is exact", mkcond_some_eq(hi, lo), span)
            if s is not None:
                out.append((s, lo))
        return out
    n = iter_len(E, st, it)
    return [(st, n if n is not None else unk(0, ADDR))]


def mkcond_some_eq(o, n):
    return f_or([f_and([c, eq(toint(w.a[1][0]), toint(n))]) for c, w in alts_of(o) if isk(w, "agg") and w.a[0] == 1])


@model("Iterator::max", "Iterator::min")
def _(E, st, inst, args, argtys, destty, span):
    it = self_iter(E, st, inst, args[0], argtys)
    mx = inst["method"] == "max"
    st = st.copy()
    X = cell(st, NONE)

    def item(s, x):
        s = s.copy()
        cur = s.mem[X]
        v = x
        xv = toint(deep(E, s, x))
        alts = []
        for c, w in alts_of(cur):
            if isk(w, "agg") and w.a[0] == 1:
                wv = toint(deep(E, s, w.a[1][0]))
                keep = lt(xv, wv) if mx else le(wv, xv)
                alts += [(f_and([c, keep]), w), (f_and([c, fnot(keep)]), some(x))]
            else:
                alts.append((c, some(x)))
        s.mem[X] = mkcase(alts)
        return [(s, "cont")]
    return [(s, s.mem.pop(X)) for t, s, _ in consume(E, st, it, item)]


def best_of(E, st, it, span, later_wins, keyed, call):
    """max_by_key / min_by_key / max_by / min_by: the best element so far as a guarded value."""
    st = st.copy()
    X, K = cell(st, NONE), cell(st, 0)

    def item(s, x):
        out = []
        for s2, k in call(s, x):
            s2 = s2.copy()
            cur, old = s2.mem[X], s2.mem[K]
            alts, keys = [], []
            for c, w in alts_of(cur):
                if not (isk(w, "agg") and w.a[0] == 1):
                    alts.append((c, some(x)))
                    keys.append((c, k))
                    continue
                if later_wins is True:
                    keep = lt(toint(k), toint(old))
                else:
                    keep = le(toint(old), toint(k))
                alts += [(f_and([c, keep]), w), (f_and([c, fnot(keep)]), some(x))]
                keys += [(f_and([c, keep]), old), (f_and([c, fnot(keep)]), k)]
            s2.mem[X] = mkcase(alts)
            s2.mem[K] = toint(mkcase(keys))
            out.append((s2, "cont"))
        return out
    out = []
    for t, s, _ in consume(E, st, it, item):
        s.mem.pop(K)
        out.append((s, s.mem.pop(X)))
    return out


@model("Iterator::max_by_key", "Iterator::min_by_key")
def _(E, st, inst, args, argtys, destty, span):
    it = self_iter(E, st, inst, args[0], argtys)
    fty = tyargs(inst)[-1]
    if T_(tyargs(inst)[-2])["kind"] not in ("int", "char", "bool"):
        return None
    st = st.copy()
    F_ = cell(st, args[1])

    def call(s, x):
        s = s.copy()
        r = refto(E, s, x)
        out = []
        for s2, k, f2 in E.call_value(s, s.mem[F_], fty, [r], span):
            s2 = s2.copy()
            s2.mem[F_] = f2
            s2.mem.pop(r.a[0], None)
            out.append((s2, toint(k)))
        return out
    out = best_of(E, st, it, span, inst["method"] == "max_by_key", True, call)
    for s, _ in out:
        s.mem.pop(F_, None)
    return out


@model("Iterator::reduce")
def _(E, st, inst, args, argtys, destty, span):
    it = self_iter(E, st, inst, args[0], argtys)
    fty = tyargs(inst)[-1]
    st = st.copy()
    F_, X = cell(st, args[1]), cell(st, NONE)

    def item(s, x):
        out = []
        for c, w in alts_of(E.narrow(s, s.mem[X])):
            s1 = s.assume(c)
            if s1 is None:
                continue
            if not (isk(w, "agg") and w.a[0] == 1):
                s1 = s1.copy()
                s1.mem[X] = some(x)
                out.append((s1, "cont"))
                continue
            for s2, r, f2 in E.call_value(s1, s1.mem[F_], fty, [w.a[1][0], x], span):
                s2 = s2.copy()
                s2.mem[F_], s2.mem[X] = f2, some(r)
                out.append((s2, "cont"))
        return out
    out = []
    for t, s, _ in consume(E, st, it, item):
        s.mem.pop(F_, None)
        out.append((s, s.mem.pop(X)))
    return out


# -- collect
def collect_vec(E, st, it, t, span, what):
    """[(state, vec value)]"""
    st = st.copy()
    n = iter_len(E, st, it)
    if n is not None:
        alloc_event(E, st, n, tsize(t) if t is not None else 1, span, what)
    else:
        E.event(st, "grow", n=None, size=tsize(t) if t is not None else 1, span=span, what=what)
    X = cell(st, vec(seq_list([])))

    def item(s, x):
        s = s.copy()
        v = s.mem[X]
        nn = add(toint(v.a[1]), 1)
        s.mem[X] = mkv("vec", cat([v.a[0], seq_list([x])]), nn, nn)
        return [(s, "cont")]
    return [(s, s.mem.pop(X)) for tg, s, _ in consume(E, st, it, item)]


def collect_into(E, st, it, t, span, what):
    T = T_(t)
    if T["kind"] == "adt":
        last = T["path"].split("::")[-1]
        if last == "Vec":
            return collect_vec(E, st, it, T["args"][0], span, what)
        if last == "Arc" and T_(T["args"][0])["kind"] == "slice":
            out = []
            for s, v in collect_vec(E, st, it, T_(T["args"][0])["elem"], span, what):
                s = s.copy()
                out.append((s, mkv("arc", E.alloc(s, v, "arc"))))
            return out
        if last in ("Option", "Result"):
            good = 1 if last == "Option" else 0
            inner = T["args"][0]
            st = st.copy()
            R = cell(st, UNDEF)
            it2 = mk_iter(("shunt", good, R), it)
            TI = T_(inner)
            if not (TI["kind"] == "adt" and TI["path"].split("::")[-1] == "Vec") and not (TI["kind"] == "tuple" and not TI["fields"]):
                return None
            E.event(st, "grow", n=None, size=8, span=span, what=what)
            X = cell(st, vec(seq_list([])))

            def item(s, x):
                out = []
                for c, w in alts_of(E.narrow(s, x)):
                    s2 = s.assume(c)
                    if s2 is None:
                        continue
                    s2 = s2.copy()
                    if isk(w, "agg") and w.a[0] == good:
                        v = s2.mem[X]
                        nn = add(toint(v.a[1]), 1)
                        s2.mem[X] = mkv("vec", cat([v.a[0], seq_list([w.a[1][0]])]), nn, nn)
                        out.append((s2, "cont"))
                    else:
                        s2.mem[R] = w
                        out.append((s2, "brk"))
                return out
            out = []
            for tg, s, _ in consume(E, st, it, item):
                v, r = s.mem.pop(X), s.mem.pop(R)
                if TI["kind"] == "tuple":
                    v = UNIT
                out.append((s, r if tg == "brk" else agg(good, v)))
            return out
        if last == "String":
            return [(st, mkv("str", ("fn", "collect", fresh_id())))]
    if T["kind"] == "tuple" and not T["fields"]:
        return [(s, UNIT) for tg, s, _ in consume(E, st, it, lambda s, x: [(s, "cont")])]
    return None


@model("Iterator::collect", "FromIterator::from_iter")
def _(E, st, inst, args, argtys, destty, span):
    if inst["method"] == "from_iter":
        it = as_iter(E, st, args[0], argtys[0] if argtys else tyargs(inst)[-1])
        t = destty
    else:
        it = self_iter(E, st, inst, args[0], argtys)
        t = tyargs(inst)[-1]
    if t is None:
        return None
    return collect_into(E, st, it, t, span, "collect")


@model("Extend::extend")
def _(E, st, inst, args, argtys, destty, span):
    if "Vec" not in inst.get("impl_self", ""):
        return None
    a = tyargs(inst)
    it = as_iter(E, st, args[1], argtys[1] if argtys else a[-1])
    p = args[0]
    if "'a" in inst.get("name", "") or inst.get("impl_trait", "").find("&'a") >= 0 or (isk(it, "iter") and it.a[0][0] == "slice"):
        it = mk_iter(("copied",), it)
    n = iter_len(E, st, it)

    def item(s, x):
        s = s.copy()
        vec_push(E, s, p, x, a[0], span)
        return [(s, "cont")]
    return [(s, UNIT) for tg, s, _ in consume(E, st, it, item)]


# ------------------------------------------------------------------ clone / eq / default / conversions
def clone(E, st, v):
    if isk(v, "vec"):
        return mkv("vec", content(v), v.a[1], v.a[1])
    return v


@model("Clone::clone", "ToOwned::to_owned")
def _(E, st, inst, args, argtys, destty, span):
    v = E.read_ptr(st, args[0])
    if isk(args[0], "str"):
        return [(st, args[0])]
    if isk(args[0], "ptr") and args[0].a[5] is not None:
        s, n = slice_val(E, st, args[0])
        e = args[0].a[2]
        alloc_event(E, st, n, tsize(e) or 1, span, "to_owned")
        return [(st, vec(s, n))]
    v = E.narrow(st, v)
    if isk(v, "vec"):
        e = first_ty(inst)
        alloc_event(E, st, v.a[1], tsize(e) or 1, span, "Vec::clone")
    if "Cow" in inst.get("impl_self", "") or isk(v, "vec") or isk(v, "arc") or isk(v, "str") or isk(v, "iter") or isint(v) or isbool(v) or isk(v, "fl"):
        return [(st, clone(E, st, v))]
    return [(st, clone(E, st, v))]


def vals_eq(E, st, a, b):
    a, b = deep(E, st, a), deep(E, st, b)
    for x in (a, b):
        if isk(x, "ptr") and x.a[5] is not None:
            pass
    sa, na = vec_of(a)
    sb, nb = vec_of(b)
    if sa is not None and sb is not None:
        if same(na, 0) and same(nb, 0):
            return True
        le_ = eq(toint(na), toint(nb))
        if le_ is False:
            return False
        if isinstance(na, int) and isinstance(nb, int) and na == nb:
            return f_and([vals_eq(E, st, seq_get(sa, i), seq_get(sb, i)) for i in range(na)])
        if same(sa, sb):
            return le_
        i = new_idx()
        body = vals_eq(E, st, seq_get(sa, A(i)), seq_get(sb, A(i)))
        return f_and([le_, forall(toint(na), body, i)])
    if isk(a, "agg") and isk(b, "agg") and a.a[0] == b.a[0]:
        return f_and([vals_eq(E, st, x, y) for x, y in zip(a.a[1], b.a[1])])
    if isk(a, "case"):
        return f_or([f_and([c, vals_eq(E, st, w, b)]) for c, w in a.a])
    if isk(b, "case"):
        return f_or([f_and([c, vals_eq(E, st, a, w)]) for c, w in b.a])
    return veq(a, b)


@model("PartialEq::eq", "PartialEq::ne")
def _(E, st, inst, args, argtys, destty, span):
    a, b = args
    # user types compare through their own implementation
    ne = inst["method"] == "ne"
    if ne and inst.get("trait"):
        t = first_ty(inst)
        T = T_(t) if t is not None else None
        if T is not None and T["kind"] == "adt" and T.get("crate") in interp.MINE:
            # the provided method: the negation of eq
            for n, i in enumerate(interp.P.insts):
                if i.get("method") == "eq" and i.get("impl_self") == T["path"] and str(i.get("impl_trait", "")).endswith("PartialEq") and "body" in i:
                    return [(s, fnot(tobool(v))) for s, v in E.call_inst(st, n, [a, b], span)]
            return None
    r = vals_eq(E, st, slice_or(E, st, a), slice_or(E, st, b))
    return [(st, fnot(r) if ne else r)]


def slice_or(E, st, v):
    v = E.narrow(st, v)
    if isk(v, "ptr") and v.a[5] is not None:
        s, n = slice_val(E, st, v)
        return mkv("vec", s, n, n)
    return v


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _(E, st, inst, args, argtys, destty, span):
    a, b = deep(E, st, args[0]), deep(E, st, args[1])
    if not (isint(a) or isk(a, "case")) or not (isint(b) or isk(b, "case")):
        return None
    a, b = toint(a), toint(b)
    return [(st, {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[inst["method"]])]


@model("Ord::cmp")
def _(E, st, inst, args, argtys, destty, span):
    a, b = deep(E, st, args[0]), deep(E, st, args[1])
    if not isint(a) or not isint(b):
        return None
    return [(st, mkcase([(lt(a, b), agg(0)), (eq(a, b), agg(1)), (lt(b, a), agg(2))]))]


@model("Ord::min", "Ord::max", "cmp::min", "cmp::max", "num::min", "num::max")
def _(E, st, inst, args, argtys, destty, span):
    a, b = args
    if not (isint(a) or isk(a, "case")) or not (isint(b) or isk(b, "case")):
        return None
    a, b = toint(a), toint(b)
    m = inst.get("method") or inst["path"].split("::")[-1]
    if m == "min":
        return [(st, tmin(a, b))]
    if same(a, b):
        return [(st, a)]
    if le(a, b) is True:
        return [(st, b)]
    if le(b, a) is True:
        return [(st, a)]
    return [(st, toint(mkcase([(le(a, b), b), (lt(b, a), a)])))]


@model("Ord::clamp")
def _(E, st, inst, args, argtys, destty, span):
    a, lo, hi = [toint(x) for x in args]
    st = E.require(st, "panic", "clamp: min <= max", le(lo, hi), span)
    if st is None:
        return []
    return [(st, toint(mkcase([(lt(a, lo), lo), (lt(hi, a), hi), (f_and([le(lo, a), le(a, hi)]), a)])))]


def default_of(E, st, t):
    T = T_(t)
    k = T["kind"]
    if k in ("int", "char"):
        return 0
    if k == "bool":
        return False
    if k == "float":
        return interp.from_bytes([0] * (T["bits"] // 8), t)
    if k == "array":
        x = default_of(E, st, T["elem"])
        return None if x is None else (seq_list([x] * T["len"]) if T["len"] <= 256 else mkv("rep", T["len"], x))
    if k == "tuple":
        xs = [default_of(E, st, f) for f in T["fields"]]
        return None if None in xs else mkv("agg", 0, tuple(xs))
    if k == "ref" and T_(T["to"])["kind"] == "str":
        return s_lit("")
    if k == "adt":
        last = T["path"].split("::")[-1]
        if last == "Vec":
            return vec(seq_list([]))
        if last == "String":
            return s_lit("")
        if last == "Option":
            return NONE
        m = T.get("methods", {}).get("Default::default")
        if m is not None:
            r = E.call_inst(st, m, [])
            if len(r) == 1:
                return r[0][1]
        if last == "PhantomData":
            return UNIT
    return None


@model("Default::default")
def _(E, st, inst, args, argtys, destty, span):
    if destty is None:
        return None
    T = T_(destty)
    if T["kind"] == "adt" and T.get("crate") in interp.MINE:
        return None
    v = default_of(E, st, destty)
    return None if v is None else [(st, v)]


@model("mem::take")
def _(E, st, inst, args, argtys, destty, span):
    v = E.read_ptr(st, args[0])
    d = default_of(E, st, first_ty(inst))
    if d is None:
        return None
    st = st.copy()
    E.write_ptr(st, args[0], d)
    return [(st, v)]


@model("mem::replace")
def _(E, st, inst, args, argtys, destty, span):
    v = E.read_ptr(st, args[0])
    st = st.copy()
    E.write_ptr(st, args[0], args[1])
    return [(st, v)]


@model("mem::swap")
def _(E, st, inst, args, argtys, destty, span):
    a, b = E.read_ptr(st, args[0]), E.read_ptr(st, args[1])
    st = st.copy()
    E.write_ptr(st, args[0], b)
    E.write_ptr(st, args[1], a)
    return [(st, UNIT)]


@model("mem::drop", "mem::forget", "drop_in_place::drop_in_place")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, UNIT)]


@model("mem::size_of", "intr::size_of")
def _(E, st, inst, args, argtys, destty, span):
    n = tsize(first_ty(inst))
    return None if n is None else [(st, n)]


@model("mem::align_of", "intr::align_of", "intr::min_align_of")
def _(E, st, inst, args, argtys, destty, span):
    n = T_(first_ty(inst)).get("align")
    return None if n is None else [(st, n)]


@model("mem::size_of_val", "intr::size_of_val")
def _(E, st, inst, args, argtys, destty, span):
    t = first_ty(inst)
    if T_(t)["kind"] == "slice":
        return [(st, scale(toint(slen(E, st, args[0])), tsize(T_(t)["elem"])))]
    n = tsize(t)
    return None if n is None else [(st, n)]


@model("mem::zeroed")
def _(E, st, inst, args, argtys, destty, span):
    t = first_ty(inst)
    return [(st, interp.from_bytes([0] * tsize(t), t))]


@model("mem::needs_drop", "intr::needs_drop")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, unkb())]


# ------------------------------------------------------------------ conversions
@model("From::from", "TryFrom::try_from")
def _(E, st, inst, args, argtys, destty, span):
    m = inst["method"]
    s = inst.get("impl_self", "")
    v = args[0]
    if destty is None:
        return None
    D = T_(destty)
    if m == "try_from":
        # integer narrowing: impl TryFrom<A> for B
        if D["kind"] == "adt" and D["path"].split("::")[-1] == "Result":
            t = D["args"][0]
            T = T_(t)
            if T["kind"] == "int" and (isint(v) or isk(v, "case")):
                lo, hi = int_range(T)
                x = toint(v)
                c = f_and([ge(sub(x, lo)), ge(sub(hi, x))])
                return [(st.assume(c), ok(x)) if c is not False else (None, None), (st.assume(fnot(c)), err(UNIT)) if c is not True else (None, None)]
            if T["kind"] == "array" or (T["kind"] == "ref" and T_(T["to"])["kind"] == "array"):
                n = T["len"] if T["kind"] == "array" else T_(T["to"])["len"]
                if isk(v, "vec"):
                    c = eq(toint(v.a[1]), n)
                    val = seq_sub(v.a[0], 0, n)
                else:
                    p = as_slice(E, st, v)
                    c = eq(toint(slen(E, st, p)), n)
                    if T["kind"] == "array":
                        e = T["elem"]
                        val = seq_list([E.read_ptr(st, elem_ptr(E, p, i)) for i in range(n)]) if c is not False else UNDEF
                    else:
                        q = mkv("ptr", *p.a[:5], None)
                        val = mkv("ptr", p.a[0], p.a[1], T["to"], p.a[3], p.a[4], None)
                return [(st.assume(c), ok(val)) if c is not False else (None, None), (st.assume(fnot(c)), err(UNIT)) if c is not True else (None, None)]
        return None
    k = D["kind"]
    if k == "int" and (isint(v) or isk(v, "case")):
        return [(st, v)]
    if k == "int" and isbool(v):
        return [(st, ind(v))]
    if k == "float":
        if isk(v, "fl"):
            return [(st, E.cast(st, "FloatToFloat", v, argtys[0] if argtys else None, destty, span))] if argtys else None
        return [(st, mkfl(D["bits"], ("int", v)))]
    if k == "adt":
        last = D["path"].split("::")[-1]
        if last == "String":
            x = deep(E, st, v)
            if isk(x, "agg") and len(x.a[1]) == 1:
                x = x.a[1][0]
            return [(st, x)]
        if last == "Cow":
            x = deep(E, st, v)
            if isk(x, "str"):
                return [(st, agg(1 if isk(v, "str") and argtys and T_(argtys[0])["kind"] == "adt" else 0, x))]
        if last == "Vec":
            if isk(v, "list"):
                return [(st, vec(v))]
            if isk(v, "vec"):
                return [(st, v)]
            p = as_slice(E, st, v)
            if isk(p, "ptr"):
                sv, n = slice_val(E, st, p)
                alloc_event(E, st, n, tsize(p.a[2]) or 1, span, "Vec::from")
                return [(st, vec(sv, n))]
        if last == "Arc":
            inner = T_(D["args"][0])
            if inner["kind"] == "slice":
                st = st.copy()
                if isk(v, "vec"):
                    x = mkv("vec", content(v), v.a[1], v.a[1])
                elif isk(v, "box"):
                    x = E.getobj(st, v.a[0])
                else:
                    sv, n = slice_val(E, st, as_slice(E, st, v))
                    x = vec(sv, n)
                alloc_event(E, st, x.a[1] if isk(x, "vec") else unk(0, ADDR), tsize(inner["elem"]), span, "Arc::from")
                return [(st, mkv("arc", E.alloc(st, x, "arc")))]
        if last == "Box":
            inner = T_(D["args"][0])
            if inner["kind"] == "slice" and isk(v, "vec"):
                st = st.copy()
                return [(st, mkv("box", E.alloc(st, v)))]
    return None


@model("Into::into", "TryInto::try_into")
def _(E, st, inst, args, argtys, destty, span):
    return None


@model("AsRef::as_ref", "Borrow::borrow", "Deref::deref", "DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut")
def _(E, st, inst, args, argtys, destty, span):
    p = E.narrow(st, args[0])
    s = inst.get("impl_self", "")
    m = inst["method"]
    if "ManuallyDrop" in s or "MaybeUninit" in s:
        if isk(p, "ptr"):
            return [(st, p)]
        return None
    if isk(p, "str") or (isk(p, "ptr") and p.a[5] is not None):
        return [(st, p)]
    v = E.narrow(st, E.read_ptr(st, p))
    if "Cow" in s:
        return [(st, mkcase([(c, w.a[1][0] if isk(w, "agg") else unkv("cow", w)) for c, w in alts_of(v)]))]
    if s.startswith("&") and m in ("deref", "deref_mut"):
        return [(st, v)]
    if isk(v, "str"):
        return [(st, v)]
    if isk(v, "arc"):
        e = None
        if inst.get("args") and T_(first_ty(inst))["kind"] == "slice":
            return [(st, as_slice(E, st, v, T_(first_ty(inst))["elem"]))]
        return [(st, ptr_to(v.a[0], (), first_ty(inst)))]
    if isk(v, "box"):
        t = first_ty(inst)
        if T_(t)["kind"] == "slice":
            return [(st, as_slice(E, st, ptr_to(v.a[0], (), None), T_(t)["elem"]))]
        return [(st, ptr_to(v.a[0], (), t))]
    if isk(v, "vec") or "Vec" in s or "[T" in s:
        return [(st, as_slice(E, st, p, first_ty(inst)))]
    if isk(v, "ptr") and v.a[5] is not None:
        return [(st, v)]
    if isk(v, "unk") and "Arc" in s:
        e = T_(first_ty(inst)).get("elem")
        o = E.alloc(st, vec(unkv("arcbuf", v), A(atom("unk", mkv("len", v), lo=0, hi=ADDR))), "arc")
        return [(st, slice_ptr(o, ("buf",), e, 0, E.getobj(st, o).a[1]))] if e is not None else None
    if "String" in s or s == "str":
        return [(st, mkv("str", ("fn", "deref", v)))]
    return None


# ------------------------------------------------------------------ vec
@model("Vec::new")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, mkv("vec", seq_list([]), 0, 0))]


@model("Vec::with_capacity")
def _(E, st, inst, args, argtys, destty, span):
    n = toint(args[0])
    t = first_ty(inst)
    alloc_event(E, st, n, tsize(t) or 0, span, "Vec::with_capacity")
    return [(st, mkv("vec", seq_list([]), 0, n))]


@model("Vec::len")
def _(E, st, inst, args, argtys, destty, span):
    v = read_vec(E, st, args[0])
    return [(st, v.a[1])]


@model("Vec::capacity")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, read_vec(E, st, args[0]).a[2])]


@model("Vec::is_empty")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, eq(toint(read_vec(E, st, args[0]).a[1]), 0))]


@model("slice::is_empty", "array::is_empty")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, eq(toint(slen(E, st, as_slice(E, st, args[0], first_ty(inst)))), 0))]


@model("slice::len", "array::len")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, slen(E, st, as_slice(E, st, args[0], first_ty(inst))))]


@model("Vec::push")
def _(E, st, inst, args, argtys, destty, span):
    st = st.copy()
    vec_push(E, st, args[0], args[1], first_ty(inst), span)
    return [(st, UNIT)]


@model("Vec::pop")
def _(E, st, inst, args, argtys, destty, span):
    v = read_vec(E, st, args[0])
    n = toint(v.a[1])
    out = []
    for h, s in split(st, lt(0, n)):
        if h:
            s = s.copy()
            m = sub(n, 1)
            E.write_ptr(s, args[0], mkv("vec", interp.truncate(v.a[0], m), m, v.a[2]))
            out.append((s, some(seq_get(v.a[0], m))))
        else:
            out.append((s, NONE))
    return out


@model("Vec::reserve", "Vec::reserve_exact", "Vec::shrink_to_fit")
def _(E, st, inst, args, argtys, destty, span):
    st = st.copy()
    v = read_vec(E, st, args[0])
    if inst["method"] != "shrink_to_fit":
        n = add(toint(v.a[1]), toint(args[1]))
        alloc_event(E, st, n, tsize(first_ty(inst)) or 0, span, "Vec::reserve")
        c = toint(v.a[2])
        E.write_ptr(st, args[0], mkv("vec", v.a[0], v.a[1], n if le(c, n) is True else toint(mkcase([(le(c, n), n), (lt(n, c), c)]))))
    return [(st, UNIT)]


@model("Vec::resize", "Vec::resize_with")
def _(E, st, inst, args, argtys, destty, span):
    if inst["method"] == "resize_with":
        return None
    st = st.copy()
    v = read_vec(E, st, args[0])
    n = toint(args[1])
    old = toint(v.a[1])
    c = toint(v.a[2])
    if not (le(n, c) is True):
        alloc_event(E, st, n, tsize(first_ty(inst)) or 0, span, "Vec::resize")
    d = sub(n, old)
    cap = n if le(c, n) is True else toint(mkcase([(le(c, n), n), (lt(n, c), c)]))
    x = args[2]
    grow = lambda: mkv("vec", cat([content(v), seq_list([x] * d) if isinstance(d, int) and d <= 64 else mkv("rep", d, x)]), n, cap)
    shrink = lambda: mkv("vec", interp.truncate(v.a[0], n), n, cap)
    c = ge(d)
    if c is True:
        r = grow()
    elif c is False:
        r = shrink()
    elif solve.prove(lits(st), c, E.axioms, 2):
        r = grow()
    else:
        r = mkcase([(c, grow()), (fnot(c), shrink())])
    E.write_ptr(st, args[0], r)
    return [(st, UNIT)]


@model("Vec::truncate", "Vec::clear", "Vec::set_len")
def _(E, st, inst, args, argtys, destty, span):
    st = st.copy()
    v = read_vec(E, st, args[0])
    m = inst["method"]
    if m == "clear":
        E.write_ptr(st, args[0], mkv("vec", seq_list([]), 0, v.a[2]))
        return [(st, UNIT)]
    n = toint(args[1])
    old = toint(v.a[1])
    if m == "set_len":
        E.oblige(st, "ub", f"set_len({show(n)}) within capacity {showv(v.a[2])}", le(n, toint(v.a[2])), span)
        E.event(st, "set_len", n=n, vec=v, span=span, elem=first_ty(inst))
        E.write_ptr(st, args[0], mkv("vec", v.a[0], n, v.a[2]))
        return [(st, UNIT)]
    out = []
    for h, s in split(st, lt(n, old)):
        if h:
            s = s.copy()
            E.write_ptr(s, args[0], mkv("vec", interp.truncate(v.a[0], n), n, v.a[2]))
        out.append((s, UNIT))
    return out


@model("Vec::extend_from_slice")
def _(E, st, inst, args, argtys, destty, span):
    st = st.copy()
    v = read_vec(E, st, args[0])
    s, n = slice_val(E, st, as_slice(E, st, args[1], first_ty(inst)))
    n = toint(n)
    total = add(toint(v.a[1]), n)
    c = toint(v.a[2])
    cap = c
    if isinstance(c, int) and isinstance(total, int):
        cap = max(c, total)
    elif not solve.prove(lits(st), le(total, c), E.axioms, 2):
        E.event(st, "grow", n=total, size=tsize(first_ty(inst)), span=span, what="extend_from_slice")
        cap = toint(mkcase([(le(total, c), c), (lt(c, total), total)]))
    E.write_ptr(st, args[0], mkv("vec", cat([v.a[0], s]), total, cap))
    return [(st, UNIT)]


@model("Vec::append")
def _(E, st, inst, args, argtys, destty, span):
    st = st.copy()
    v, w = read_vec(E, st, args[0]), read_vec(E, st, args[1])
    n = add(toint(v.a[1]), toint(w.a[1]))
    E.write_ptr(st, args[0], mkv("vec", cat([v.a[0], content(w)]), n, n))
    E.write_ptr(st, args[1], mkv("vec", seq_list([]), 0, w.a[2]))
    return [(st, UNIT)]


@model("Vec::insert")
def _(E, st, inst, args, argtys, destty, span):
    v = read_vec(E, st, args[0])
    i = toint(args[1])
    n = toint(v.a[1])
    st = E.require(st, "panic", "Vec::insert index", le(i, n), span)
    if st is None:
        return []
    st = st.copy()
    E.write_ptr(st, args[0], mkv("vec", cat([seq_sub(v.a[0], 0, i), seq_list([args[2]]), seq_sub(v.a[0], i, sub(n, i))]), add(n, 1), add(n, 1)))
    return [(st, UNIT)]


@model("Vec::remove", "Vec::swap_remove")
def _(E, st, inst, args, argtys, destty, span):
    v = read_vec(E, st, args[0])
    i, n = toint(args[1]), toint(v.a[1])
    st = E.require(st, "panic", "Vec::remove index", lt(i, n), span)
    if st is None:
        return []
    st = st.copy()
    x = seq_get(v.a[0], i)
    if inst["method"] == "remove":
        s = cat([seq_sub(v.a[0], 0, i), seq_sub(v.a[0], add(i, 1), sub(sub(n, i), 1))])
    else:
        s = seq_sub(seq_set(v.a[0], i, seq_get(v.a[0], sub(n, 1))), 0, sub(n, 1))
    E.write_ptr(st, args[0], mkv("vec", s, sub(n, 1), v.a[2]))
    return [(st, x)]


@model("Vec::as_slice", "Vec::as_mut_slice", "array::as_slice", "array::as_mut_slice")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, as_slice(E, st, args[0], first_ty(inst)))]


@model("Vec::as_ptr", "Vec::as_mut_ptr", "slice::as_ptr", "slice::as_mut_ptr", "array::as_ptr")
def _(E, st, inst, args, argtys, destty, span):
    p = as_slice(E, st, args[0], first_ty(inst))
    return [(st, lift(lambda q: mkv("ptr", *q.a[:5], None) if isk(q, "ptr") and q.a[3] != "p" else q, p))]


@model("vec::from_elem")
def _(E, st, inst, args, argtys, destty, span):
    n = toint(args[1])
    t = first_ty(inst)
    alloc_event(E, st, n, tsize(t) or 0, span, "vec![x; n]")
    s = seq_list([args[0]] * n) if isinstance(n, int) and n <= 64 else mkv("rep", n, args[0])
    return [(st, mkv("vec", s, n, n))]


@model("slice::into_vec", "boxed::box_new", "slice::box_assume_init_into_vec_unsafe", "boxed::box_assume_init_into_vec_unsafe")
def _(E, st, inst, args, argtys, destty, span):
    v = args[0]
    if isk(v, "box"):
        w = E.getobj(st, v.a[0])
        if isk(w, "list"):
            return [(st, vec(w))]
        if isk(w, "agg"):
            while isk(w, "agg") and len(w.a[1]) >= 1:
                w = w.a[1][-1]
            if isk(w, "list"):
                return [(st, vec(w))]
            if isk(w, "un"):
                t = first_ty(inst)
                n = [a["const"] for a in inst["args"] if isinstance(a, dict)]
                if n:
                    e = tsize(t)
                    return [(st, vec(seq_list([interp.from_bytes(list(w.a[0][i * e:(i + 1) * e]), t) for i in range(n[0])])))]
        if isk(w, "un"):
            return None
        if isk(w, "vec"):
            return [(st, w)]
    return None


@model("Box::new", "boxed::box_new")
def _(E, st, inst, args, argtys, destty, span):
    st = st.copy()
    return [(st, mkv("box", E.alloc(st, args[0])))]


@model("Arc::new", "Rc::new")
def _(E, st, inst, args, argtys, destty, span):
    st = st.copy()
    return [(st, mkv("arc", E.alloc(st, args[0], "arc")))]


@model("Vec::into_boxed_slice")
def _(E, st, inst, args, argtys, destty, span):
    st = st.copy()
    return [(st, mkv("box", E.alloc(st, args[0])))]


@model("slice::to_vec", "str::to_owned")
def _(E, st, inst, args, argtys, destty, span):
    s, n = slice_val(E, st, as_slice(E, st, args[0], first_ty(inst)))
    alloc_event(E, st, n, tsize(first_ty(inst)) or 0, span, "to_vec")
    return [(st, vec(s, n))]


# ------------------------------------------------------------------ slices
def range_bounds(E, v, t, n):
    """(lo, hi) of a range index value of type t on a slice of length n."""
    last = T_(t)["path"].split("::")[-1]
    f = v.a[1] if isk(v, "agg") else ()
    if last == "Range":
        return toint(f[0]), toint(f[1])
    if last == "RangeTo":
        return 0, toint(f[0])
    if last == "RangeFrom":
        return toint(f[0]), n
    if last == "RangeFull":
        return 0, n
    if last == "RangeInclusive":
        return toint(f[0]), add(toint(f[1]), 1)
    if last == "RangeToInclusive":
        return 0, add(toint(f[0]), 1)
    return None


def range_arg_ty(inst, argtys, n=1):
    if argtys and len(argtys) > n and T_(argtys[n])["kind"] == "adt":
        return argtys[n]
    for a in tyargs(inst):
        if is_range_ty(a):
            return a
    return None


@model("Index::index", "IndexMut::index_mut", "slice::get", "slice::get_mut", "slice::get_unchecked", "slice::get_unchecked_mut", "SliceIndex::index", "SliceIndex::index_mut", "SliceIndex::get")
def _(E, st, inst, args, argtys, destty, span):
    m = inst["method"]
    if inst.get("impl_self", "").split("<")[0].split("::")[-1] in ("HashMap", "BTreeMap", "VecDeque", "String") or inst.get("impl_self") == "str":
        return None
    if "SliceIndex" in (inst.get("trait") or inst.get("impl_trait") or ""):
        args = [args[1], args[0]]
        argtys = [argtys[1], argtys[0]] if argtys else None
    e = None
    p = as_slice(E, st, args[0], first_ty(inst) if T_(first_ty(inst))["kind"] != "adt" or True else None)
    if not (isk(p, "ptr") or isk(p, "case")):
        return None
    n = toint(slen(E, st, p))
    i = args[1]
    if isk(i, "case"):
        i = toint(i) if all(isint(w) for _, w in i.a) else i
    if isint(i):
        c = lt(i, n)
        if m.startswith("get_unchecked"):
            E.oblige(st, "ub", f"get_unchecked({show(i)}) below length {show(n)}", c, span)
            return [(st, elem_ptr(E, p, i))]
        if m.startswith("get"):
            return [(s, some(elem_ptr(E, p, i)) if h else NONE) for h, s in split(st, c)]
        st = E.require(st, "bounds", f"index {show(i)} below length {show(n)}", c, span)
        return [(st, elem_ptr(E, p, i))] if st is not None else []
    t = range_arg_ty(inst, argtys)
    if t is None or not is_range_ty(t):
        return None
    r = range_bounds(E, i, t, n)
    if r is None:
        return None
    lo, hi = r
    c = f_and([le(lo, hi), le(hi, n)])
    q = sub_ptr(E, p, lo, sub(hi, lo))
    if m.startswith("get_unchecked"):
        E.oblige(st, "ub", f"get_unchecked range {show(lo)}..{show(hi)} within {show(n)}", c, span)
        return [(st, q)]
    if m.startswith("get"):
        return [(s, some(q) if h else NONE) for h, s in split(st, c)]
    st = E.require(st, "bounds", f"range {show(lo)}..{show(hi)} within length {show(n)}", c, span)
    return [(st, q)] if st is not None else []


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def _(E, st, inst, args, argtys, destty, span):
    p = as_slice(E, st, args[0], first_ty(inst))
    n = toint(slen(E, st, p))
    i = 0 if inst["method"].startswith("first") else sub(n, 1)
    return [(s, some(elem_ptr(E, p, i)) if h else NONE) for h, s in split(st, lt(0, n))]


@model("slice::split_at", "slice::split_at_mut", "slice::split_at_checked")
def _(E, st, inst, args, argtys, destty, span):
    p = as_slice(E, st, args[0], first_ty(inst))
    n, i = toint(slen(E, st, p)), toint(args[1])
    if inst["method"].endswith("checked"):
        return [(s, some(agg(0, sub_ptr(E, p, 0, i), sub_ptr(E, p, i, sub(n, i)))) if h else NONE) for h, s in split(st, le(i, n))]
    st = E.require(st, "bounds", "split_at within length", le(i, n), span)
    if st is None:
        return []
    return [(st, agg(0, sub_ptr(E, p, 0, i), sub_ptr(E, p, i, sub(n, i))))]


@model("slice::split_first", "slice::split_last")
def _(E, st, inst, args, argtys, destty, span):
    p = as_slice(E, st, args[0], first_ty(inst))
    n = toint(slen(E, st, p))
    out = []
    for h, s in split(st, lt(0, n)):
        if not h:
            out.append((s, NONE))
        elif inst["method"] == "split_first":
            out.append((s, some(agg(0, elem_ptr(E, p, 0), sub_ptr(E, p, 1, sub(n, 1))))))
        else:
            out.append((s, some(agg(0, elem_ptr(E, p, sub(n, 1)), sub_ptr(E, p, 0, sub(n, 1))))))
    return out


@model("slice::copy_from_slice", "slice::clone_from_slice")
def _(E, st, inst, args, argtys, destty, span):
    t = first_ty(inst)
    d, s = as_slice(E, st, args[0], t), as_slice(E, st, args[1], t)
    n, m = toint(slen(E, st, d)), toint(slen(E, st, s))
    st = E.require(st, "panic", f"copy_from_slice: lengths {show(n)} and {show(m)} agree", eq(n, m), span)
    if st is None:
        return []
    st = st.copy()
    write_slice(E, st, d, s, n)
    return [(st, UNIT)]


def write_slice(E, st, d, s, n):
    e = d.a[2]
    if isinstance(n, int) and n <= 64:
        vals = [E.read_ptr(st, elem_ptr(E, s, i)) for i in range(n)]
        for i, x in enumerate(vals):
            E.write_ptr(st, elem_ptr(E, d, i), x)
        return
    sz = tsize(e)
    obj, path, pty, kind, off, meta = s.a
    cont = E.read_loc(st, ("p", obj, path, None))
    if kind[1] == e and sz == 1:
        seq = mkv("sub", cont, off) if not same(off, 0) else cont
    else:
        seq = mkv("bytes", cont, kind[1], off)
    E.event(st, "copy", src=s, dst=d, n=scale(n, sz), span=None)
    E.write_bytes(st, d, seq, scale(n, sz))


@model("slice::fill")
def _(E, st, inst, args, argtys, destty, span):
    p = as_slice(E, st, args[0], first_ty(inst))
    n = toint(slen(E, st, p))
    if not isinstance(n, int) or n > 64:
        return None
    st = st.copy()
    for i in range(n):
        E.write_ptr(st, elem_ptr(E, p, i), args[1])
    return [(st, UNIT)]


@model("slice::swap", "slice::reverse")
def _(E, st, inst, args, argtys, destty, span):
    p = as_slice(E, st, args[0], first_ty(inst))
    n = toint(slen(E, st, p))
    st0 = st
    if inst["method"] == "swap":
        i, j = toint(args[1]), toint(args[2])
        st = E.require(st, "bounds", "swap within length", f_and([lt(i, n), lt(j, n)]), span)
        if st is None:
            return []
        st = st.copy()
        a, b = E.read_ptr(st, elem_ptr(E, p, i)), E.read_ptr(st, elem_ptr(E, p, j))
        E.write_ptr(st, elem_ptr(E, p, i), b)
        E.write_ptr(st, elem_ptr(E, p, j), a)
        return [(st, UNIT)]
    if isinstance(n, int) and n <= 64:
        st = st.copy()
        xs = [E.read_ptr(st, elem_ptr(E, p, i)) for i in range(n)]
        for i, x in enumerate(reversed(xs)):
            E.write_ptr(st, elem_ptr(E, p, i), x)
        return [(st, UNIT)]
    return None


@model("slice::contains")
def _(E, st, inst, args, argtys, destty, span):
    p = as_slice(E, st, args[0], first_ty(inst))
    x = deep(E, st, args[1])
    it = mk_iter(("slice", first_ty(inst)), p, 0, slen(E, st, p))
    out = []

    def item(s, y):
        r = vals_eq(E, s, y, x)
        return [(s2, "hit" if h else "cont") for h, s2 in split(s, r)]
    for t, s, _ in consume(E, st, it, item):
        out.append((s, t == "hit"))
    return out


@model("array::map")
def _(E, st, inst, args, argtys, destty, span):
    a = inst["args"]
    fty = a[2]
    n = a[1]["const"] if isinstance(a[1], dict) else seqlen(args[0])
    outs = [(st, args[1], ())]
    for i in range(n):
        nxt = []
        for s, f, xs in outs:
            for s2, r, f2 in E.call_value(s, f, fty, [seq_get(args[0], i)], span):
                nxt.append((s2, f2, xs + (r,)))
        if len(nxt) > 8:
            raise Unsupported("array::map branching")
        outs = nxt
    return [(s, seq_list(xs)) for s, f, xs in outs]


@model("array::from_fn")
def _(E, st, inst, args, argtys, destty, span):
    a = inst["args"]
    n = [x["const"] for x in a if isinstance(x, dict)]
    if not n:
        return None
    fty = tyargs(inst)[-1]
    outs = [(st, args[0], ())]
    for i in range(n[0]):
        nxt = []
        for s, f, xs in outs:
            for s2, r, f2 in E.call_value(s, f, fty, [i], span):
                nxt.append((s2, f2, xs + (r,)))
        if len(nxt) > 8:
            raise Unsupported("array::from_fn branching")
        outs = nxt
    return [(s, seq_list(xs)) for s, f, xs in outs]


# ------------------------------------------------------------------ strings
@model("str::to_lowercase", "str::to_ascii_lowercase", "str::to_uppercase", "str::to_ascii_uppercase", "str::trim", "str::trim_start", "str::trim_end")
def _(E, st, inst, args, argtys, destty, span):
    m = inst["method"].replace("to_ascii_", "to_")

    return [(st, lift(lambda v: str_fn(m, v), deep(E, st, args[0])))]


@model("str::trim_start_matches", "str::trim_end_matches", "str::trim_matches", "str::replace")
def _(E, st, inst, args, argtys, destty, span):
    par = []
    for x in args[1:]:
        v = deep(E, st, x)
        if isk(v, "str") and v.a[0][0] == "lit":
            par.append(v.a[0][1])
        elif isinstance(v, int) and not isinstance(v, bool) and T_(argtys[1])["kind"] == "char" and len(par) == 0:
            par.append(chr(v))
        else:
            return None
    return [(st, lift(lambda v: str_fn(inst["method"], v, *par), deep(E, st, args[0])))]


@model("String::new")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, s_lit(""))]


@model("String::as_str", "String::into_string", "str::as_str", "str::to_string", "ToString::to_string", "String::into_boxed_str", "Cow::into_owned", "str::into_string", "str::as_ref")
def _(E, st, inst, args, argtys, destty, span):
    v = deep(E, st, args[0])
    if isk(v, "case"):
        v = mkcase([(c, w.a[1][0] if isk(w, "agg") and len(w.a[1]) == 1 else w) for c, w in v.a])
    if isk(v, "agg") and len(v.a[1]) == 1:
        v = v.a[1][0]
    if isk(v, "vec"):
        return [(st, v)]
    if isk(v, "str") or isk(v, "case") and all(isk(w, "str") for _, w in v.a):
        return [(st, v)]
    if inst["method"] == "to_string":
        if isinstance(v, int) and not isinstance(v, bool):
            return [(st, s_lit(str(v)))]
        if isint(v):
            return [(st, mkv("str", ("fn", "to_string", v)))]
        return [(st, mkv("str", ("fn", "to_string", fresh_id())))]
    return None


@model("str::len", "String::len")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, strlen(deep(E, st, args[0])))]


@model("str::is_empty", "String::is_empty")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, streq(deep(E, st, args[0]), s_lit("")))]


@model("str::eq_ignore_ascii_case")
def _(E, st, inst, args, argtys, destty, span):
    def f(v):
        return str_fn("to_lowercase", v)
    return [(st, streq(lift(f, deep(E, st, args[0])), lift(f, deep(E, st, args[1]))))]


# ------------------------------------------------------------------ numbers
def num_ty(inst, argtys, destty):
    s = inst.get("impl_self")
    for i, t in enumerate(interp.P.types):
        if t["kind"] == "int":
            nm = ("i" if t["signed"] else "u") + str(t["bits"])
            if nm == s or (s in ("usize", "isize") and t["bits"] == 64 and t["signed"] == (s == "isize")):
                return i
    return None


@model("num::checked_add", "num::checked_sub", "num::checked_mul", "num::wrapping_add", "num::wrapping_sub", "num::wrapping_mul",
       "num::saturating_add", "num::saturating_sub", "num::saturating_mul", "num::overflowing_add", "num::overflowing_sub", "num::overflowing_mul",
       "num::unchecked_add", "num::unchecked_sub", "num::unchecked_mul", "num::strict_add", "num::strict_sub", "num::strict_mul")
def _(E, st, inst, args, argtys, destty, span):
    mode, op = inst["method"].split("_")
    T = T_(num_ty(inst, argtys, destty))
    a, b = toint(args[0]), toint(args[1])
    r = add(a, b) if op == "add" else sub(a, b) if op == "sub" else mul(a, b)
    lo, hi = int_range(T)
    fits = f_and([ge(sub(r, lo)), ge(sub(hi, r))])
    if mode == "checked":
        return [(s, some(r) if h else NONE) for h, s in split(st, fits)]
    if mode in ("unchecked", "strict"):
        st = E.require(st, "ub" if mode == "unchecked" else "overflow", f"{mode}_{op} stays in range", fits, span)
        return [(st, r)] if st is not None else []
    if fits is True or solve.prove(lits(st), fits, E.axioms, 2):
        w = r
        fits = True
    else:
        w = interp.wrap_int(r, T["bits"], T["signed"])
    if mode == "wrapping":
        return [(st, w)]
    if mode == "overflowing":
        return [(st, agg(0, w, fnot(fits)))]
    if fits is True:
        return [(st, r)]
    return [(st, toint(mkcase([(fits, r), (lt(r, lo), lo), (lt(hi, r), hi)])))]


@model("num::checked_div", "num::checked_rem", "num::wrapping_div", "num::div_ceil", "num::is_multiple_of", "num::checked_div_euclid", "num::rem_euclid", "num::div_euclid", "num::checked_rem_euclid", "num::next_multiple_of")
def _(E, st, inst, args, argtys, destty, span):
    T = T_(num_ty(inst, argtys, destty))
    if T["signed"]:
        return None
    a, b = toint(args[0]), toint(args[1])
    m = inst["method"]
    z = lt(0, b)
    if m == "is_multiple_of":
        if isinstance(b, int):
            return [(st, eq(urem(a, b), 0) if b else eq(a, 0))]
        return [(st, f_or([f_and([z, eq(urem(a, b), 0)]), f_and([fnot(z), eq(a, 0)])]))]
    if m.startswith("checked"):
        return [(s, some(udiv(a, b) if "div" in m else urem(a, b)) if h else NONE) for h, s in split(st, z)]
    st = E.require(st, "panic", f"{m}: divisor is not zero", z, span)
    if st is None:
        return []
    if m == "div_ceil":
        return [(st, udiv(sub(add(a, b), 1), b))]
    if m == "next_multiple_of":
        return [(st, mul(udiv(sub(add(a, b), 1), b), b))]
    return [(st, udiv(a, b) if "div" in m else urem(a, b))]


@model("num::abs_diff")
def _(E, st, inst, args, argtys, destty, span):
    a, b = toint(args[0]), toint(args[1])
    return [(st, toint(mkcase([(le(a, b), sub(b, a)), (lt(b, a), sub(a, b))])))]


@model("num::to_le_bytes", "num::to_be_bytes", "num::to_ne_bytes", "float::to_le_bytes", "float::to_be_bytes", "float::to_ne_bytes")
def _(E, st, inst, args, argtys, destty, span):
    s = inst["impl_self"]
    n = {"8": 1, "16": 2, "32": 4, "64": 8, "128": 16, "ize": 8}[re.sub(r"^[iufs]+", "", s) if s not in ("usize", "isize") else "ize"]
    bs = [byte_of(args[0], i, n) for i in range(n)]
    if "be" in inst["method"]:
        bs.reverse()
    return [(st, seq_list(bs))]


@model("num::from_le_bytes", "num::from_be_bytes", "num::from_ne_bytes", "float::from_le_bytes", "float::from_be_bytes", "float::from_ne_bytes")
def _(E, st, inst, args, argtys, destty, span):
    s = inst["impl_self"]
    n = {"8": 1, "16": 2, "32": 4, "64": 8, "128": 16, "ize": 8}[re.sub(r"^[iufs]+", "", s) if s not in ("usize", "isize") else "ize"]
    bs = [seq_get(args[0], i) for i in range(n)]
    if "be" in inst["method"]:
        bs.reverse()
    if s[0] == "f":
        return [(st, fl_from_bytes(bs))]
    return [(st, int_from_bytes(bs, s[0] == "i"))]


@model("float::to_bits")
def _(E, st, inst, args, argtys, destty, span):
    n = int(inst["impl_self"][1:]) // 8
    return [(st, int_from_bytes([byte_of(args[0], i, n) for i in range(n)], False))]


@model("float::from_bits")
def _(E, st, inst, args, argtys, destty, span):
    n = int(inst["impl_self"][1:]) // 8
    return [(st, fl_from_bytes([byte_of(args[0], i, n) for i in range(n)]))]


@model("num::swap_bytes", "num::to_be", "num::from_be", "num::to_le", "num::from_le")
def _(E, st, inst, args, argtys, destty, span):
    if inst["method"].endswith("le"):
        return [(st, args[0])]
    T = T_(num_ty(inst, argtys, destty))
    n = T["bits"] // 8
    return [(st, int_from_bytes([byte_of(args[0], i, n) for i in range(n)][::-1], T["signed"]))]


@model("Mul::mul", "Add::add", "Sub::sub", "Div::div", "Rem::rem", "BitAnd::bitand", "BitOr::bitor", "BitXor::bitxor", "Shl::shl", "Shr::shr",
       "AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign", "BitOrAssign::bitor_assign", "BitAndAssign::bitand_assign")
def _(E, st, inst, args, argtys, destty, span):
    if inst["crate"] not in ("core", "std"):
        return None
    m = inst["method"]
    ops = {"mul": "Mul", "add": "Add", "sub": "Sub", "div": "Div", "rem": "Rem", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr"}
    asg = m.endswith("_assign")
    op = ops[m.replace("_assign", "")]
    s = inst.get("impl_self", "").lstrip("&").replace("'a ", "").strip()
    if s not in INTS and s not in ("f32", "f64", "bool"):
        return None
    t = None
    for i, T in enumerate(interp.P.types):
        nm = ("i" if T.get("signed") else "u") + str(T.get("bits")) if T["kind"] == "int" else "f" + str(T.get("bits")) if T["kind"] == "float" else T["kind"]
        if nm == s or (T["kind"] == "int" and s in ("usize", "isize") and T["bits"] == 64 and T["signed"] == (s == "isize")):
            t = i
            break
    a, b = deep(E, st, args[0]), deep(E, st, args[1])
    T = T_(t)
    if T["kind"] == "int" and op in ("Add", "Sub", "Mul"):
        x, y = toint(a), toint(b)
        r = add(x, y) if op == "Add" else sub(x, y) if op == "Sub" else mul(x, y)
        lo, hi = int_range(T)
        st = E.require(st, "overflow", f"{op} does not overflow", f_and([ge(sub(r, lo)), ge(sub(hi, r))]), span)
        if st is None:
            return []
    else:
        if T["kind"] == "int" and op in ("Div", "Rem"):
            st = E.require(st, "panic", "divisor is not zero", fnot(eq(toint(b), 0)), span)
            if st is None:
                return []
        r = E.binop(st, op, a, b, t, t, False, span)
    if asg:
        st = st.copy()
        E.write_ptr(st, args[0], r)
        return [(st, UNIT)]
    return [(st, r)]


@model("num::pow")
def _(E, st, inst, args, argtys, destty, span):
    if isinstance(args[0], int) and isinstance(args[1], int):
        T = T_(num_ty(inst, argtys, destty))
        r = args[0] ** args[1]
        lo, hi = int_range(T)
        st = E.require(st, "overflow", "pow does not overflow", lo <= r <= hi, span)
        return [(st, r)] if st is not None else []
    return None


# ------------------------------------------------------------------ raw pointers
@model("ptr::add", "ptr::offset", "ptr::wrapping_add", "ptr::byte_add")
def _(E, st, inst, args, argtys, destty, span):
    p = E.narrow(st, args[0])
    n = toint(args[1])
    q = E.ptr_add(p, n, 1)
    return [(st, q)]


@model("ptr::sub")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, E.ptr_add(E.narrow(st, args[0]), neg(toint(args[1])), 1))]


@model("ptr::cast", "ptr::cast_mut", "ptr::cast_const", "intr::ptr_cast")
def _(E, st, inst, args, argtys, destty, span):
    if inst["method"] == "cast":
        return [(st, E.retype(E.narrow(st, args[0]), tyargs(inst)[-1]))]
    return [(st, args[0])]


@model("ptr::read", "ptr::read_unaligned", "ptr::read_volatile", "intr::read_via_copy", "intr::volatile_load")
def _(E, st, inst, args, argtys, destty, span):
    p = E.narrow(st, args[0])
    t = first_ty(inst)
    E.check_access(st, p, tsize(t), "read", span)
    if not inst["path"].endswith("read_unaligned"):
        check_align(E, st, p, t, "read", span)
    return [(st, E.read_ptr(st, p, t))]


@model("ptr::write", "ptr::write_unaligned", "intr::write_via_move")
def _(E, st, inst, args, argtys, destty, span):
    p = E.narrow(st, args[0])
    t = first_ty(inst)
    E.check_access(st, p, tsize(t), "write", span)
    if not inst["path"].endswith("write_unaligned"):
        check_align(E, st, p, t, "write", span)
    st = st.copy()
    E.write_ptr(st, p, args[1])
    return [(st, UNIT)]


def check_align(E, st, p, t, what, span):
    """Obligation: a pointer into a byte buffer is not dereferenced at a type of larger alignment."""
    al = T_(t).get("align") or 1
    if al <= 1 or not isk(p, "ptr") or p.a[3] == "p":
        return
    et = p.a[3][1]
    if (T_(et).get("align") or 1) < al:
        E.oblige(st, "ub", f"aligned {what} of a type with alignment {al} through a pointer aligned to {T_(et).get('align')}", False, span)


@model("ptr::copy_nonoverlapping", "ptr::copy", "ptr::copy_from_nonoverlapping", "ptr::copy_to_nonoverlapping", "ptr::copy_from", "ptr::copy_to", "intr::copy_nonoverlapping", "intr::copy")
def _(E, st, inst, args, argtys, destty, span):
    st = st.copy()
    m = inst["path"].split("::")[-1]
    a, b = (args[1], args[0]) if m.startswith("copy_from") else (args[0], args[1])
    E.copy_nonoverlapping(st, a, b, toint(args[2]), span)
    return [(st, UNIT)]


@model("slice::from_raw_parts", "slice::from_raw_parts_mut", "raw::from_raw_parts", "raw::from_raw_parts_mut", "ptr::slice_from_raw_parts", "ptr::slice_from_raw_parts_mut")
def _(E, st, inst, args, argtys, destty, span):
    p = E.narrow(st, args[0])
    n = toint(args[1])
    t = first_ty(inst)
    if not isk(p, "ptr"):
        E.oblige(st, "ub", "from_raw_parts on an untracked pointer", form("b", "unk", "raw", p), span)
        return [(st, unkv("raw", p, n))]
    E.check_access(st, p, scale(n, tsize(t)), "read", span)
    q = E.region(p)
    r = mkv("ptr", q.a[0], q.a[1], t, q.a[3], q.a[4], n)
    E.event(st, "raw_slice", ptr=r, n=n, span=span, elem=t)
    return [(st, r)]


@model("ptr::null", "ptr::null_mut")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, mkv("opq", "null"))]


@model("ptr::is_null", "ptr::is_aligned")
def _(E, st, inst, args, argtys, destty, span):
    if isk(args[0], "ptr") and inst["method"] == "is_null":
        return [(st, False)]
    return [(st, unkb())]


@model("ptr::from_ref", "ptr::from_mut")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, args[0])]


@model("MaybeUninit::uninit")
def _(E, st, inst, args, argtys, destty, span):
    n = T_(destty)["size"] if destty is not None else None
    return [(st, mkv("un", tuple([UNDEF] * n)))] if n is not None else None


@model("intr::unlikely", "intr::likely", "hint::black_box", "intr::black_box", "convert::identity")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, args[0])]


@model("intr::cold_path", "hint::spin_loop", "intr::assert_inhabited", "hint::cold_path")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, UNIT)]


@model("intr::transmute", "intr::transmute_unchecked")
def _(E, st, inst, args, argtys, destty, span):
    a = tyargs(inst)
    return [(st, E.transmute(st, args[0], a[0], a[1]))]


@model("intr::ub_checks", "intr::overflow_checks", "ub_checks::check_language_ub")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, False)]


@model("intr::discriminant_value", "mem::discriminant")
def _(E, st, inst, args, argtys, destty, span):
    v = E.read_ptr(st, args[0])
    d = E.discriminant(v, first_ty(inst))
    return [(st, d if inst.get("intrinsic") else agg(0, d))]


# ------------------------------------------------------------------ panics
@model("panicking::panic", "panicking::panic_fmt", "panicking::panic_display", "panicking::panic_str", "panicking::unreachable_display",
       "panicking::panic_nounwind", "panicking::assert_failed", "panicking::panic_bounds_check", "option::unwrap_failed", "option::expect_failed",
       "result::unwrap_failed", "panicking::panic_explicit", "panicking::panic_2015", "rt::begin_panic", "panicking::panic_misaligned_pointer_dereference",
       "panicking::unreachable_default_msg", "process::abort", "panicking::panic_const_add_overflow", "panicking::begin_panic", "panicking::panic_in_cleanup",
       "panicking::panic_str_2015", "panicking::panic_nounwind_fmt", "panicking::assert_failed_inner")
def _(E, st, inst, args, argtys, destty, span):
    msg = ""
    for a in args:
        v = deep(E, st, a) if isinstance(a, V) else a
        if isk(v, "str") and v.a[0][0] == "lit":
            msg = ": " + v.a[0][1][:80]
        elif isk(v, "fmtargs"):
            msg = ": " + str(v.a[0])[:80]
    E.oblige(st, "panic", inst["path"].split("::")[-1] + msg, False, span)
    return []


@model("hint::unreachable_unchecked", "intr::unreachable", "hint::assert_unchecked")
def _(E, st, inst, args, argtys, destty, span):
    E.oblige(st, "ub", "unreachable code is not reached", False if not args else tobool(args[0]), span)
    return [] if not args else [(st, UNIT)]


# ------------------------------------------------------------------ Option / Result without bodies
@model("Option::ok_or")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, mkcase([(c, ok(w.a[1][0]) if w.a[0] == 1 else err(args[1])) if isk(w, "agg") else (c, unkv("ok_or", w)) for c, w in alts_of(args[0])]))]


@model("Option::unwrap_or", "Result::unwrap_or")
def _(E, st, inst, args, argtys, destty, span):
    good = 1 if "Option" in inst["impl_self"] else 0
    if not all(isk(w, "agg") for _, w in alts_of(args[0])):
        return None
    return [(st, mkcase([(c, w.a[1][0] if w.a[0] == good else args[1]) for c, w in alts_of(args[0])]))]


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked", "Result::unwrap_unchecked", "Result::expect_err", "Result::unwrap_err")
def _(E, st, inst, args, argtys, destty, span):
    good = 1 if "Option" in inst["impl_self"] else 0
    if inst["method"].endswith("_err"):
        good = 1
    v = E.narrow(st, args[0])
    alts = alts_of(v)
    if not all(isk(w, "agg") for _, w in alts):
        return None
    c = f_or([d for d, w in alts if w.a[0] == good])
    st = E.require(st, "ub" if "unchecked" in inst["method"] else "panic", f"{inst['method']}() on a value that is there", c, span)
    if st is None:
        return []
    return [(st, mkcase([(d, w.a[1][0]) for d, w in alts if w.a[0] == good]))]


@model("Option::copied", "Option::cloned")
def _(E, st, inst, args, argtys, destty, span):
    if not all(isk(w, "agg") for _, w in alts_of(args[0])):
        return None
    return [(st, mkcase([(c, some(clone(E, st, E.read_ptr(st, w.a[1][0]))) if w.a[0] == 1 else w) for c, w in alts_of(args[0])]))]


@model("Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut")
def _(E, st, inst, args, argtys, destty, span):
    p = E.narrow(st, args[0])
    v = E.narrow(st, E.read_ptr(st, p))
    if not isk(p, "ptr") or not all(isk(w, "agg") for _, w in alts_of(v)):
        return None
    return [(st, mkcase([(c, agg(w.a[0], *[ptr_to(p.a[0], p.a[1] + (("v", w.a[0]), i), None) for i in range(len(w.a[1]))])) for c, w in alts_of(v)]))]


@model("Option::as_deref", "Option::as_deref_mut")
def _(E, st, inst, args, argtys, destty, span):
    v = deep(E, st, args[0])
    p = E.narrow(st, args[0])
    out = []
    for c, w in alts_of(v):
        if not isk(w, "agg"):
            return None
        if w.a[0] == 0:
            out.append((c, NONE))
        else:
            x = w.a[1][0]
            if isk(x, "str"):
                out.append((c, some(x)))
            elif isk(x, "vec"):
                out.append((c, some(as_slice(E, st, ptr_to(p.a[0], p.a[1] + (("v", 1), 0), None), first_ty(inst)))))
            else:
                return None
    return [(st, mkcase(out))]


@model("Option::take")
def _(E, st, inst, args, argtys, destty, span):
    v = E.read_ptr(st, args[0])
    st = st.copy()
    E.write_ptr(st, args[0], NONE)
    return [(st, v)]


@model("Option::replace")
def _(E, st, inst, args, argtys, destty, span):
    v = E.read_ptr(st, args[0])
    st = st.copy()
    E.write_ptr(st, args[0], some(args[1]))
    return [(st, v)]


@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def _(E, st, inst, args, argtys, destty, span):
    fty = first_ty(inst)
    f = args[0]
    a = args[1].a[1] if isk(args[1], "agg") else (args[1],)
    return [(s, r) for s, r, _ in E.call_value(st, f, fty, list(a), span)] if fty is not None else None


# ------------------------------------------------------------------ formatting
@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, mkv("fmtarg", inst["method"], deep(E, st, args[0])))]


@model("Arguments::new", "Arguments::new_v1", "Arguments::new_const", "Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_v1_formatted")
def _(E, st, inst, args, argtys, destty, span):
    vs = [deep(E, st, a) for a in args]
    return [(st, mkv("fmtargs", *vs))]


@model("Formatter::write_fmt", "Formatter::write_str", "Formatter::pad", "Write::write_fmt", "Write::write_str")
def _(E, st, inst, args, argtys, destty, span):
    E.event(st, "write_fmt", what=deep(E, st, args[1]), span=span)
    return [(st, ok(UNIT))]


@model("Formatter::debug_struct", "Formatter::debug_tuple")
def _(E, st, inst, args, argtys, destty, span):
    E.event(st, "debug", name=deep(E, st, args[1]), span=span)
    return [(st, mkv("opq", "debug"))]


@model("DebugStruct::field", "DebugTuple::field")
def _(E, st, inst, args, argtys, destty, span):
    E.event(st, "debug_field", name=deep(E, st, args[1]), value=deep(E, st, args[-1]), span=span)
    return [(st, args[0])]


@model("DebugStruct::finish", "DebugTuple::finish", "DebugStruct::finish_non_exhaustive")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, ok(UNIT))]


@model("fmt::format")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, mkv("str", ("fn", "format", args[0])))]


# ------------------------------------------------------------------ rayon
@model("plumbing::bridge")
def _(E, st, inst, args, argtys, destty, span):
    E.event(st, "bridge", value=args[0], consumer=args[1], span=span)
    return [(st, mkv("opq", "bridge", args[0]) if destty is None or tsize(destty) else UNIT)]


@model("IntoParallelIterator::into_par_iter")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, args[0] if isk(args[0], "par") else mkv("par", args[0]))]


def par_src(E, st, v):
    """The points of a parallel source, in order, as an iterator."""
    return as_iter(E, st, v.a[0] if isk(v, "par") else v)


def par_adapter(kind):
    def f(E, st, inst, args, argtys, destty, span):
        if not isk(args[0], "par"):
            return None
        it = par_src(E, st, args[0])
        if len(args) > 1:
            return [(st, mkv("par", mk_iter((kind, tyargs(inst)[-2 if kind in ("map", "filter_map") else -1]), it, args[1])))]
        return [(st, mkv("par", mk_iter((kind,), it)))]
    return f


for _n in ("map", "filter", "filter_map", "inspect", "cloned", "copied"):
    M["ParallelIterator::" + _n] = par_adapter(_n)


@model("IndexedParallelIterator::with_min_len", "IndexedParallelIterator::with_max_len")
def _(E, st, inst, args, argtys, destty, span):
    return [(st, args[0])]


@model("IndexedParallelIterator::enumerate", "IndexedParallelIterator::rev")
def _(E, st, inst, args, argtys, destty, span):
    if not isk(args[0], "par"):
        return None
    it = par_src(E, st, args[0])
    return [(st, mkv("par", mk_iter((inst["method"],), it, *([0] if inst["method"] == "enumerate" else []))))]


@model("ParallelIterator::collect", "FromParallelIterator::from_par_iter", "ParallelExtend::par_extend")
def _(E, st, inst, args, argtys, destty, span):
    m = inst["method"]
    v = args[-1]
    if isk(v, "par") and isk(v.a[0], "vec"):
        v = v.a[0]
    if m == "par_extend":
        if not isk(args[-1], "par"):
            return None
        out = []
        t = T_(argtys[0]) if argtys else None
        it = par_src(E, st, args[-1])
        t = T_(t["to"]) if t is not None and t["kind"] == "ref" else None
        e = t["args"][0] if t is not None and t["kind"] == "adt" and t["path"].endswith("Vec") else None
        if e is None:
            return None

        def item(s, x):
            s = s.copy()
            vec_push(E, s, args[0], x, e, span)
            return [(s, "cont")]
        return [(s, UNIT) for tg, s, _ in consume(E, st, it, item)]
    if isk(v, "vec"):
        return [(st, v)]
    if isk(v, "par") and destty is not None:
        return collect_into(E, st, par_src(E, st, v), destty, span, "collect")
    E.event(st, "par_collect", value=v, span=span)
    return None


@model("ParallelIterator::fold")
def _(E, st, inst, args, argtys, destty, span):
    if not isk(args[0], "par"):
        return None
    a = tyargs(inst)
    return [(st, mkv("parfold", args[0], args[1], a[-2], args[2], a[-1]))]


@model("ParallelIterator::reduce")
def _(E, st, inst, args, argtys, destty, span):
    """Any division of the source into two parts: each part folded from its own start, the two results combined in
    order. Other divisions combine more parts the same way."""
    v = args[0]
    if not isk(v, "parfold") and not isk(v, "par"):
        return None
    a = tyargs(inst)
    opty, idty = a[-2], a[-1]
    plain = v.a[0] if isk(v, "parfold") else v
    it = par_src(E, st, plain)
    plain = plain.a[0] if isk(plain, "par") else plain
    n = iter_len(E, st, it)
    if n is None:
        return None
    cut = var("part%d" % fresh_id(), 0, 1 << 47)
    E.event(st, "par_reduce", inside=ge(sub(toint(n), cut)), span=span)
    st = st.assume(ge(sub(toint(n), cut)))
    if st is None:
        return []

    def part(s, skip, take):
        """[(state, combined value of one part)]"""
        if isk(plain, "vec"):
            src = seq_iter(seq_sub(content(plain), skip, take), take)
        else:
            src = mk_iter(("take",), mk_iter(("skip",), it, skip), take)
        out = []
        fn, fty = (v.a[3], v.a[4]) if isk(v, "parfold") else (args[2], opty)
        start, sty = (v.a[1], v.a[2]) if isk(v, "parfold") else (args[1], idty)
        for s1, x0, _ in E.call_value(s, start, sty, [], span):
            s1 = s1.copy()
            F_, X = cell(s1, fn), cell(s1, x0)

            def item(s2, x):
                o = []
                for s3, r, f2 in E.call_value(s2, s2.mem[F_], fty, [s2.mem[X], x], span):
                    s3 = s3.copy()
                    s3.mem[F_], s3.mem[X] = f2, r
                    o.append((s3, "cont"))
                return o
            for t, s2, _ in consume(E, s1, src, item):
                s2.mem.pop(F_, None)
                y = s2.mem.pop(X)
                if not isk(v, "parfold"):
                    out.append((s2, y))
                    continue
                for s3, i0, _ in E.call_value(s2, args[1], idty, [], span):
                    for s4, r, _ in E.call_value(s3, args[2], opty, [i0, y], span):
                        out.append((s4, r))
        return out
    out = []
    for s1, left in part(st, 0, cut):
        for s2, right in part(s1, cut, sub(toint(n), cut)):
            for s3, r, _ in E.call_value(s2, args[2], opty, [left, right], span):
                out.append((s3, r))
    return out


# ------------------------------------------------------------------ sorting
def less_value(E, st, fty, f, a, b, span):
    """Condition under which the comparison puts a before b; None if it is not understood."""
    out = E.call_value(st, f, fty, [a, b], span)
    if len(out) != 1:
        return None
    less = []
    for c, w in alts_of(E.narrow(st, out[0][1])):
        if isinstance(w, int) and not isinstance(w, bool):
            o = w
        elif isk(w, "agg") and w.a[0] in (0, 1, 2):
            o = w.a[0] - 1
        else:
            return None
        if o == -1:
            less.append(c)
    return f_or(less)


def keyed_less(E, st, inst, args, xs, span):
    """For each pair of the given elements, whether the first sorts strictly before the second."""
    m = inst["method"]
    st = st.copy()
    rs = [refto(E, st, x) for x in xs]
    n = len(xs)
    if "_by_key" in m or "cached_key" in m or m in ("sort", "sort_unstable"):
        ks = []
        for r, x in zip(rs, xs):
            if m in ("sort", "sort_unstable"):
                if T_(first_ty(inst))["kind"] not in ("int", "char", "bool"):
                    return None
                ks.append(toint(x))
                continue
            if T_(tyargs(inst)[-2])["kind"] not in ("int", "char", "bool"):
                return None
            out = E.call_value(st, args[1], tyargs(inst)[-1], [r], span)
            if len(out) != 1:
                return None
            ks.append(toint(out[0][1]))
        return [[lt(a, b) for b in ks] for a in ks]
    return [[False if i == j else less_value(E, st, tyargs(inst)[-1], args[1], rs[i], rs[j], span) for j in range(n)] for i in range(n)]


@model("slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key", "slice::sort_by", "slice::sort_unstable_by", "slice::sort", "slice::sort_unstable")
def _(E, st, inst, args, argtys, destty, span):
    t = first_ty(inst)
    p = as_slice(E, st, args[0], t)
    if not isk(p, "ptr"):
        return None
    n = toint(slen(E, st, p))
    if isinstance(n, int):
        if n > 4:
            return None
        xs = [E.read_ptr(st, elem_ptr(E, p, i)) for i in range(n)]
        less = keyed_less(E, st, inst, args, xs, span)
        if less is None or any(c is None for r in less for c in r):
            return None
        st = st.copy()
        pos = [[[] for _ in range(n)] for _ in range(n)]
        for perm in itertools.permutations(range(n)):
            g = f_and([less[a][b] if a > b else fnot(less[b][a]) for a, b in zip(perm, perm[1:])])
            for k, i in enumerate(perm):
                pos[k][i].append(g)
        for k in range(n):
            E.write_ptr(st, elem_ptr(E, p, k), mkcase([(f_or(pos[k][i]), xs[i]) for i in range(n) if f_or(pos[k][i]) is not False]))
        return [(st, UNIT)]
    return None
