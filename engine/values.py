"""Abstract values: aggregates, gated alternatives, byte-level scalars, symbolic sequences, pointers."""
import struct
from terms import *


class V:
    __slots__ = ("k", "a", "at", "id", "subst_fn")

    def __repr__(self):
        return showv(self)

    def subst(self, f):
        return rebuild(self, f)


_vals = {}


def kk(x):
    if isinstance(x, bool):
        return ("B", x)
    if isinstance(x, tuple):
        return tuple(kk(y) for y in x)
    return x


def mkv(k, *a):
    key = (k, kk(a))
    v = _vals.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        v.id = fresh_id()
        v.at = at_of(a)
        _vals[key] = v
    return v


def isk(v, k):
    return isinstance(v, V) and v.k == k


def isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, Poly)


def isbool(v):
    return isinstance(v, bool) or isinstance(v, F)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return False


UNDEF = mkv("undef")
UNIT = mkv("agg", 0, ())


def agg(variant, *fields):
    return mkv("agg", variant, tuple(fields))


def unkv(*key):
    return mkv("unk", *(key or (fresh_id(),)))


def unk_int(v, lo=None, hi=None):
    return A(atom("unk", v, lo=lo, hi=hi))


# ------------------------------------------------------------------ alternatives
def ind(c):
    """1 if c else 0"""
    if c is True:
        return 1
    if c is False:
        return 0
    return A(atom("ind", c, lo=0, hi=1))


def alts_of(v):
    if isk(v, "case"):
        return v.a
    return ((True, v),)


def mkcase(alts):
    """alts: [(condition, value)], mutually exclusive."""
    flat = []
    for c, v in alts:
        if c is False:
            continue
        if isk(v, "case"):
            for d, w in v.a:
                e = f_and([c, d])
                if e is not False:
                    flat.append((e, w))
        else:
            flat.append((c, v))
    flat = [x for x in flat if not isk(x[1], "undef")] or flat[:1]
    if not flat:
        return UNDEF
    # equal values share a condition
    groups = []
    pos = {}
    for c, v in flat:
        key = ("B", v) if isinstance(v, bool) else v
        if key in pos:
            groups[pos[key]][0].append(c)
        else:
            pos[key] = len(groups)
            groups.append(([c], v))
    if len(groups) == 1:
        return groups[0][1]
    vals = [v for _, v in groups]
    if all(isbool(v) for v in vals):
        return f_or([f_and([f_or(cs), v]) for cs, v in groups])
    # same-shaped aggregates merge member by member
    shaped = {}
    order = []
    for cs, v in groups:
        s = shape(v)
        if s is None:
            s = ("u", id(v))
        if s not in shaped:
            shaped[s] = []
            order.append(s)
        shaped[s].append((f_or(cs), v))
    out = []
    for s in order:
        g = shaped[s]
        if len(g) == 1:
            out.append(g[0])
        else:
            out.append((f_or([c for c, _ in g]), merge_shape(g)))
    if len(out) == 1:
        return out[0][1]
    return mkv("case", *out)


def shape(v):
    if isinstance(v, V):
        if v.k == "agg":
            return ("agg", v.a[0], len(v.a[1]))
        if v.k == "list":
            return ("list", len(v.a[0]))
        if v.k == "vec":
            return ("vec",)
        if v.k == "iter":
            return ("iter", v.a[0], len(v.a[1]))
        if v.k == "ptr":
            return ("ptr", v.a[0], v.a[1], v.a[2], v.a[3])
        if v.k == "some":
            return None
    return None


def merge_shape(g):
    v0 = g[0][1]
    if v0.k == "agg":
        return mkv("agg", v0.a[0], tuple(mkcase([(c, v.a[1][i]) for c, v in g]) for i in range(len(v0.a[1]))))
    if v0.k == "list":
        return mkv("list", tuple(mkcase([(c, v.a[0][i]) for c, v in g]) for i in range(len(v0.a[0]))))
    if v0.k == "vec":
        return mkv("vec", merge_seq([(c, v.a[0]) for c, v in g]), merge_len([(c, v.a[1]) for c, v in g]), merge_len([(c, v.a[2]) for c, v in g]))
    if v0.k == "iter":
        return mkv("iter", v0.a[0], tuple(mkcase([(c, v.a[1][i]) for c, v in g]) for i in range(len(v0.a[1]))))
    if v0.k == "ptr":
        return mkv("ptr", *v0.a[:4], mkcase([(c, v.a[4]) for c, v in g]), mkcase([(c, v.a[5]) for c, v in g]))
    raise ValueError


def merge_len(g):
    """Lengths that differ by constants become base + sum of indicators."""
    vs = [v for _, v in g]
    if all(isint(v) for v in vs) and len(vs) == 2:
        d = sub(vs[1], vs[0])
        if isinstance(d, int):
            if d > 0:
                return add(vs[0], scale(ind(g[1][0]), d))
            return add(vs[1], scale(ind(g[0][0]), -d))
    return mkcase(g)


def pieces_of(s):
    if isk(s, "cat"):
        return list(s.a[0])
    if isk(s, "uninit"):
        return []
    return [s]


def elems_of(s):
    """Leading concrete elements and remaining pieces of a sequence."""
    out = []
    for p in pieces_of(s):
        if isk(p, "list"):
            out.extend(("e", x) for x in p.a[0])
        else:
            out.append(("p", p))
    return out


def from_elems(es):
    return cat([seq_list([x]) if t == "e" else x for t, x in es])


def merge_seq(g):
    """Merge contents: a common prefix stays, conditional tails become optional pieces."""
    g = [x for x in g if not isk(x[1], "undef")]
    vals = [v for _, v in g]
    if all(same(v, vals[0]) for v in vals):
        return vals[0]
    if len(g) > 2:
        head = merge_seq(g[:2])
        return merge_seq([(f_or([g[0][0], g[1][0]]), head)] + g[2:])
    (c1, s1), (c2, s2) = g
    if not (isinstance(s1, V) and isinstance(s2, V)) or "case" in (s1.k, s2.k):
        return mkcase(g)
    a, b = elems_of(s1), elems_of(s2)
    n = 0
    while n < len(a) and n < len(b) and a[n][0] == b[n][0] and same(a[n][1], b[n][1]):
        n += 1
    ra, rb = a[n:], b[n:]
    if not ra and len(rb) == 1 and rb[0][0] == "e":
        return cat([from_elems(a), opt(c2, rb[0][1])])
    if not rb and len(ra) == 1 and ra[0][0] == "e":
        return cat([from_elems(b), opt(c1, ra[0][1])])
    if len(ra) == len(rb) and all(x[0] == "e" for x in ra + rb):
        return from_elems(a[:n] + [("e", mkcase([(c1, x[1]), (c2, y[1])])) for x, y in zip(ra, rb)])
    return mkcase(g)


def lift(f, v):
    """Apply f to every alternative."""
    if isk(v, "case"):
        return mkcase([(c, f(w)) for c, w in v.a])
    return f(v)


def lift2(f, a, b):
    if isk(a, "case"):
        return mkcase([(c, lift2(f, w, b)) for c, w in a.a])
    if isk(b, "case"):
        return mkcase([(c, f(a, w)) for c, w in b.a])
    return f(a, b)


def nalts(v):
    return len(v.a) if isk(v, "case") else 1


def toint(v, lo=None, hi=None):
    """An arithmetic operand: alternatives of integers become a defined atom."""
    if isint(v):
        return v
    if isk(v, "case"):
        ivs = []
        ok = True
        for c, w in v.a:
            if not isint(w):
                ok = False
                break
            ivs.append(interval(w))
        if ok:
            los = [x[0] for x in ivs]
            his = [x[1] for x in ivs]
            # two alternatives that differ by a constant
            return A(atom("gate", v, lo=None if None in los else min(los), hi=None if None in his else max(his)))
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, F):
        return ind(v)
    if isk(v, "char"):
        return v.a[0]
    return A(atom("unk", v, lo=lo, hi=hi))


REBUILD["gate"] = lambda a, args: toint(args[0])
REBUILD["ind"] = lambda a, args: ind(args[0])


def tobool(v):
    if isbool(v):
        return v
    if isk(v, "case"):
        return f_or([f_and([c, tobool(w)]) for c, w in v.a])
    if isint(v):
        return fnot(eq(v, 0))
    return form("b", "unk", v)


# ------------------------------------------------------------------ bytes and scalars
def byte_of(t, k, size):
    """k-th byte (little-endian) of an integer or float term of the given size."""
    if isinstance(t, int):
        return (t >> (8 * k)) & 255
    if isk(t, "fl"):
        if t.a[1][0] == "bytes":
            return t.a[1][1 + k]
        return A(atom("ext", t, k, size, lo=0, hi=255))
    if isk(t, "case"):
        return mkcase([(c, byte_of(w, k, size)) for c, w in t.a])
    if isinstance(t, Poly):
        a = is_atom(t)
        if a is not None:
            if a.kind == "le" and len(a.args) - 1 == size:
                return a.args[1 + k]
            if a.kind == "cast" and a.args[1] == 8 * size:
                return byte_of(a.args[0], k, size)
            if a.kind == "le" and k < len(a.args) - 1 and not a.args[0]:
                return a.args[1 + k]
            if a.kind == "le" and k >= len(a.args) - 1 and not a.args[0]:
                return 0
        lo, hi = interval(t)
        if lo is not None and hi is not None and lo >= 0 and hi < (1 << (8 * k)):
            return 0
        if size == 1 and lo is not None and hi is not None and 0 <= lo and hi <= 255:
            return t
        if k == 0 and lo is not None and hi is not None and 0 <= lo and hi <= 255:
            return t
        return A(atom("ext", t, k, size, lo=0, hi=255))
    if isk(t, "undef"):
        return UNDEF
    return A(atom("ext", t, k, size, lo=0, hi=255))


def ext_rebuild(a, args):
    r = byte_of(*args)
    return toint(r) if not isk(r, "undef") else A(atom("unk", UNDEF))


REBUILD["ext"] = ext_rebuild


def int_from_bytes(bs, signed):
    n = len(bs)
    if any(isk(b, "undef") for b in bs):
        return UNDEF
    if any(isk(b, "case") for b in bs):
        return lift_bytes(lambda x: int_from_bytes(x, signed), bs)
    if all(isinstance(b, int) for b in bs):
        v = sum(b << (8 * k) for k, b in enumerate(bs))
        return v - (1 << (8 * n)) if signed and v >> (8 * n - 1) else v
    if n == 1 and not signed and isint(bs[0]):
        return bs[0]
    if not all(isint(b) for b in bs):
        return unkv(("le", tuple(bs), signed))
    # bytes of one and the same term
    t = whole_of(bs, n)
    if t is not None and isint(t):
        lo, hi = interval(t)
        if lo is not None and hi is not None:
            if signed and lo >= -(1 << (8 * n - 1)) and hi < (1 << (8 * n - 1)):
                return t
            if not signed and lo >= 0 and hi < (1 << (8 * n)):
                return t
        return A(atom("cast", t, 8 * n, signed, lo=-(1 << (8 * n - 1)) if signed else 0, hi=(1 << (8 * n - 1)) - 1 if signed else (1 << (8 * n)) - 1))
    if not signed and all(isinstance(b, int) and b == 0 for b in bs[1:]):
        return bs[0]
    return A(atom("le", signed, *bs, lo=-(1 << (8 * n - 1)) if signed else 0, hi=(1 << (8 * n - 1)) - 1 if signed else (1 << (8 * n)) - 1))


def lift_bytes(f, bs):
    """Alternatives inside a byte list: align equal condition sets, otherwise branch one by one."""
    for i, b in enumerate(bs):
        if isk(b, "case"):
            out = []
            for c, w in b.a:
                rest = []
                for x in bs:
                    rest.append(under(x, c))
                rest[i] = w
                out.append((c, f(rest)))
            return mkcase(out)
    return f(bs)


def under(x, c):
    """Pick the alternative of x that condition c selects, if it does."""
    if isk(x, "case"):
        lits = set(c.a[0]) if isinstance(c, F) and c.k == "and" else {c}
        keep = []
        for d, w in x.a:
            k = known(d, lits)
            if k is True:
                return w
            if k is None:
                keep.append((d, w))
        if len(keep) < len(x.a):
            return mkcase(keep)
    return x


def known(f, lits):
    """True/False if f follows syntactically from the literals, else None."""
    if f is True or f is False:
        return f
    if f in lits:
        return True
    n = fnot(f)
    if n is True or n is False:
        return not n
    if n in lits:
        return False
    if f.k == "and":
        r = True
        for x in f.a[0]:
            k = known(x, lits)
            if k is False:
                return False
            if k is None:
                r = None
        return r
    if f.k == "or":
        r = False
        for x in f.a[0]:
            k = known(x, lits)
            if k is True:
                return True
            if k is None:
                r = None
        return r
    return None


def whole_of(bs, n):
    """t if bs are bytes 0..n-1 of the n-byte term t."""
    t = None
    for k, b in enumerate(bs):
        a = is_atom(b) if not isinstance(b, V) else None
        if a is None or a.kind != "ext" or a.args[1] != k or a.args[2] != n:
            return None
        if t is None:
            t = a.args[0]
        elif not same(t, a.args[0]):
            return None
    return t


def le_rebuild(a, args):
    return toint(int_from_bytes(list(args[1:]), args[0]))


REBUILD["le"] = le_rebuild


def wrap_int(p, bits, signed):
    """Reduce modulo 2^bits (reinterpretation of the low bits)."""
    if isk(p, "case"):
        return lift(lambda x: wrap_int(x, bits, signed), p)
    if isinstance(p, int):
        p &= (1 << bits) - 1
        return p - (1 << bits) if signed and p >> (bits - 1) else p
    if not isint(p):
        p = toint(p)
    lo, hi = interval(p)
    tl, th = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if lo is not None and hi is not None and lo >= tl and hi <= th:
        return p
    a = is_atom(p)
    if a is not None and a.kind == "cast" and bits <= a.args[1]:
        return wrap_int(a.args[0], bits, signed)
    if a is not None and a.kind == "le" and len(a.args) - 1 >= bits // 8:
        return int_from_bytes(list(a.args[1:1 + bits // 8]), signed)
    return A(atom("cast", p, bits, signed, lo=tl, hi=th))


REBUILD["cast"] = lambda a, args: toint(wrap_int(args[0], args[1], args[2]))


def fl_from_bytes(bs):
    n = len(bs)
    if any(isk(b, "undef") for b in bs):
        return UNDEF
    if any(isk(b, "case") for b in bs):
        return lift_bytes(fl_from_bytes, bs)
    t = whole_of(bs, n)
    if t is not None and isk(t, "fl"):
        return t
    return mkv("fl", 8 * n, ("bytes",) + tuple(bs))


# ------------------------------------------------------------------ floats
# fl(bits, t) with t = sym(name, index..., marker) | bytes(b0, b1, ...) | op(name, operands...) | cvt(x) | int(n)
FLOATS = atom("var", "$floats", lo=0, hi=1 << 20)
FTEMPL = {}


def fl_sym(bits, name, args):
    """An arbitrary float. The marker lets a substitution fix the floats of an example input."""
    return mkv("fl", bits, ("sym", name) + tuple(args) + (A(FLOATS),))


def fl_const(bits, pattern):
    return mkv("fl", bits, ("bytes",) + tuple((pattern >> (8 * i)) & 255 for i in range(bits // 8)))


def fl_pattern(v):
    """Bit pattern of a known float."""
    if isk(v, "fl") and v.a[1][0] == "bytes" and all(isinstance(b, int) for b in v.a[1][1:]):
        return sum(b << (8 * i) for i, b in enumerate(v.a[1][1:]))
    return None


def fl_value(v):
    p = fl_pattern(v)
    if p is None:
        return None
    return struct.unpack("<f" if v.a[0] == 32 else "<d", p.to_bytes(v.a[0] // 8, "little"))[0]


def fl_of_value(bits, x):
    """The nearest float of that width (x is the exact result, or one rounded to 64 bits)."""
    if x != x:
        return None
    try:
        b = struct.pack("<f" if bits == 32 else "<d", x)
    except OverflowError:
        return None
    return fl_const(bits, int.from_bytes(b, "little"))


def mkfl(bits, t):
    """A float term; known operands are computed."""
    r = None
    if t[0] == "op" and t[1] == "const":
        r = fl_of_value(bits, float(t[2]))
    elif t[0] == "op" and t[1] == "Neg":
        p = fl_pattern(t[2])
        r = None if p is None else fl_const(bits, p ^ (1 << (bits - 1)))
    elif t[0] == "op" and len(t) == 4:
        x, y = fl_value(t[2]), fl_value(t[3])
        if x is not None and y is not None:
            try:
                z = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x / y}[t[1]]()
                r = fl_of_value(bits, z)
            except (KeyError, ZeroDivisionError, OverflowError):
                r = None
    elif t[0] == "cvt":
        x = fl_value(t[1])
        r = None if x is None else fl_of_value(bits, x)
    elif t[0] == "int" and isinstance(t[1], int) and abs(t[1]) < 1 << 53:
        r = fl_of_value(bits, float(t[1]))
    return r if r is not None else mkv("fl", bits, t)


def fcmp(op, a, b):
    x, y = fl_value(a), fl_value(b)
    if x is not None and y is not None:
        return {"Eq": x == y, "Lt": x < y, "Le": x <= y}[op] if op in ("Eq", "Lt", "Le") else form("b", "fcmp", op, a, b)
    if isk(a, "case") or isk(b, "case"):
        if nalts(a) * nalts(b) <= 16:
            return tobool(lift2(lambda p, q: fcmp(op, p, q), a, b))
    if op == "Eq" and isinstance(a, V) and isinstance(b, V) and b.id < a.id:
        a, b = b, a
    return form("b", "fcmp", op, a, b)


BREBUILD["fcmp"] = fcmp


def fl_rebuild(bits, t, f):
    if t[0] == "bytes":
        return fl_from_bytes([f(x) for x in t[1:]])
    t = tuple(f(x) if not isinstance(x, str) else x for x in t)
    if t[0] == "sym":
        if isinstance(t[-1], int):
            p = FTEMPL[t[-1]](bits, t[1:-1])
            if p is not None:
                return fl_const(bits, p)
        return mkv("fl", bits, t)
    if any(isk(x, "case") for x in t):
        i = next(i for i, x in enumerate(t) if isk(x, "case"))
        return lift(lambda w: fl_rebuild(bits, t[:i] + (w,) + t[i + 1:], lambda x: x), t[i])
    return mkfl(bits, t)


# ------------------------------------------------------------------ sequences
# list(elems) | comp(n, body, level) | flat(n, chunk, level) | cat(pieces) | opt(c, value)
# filt(n, cond, body, level) | over(base, ty, off, len, src, srcty, srcoff) | uninit | rep(n, v)
def seq_list(xs):
    return mkv("list", tuple(xs))


def comp(n, body, i):
    """Sequence body(0), ..., body(n-1) for the free index i."""
    if isinstance(n, int) and n <= 64:
        return seq_list([subst(body, {i: k}) for k in range(n)])
    if not at_has(body, i):
        return mkv("rep", n, body)
    b, level = close(body, i)
    return mkv("comp", n, b, level)


def at_has(x, i):
    return i in at_of(x)


def flat(n, chunk, i):
    if len(chunk) == 1:
        return comp(n, chunk[0], i)
    if isinstance(n, int) and n <= 16:
        return seq_list([subst(c, {i: k}) for k in range(n) for c in chunk])
    b, level = close(tuple(chunk), i)
    return mkv("flat", n, b, level)


def filt(n, cond, body, i):
    b, level = close((cond, body), i)
    return mkv("filt", n, b[0], b[1], level)


def cat(pieces):
    out = []
    for p in pieces:
        if isk(p, "cat"):
            out.extend(p.a[0])
        elif isk(p, "list") and not p.a[0]:
            continue
        elif isk(p, "list") and out and isk(out[-1], "list"):
            out[-1] = seq_list(out[-1].a[0] + p.a[0])
        elif isk(p, "uninit"):
            continue
        else:
            out.append(p)
    if not out:
        return seq_list([])
    if len(out) == 1 and not isk(out[0], "opt"):
        return out[0]
    return mkv("cat", tuple(out))


def opt(c, v):
    if c is True:
        return seq_list([v])
    if c is False:
        return seq_list([])
    return mkv("opt", c, v)


def seqlen(s):
    """Number of elements of a sequence value (None if unknown)."""
    if not isinstance(s, V):
        return None
    k = s.k
    if k == "list":
        return len(s.a[0])
    if k in ("comp", "rep"):
        return s.a[0]
    if k == "flat":
        return scale(s.a[0], len(s.a[1]))
    if k == "cat":
        t = 0
        for p in s.a[0]:
            n = seqlen(p)
            if n is None:
                return None
            t = add(t, n)
        return t
    if k == "opt":
        return ind(s.a[0])
    if k == "filt":
        n, c, b, level = s.a
        return msum(n, ind(c), level)
    if k == "over":
        return seqlen(s.a[0])
    if k == "uninitn":
        return s.a[0]
    if k == "case":
        ns = [(c, seqlen(w)) for c, w in s.a]
        if any(n is None for _, n in ns):
            return None
        return mkcase(ns)
    if k == "hole":
        return None
    return None


def msum(n, body, level):
    """Sum of body over the bound index (closed at level)."""
    if isinstance(n, int) and n <= 64:
        t = 0
        for k in range(n):
            t = add(t, open_at(body, level, k))
        return t
    if isint(body) and bv(level) not in at_of(body):
        return mul(n, body)
    lo, hi = interval(body) if isint(body) else (None, None)
    return A(atom("sum", n, body, level, lo=0 if lo is not None and lo >= 0 else None))


def open_rebuild(kind, a, args):
    return A(atom(kind, *args, lo=a.lo, hi=a.hi))


def sum_over(n, body, i):
    b, level = close(body, i)
    return msum(n, b, level)


def subst_binder(f, body, level):
    """Rebuild the body of a binder: open at a fresh index, substitute outside terms."""
    i = new_idx()
    return f(open_at(body, level, A(i))), i


def sum_rebuild(a, args):
    # the bound index of this binder is protected by opening before substitution
    n, body, level = args
    return msum(n, body, level)


REBUILD["sum"] = sum_rebuild


VREBUILD = {}


def unk_rebuild(a, args):
    v = args[0]
    if isinstance(v, V) and v.k not in ("unk", "get", "fld", "hole"):
        return toint(v, a.lo, a.hi)
    return A(atom("unk", *args, lo=a.lo, hi=a.hi))


REBUILD["unk"] = unk_rebuild


def bunk_rebuild(*args):
    if len(args) == 1 and isinstance(args[0], (V, F, bool)):
        v = args[0]
        if isbool(v) or v.k not in ("unk", "get", "fld", "hole"):
            return tobool(v)
    return form("b", "unk", *args)


BREBUILD["unk"] = bunk_rebuild


def rebuild(v, f):
    k, a = v.k, v.a
    h = VREBUILD.get(k)
    if h:
        return h(*[f(x) for x in a])
    if k == "case":
        return mkcase([(f(c), f(w)) for c, w in a])
    if k == "agg":
        return mkv("agg", a[0], tuple(f(x) for x in a[1]))
    if k == "list":
        return seq_list([f(x) for x in a[0]])
    if k == "comp":
        b, i = subst_binder(f, a[1], a[2])
        return comp(f(a[0]), b, i)
    if k == "flat":
        b, i = subst_binder(f, a[1], a[2])
        return flat(f(a[0]), b, i)
    if k == "filt":
        b, i = subst_binder(f, (a[1], a[2]), a[3])
        return filt(f(a[0]), b[0], b[1], i)
    if k == "cat":
        return cat([f(x) for x in a[0]])
    if k == "opt":
        return opt(f(a[0]), f(a[1]))
    if k == "fl":
        return fl_rebuild(a[0], a[1], f)
    return mkv(k, *[f(x) for x in a])


# ------------------------------------------------------------------ printing
def showv(v, d=0):
    if d > 7:
        return "…"
    if isinstance(v, tuple):
        return "(" + ", ".join(showv(x, d + 1) for x in v) + ")"
    if not isinstance(v, V):
        return show(v)
    k, a = v.k, v.a
    s = lambda x: showv(x, d + 1)
    if k == "agg":
        return ("%s" % (("v%s" % a[0]) if a[0] else "")) + "{" + ", ".join(s(x) for x in a[1]) + "}"
    if k == "case":
        return "<" + " | ".join(f"{show(c)} -> {s(w)}" for c, w in a) + ">"
    if k == "list":
        return "[" + ", ".join(s(x) for x in a[0]) + "]"
    if k == "comp":
        return f"[{s(a[1])} for #{a[2]} < {show(a[0])}]"
    if k == "flat":
        return f"[{s(a[1])}... for #{a[2]} < {show(a[0])}]"
    if k == "fl":
        return "f%d:%s" % (a[0], showv(a[1], d + 1)) if a[1][0] != "sym" else "%s%s" % (a[1][1], showv(a[1][2:-1], d + 1) if len(a[1]) > 3 else "")
    if k == "str":
        return repr(a[0][1]) if a[0][0] == "lit" else "str" + showv(tuple(y for y in a[0] if not (isinstance(y, Poly) and show(y) == "$names")), d + 1)
    return k + "(" + ", ".join(s(x) for x in a) + ")"
