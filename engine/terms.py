"""Hash-consed integer polynomials, conditions and substitutions: the expression layer of the
value graphs the analyses work on."""
from math import gcd

I64MAX = (1 << 63) - 1
U64MAX = (1 << 64) - 1


class Atom:
    __slots__ = ("kind", "args", "lo", "hi", "id", "at", "taint", "idx")

    def __repr__(self):
        return show_atom(self)


_atoms = {}
_ctr = [0]
EMPTY = frozenset()


def fresh_id():
    _ctr[0] += 1
    return _ctr[0]


def at_of(x):
    """All atoms occurring anywhere in a term."""
    if isinstance(x, (int, str, bool, float)) or x is None:
        return EMPTY
    if isinstance(x, Atom):
        return x.at
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            a = at_of(y)
            if a:
                r = r | a
        return r
    a = getattr(x, "at", None)
    return a if a is not None else EMPTY


def atom(kind, *args, lo=None, hi=None):
    key = (kind, args, lo, hi) if kind in ("var", "fn") else (kind, args)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind = kind
    a.args = args
    a.lo = lo
    a.hi = hi
    a.id = fresh_id()
    sub = at_of(args)
    a.at = sub | {a}
    a.taint = kind == "unk" or any(x.taint for x in sub)
    a.idx = kind == "idx"
    _atoms[key] = a
    return a


class Poly:
    __slots__ = ("m", "at", "id", "_iv")

    def __repr__(self):
        return show(self)


_polys = {}


def mk(m):
    """Integer or interned polynomial from a monomial dictionary."""
    m = {k: v for k, v in m.items() if v}
    if not m:
        return 0
    if len(m) == 1 and () in m:
        return m[()]
    key = frozenset(m.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.m = m
        p.id = fresh_id()
        s = set()
        for k in m:
            for a in k:
                s |= a.at
        p.at = frozenset(s)
        p._iv = None
        _polys[key] = p
    return p


def A(a):
    return mk({(a,): 1})


def var(name, lo=None, hi=None):
    return A(atom("var", name, lo=lo, hi=hi))


def fn(name, args, lo=None, hi=None):
    return A(atom("fn", name, *args, lo=lo, hi=hi))


def unk(lo=None, hi=None):
    return A(atom("unk", fresh_id(), lo=lo, hi=hi))


def new_idx():
    """A fresh loop index."""
    return atom("idx", fresh_id(), lo=0, hi=I64MAX)


def bv(level):
    return atom("bv", level, lo=0, hi=I64MAX)


def close(body, i):
    """Turn the free index i of a term into the bound index of a new binder; returns (body, level)."""
    level = 1 + max([a.args[0] for a in at_of(body) if a.kind == "bv"], default=0)
    return subst(body, {i: A(bv(level))}), level


def open_at(body, level, k):
    return subst(body, {bv(level): k})


BINDERS = {"first": 0, "sum": 0, "ex": 0, "comp": 0, "flat": 0, "filt": 0}
_free = {}


def free_bv(x):
    """Levels of the bound indices that occur outside their binder."""
    if isinstance(x, (int, str, bool, float)) or x is None:
        return EMPTY
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            r = r | free_bv(y)
        return r
    if not any(a.kind == "bv" for a in at_of(x)):
        return EMPTY
    r = _free.get(x)
    if r is None:
        if isinstance(x, Atom) and x.kind == "bv":
            r = frozenset((x.args[0],))
        elif isinstance(x, Poly):
            r = EMPTY
            for k in x.m:
                r = r | free_bv(k)
        else:
            kind, args = (x.kind, x.args) if isinstance(x, Atom) else (x.k, x.a)
            if kind in BINDERS and isinstance(args[-1], int):
                r = free_bv(args[0]) | frozenset(l for l in free_bv(args[1:-1]) if l != args[-1])
            else:
                r = free_bv(args)
        _free[x] = r
    return r


def mono(p):
    return {(): p} if isinstance(p, int) else p.m


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if a == 0 and isinstance(a, int):
        return b
    if b == 0 and isinstance(b, int):
        return a
    m = dict(mono(a))
    for k, v in mono(b).items():
        m[k] = m.get(k, 0) + v
    return mk(m)


def scale(a, c):
    if isinstance(a, int):
        return a * c
    if c == 1:
        return a
    return mk({k: v * c for k, v in a.m.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if isinstance(a, int):
        return scale(b, a)
    if isinstance(b, int):
        return scale(a, b)
    m = {}
    for k1, v1 in a.m.items():
        for k2, v2 in b.m.items():
            k = tuple(sorted(k1 + k2, key=lambda x: x.id))
            if len(k) > 1 and any(x.kind == "ind" for x in k):
                k = ind_product(k)
                if k is None:
                    continue
            m[k] = m.get(k, 0) + v1 * v2
    return mk(m)


def ind_product(k):
    """Simplify a product with indicators: repeated ones, and x * [x >= 1] = x, x * [x == 0] = 0."""
    out = []
    others = [x for x in k if x.kind != "ind"]
    for n, a in enumerate(k):
        if a.kind == "ind":
            if a in k[:n]:
                continue
            c = a.args[0]
            if isinstance(c, F) and c.k in ("ge", "eq"):
                drop = False
                for x in others:
                    if x.lo == 0 or (x.lo is not None and x.lo > 0):
                        p = c.a[0].m
                        if c.k == "ge" and p == {(x,): 1, (): -1}:
                            drop = True
                        elif p == {(x,): 1} and c.k == "eq" or p == {(x,): -1}:
                            return None
                if drop:
                    continue
        out.append(a)
    return tuple(out)


def const_part(p):
    return p if isinstance(p, int) else p.m.get((), 0)


def is_atom(p):
    """The atom p consists of, if it is one."""
    if isinstance(p, Poly) and len(p.m) == 1:
        (k, v), = p.m.items()
        if len(k) == 1 and v == 1:
            return k[0]
    return None


def interval(p):
    """Syntactic bounds of a polynomial (None = unbounded)."""
    if isinstance(p, int):
        return p, p
    if p._iv is not None:
        return p._iv
    lo, hi = 0, 0
    for k, c in p.m.items():
        ml, mh = 1, 1
        for a in k:
            al, ah = a.lo, a.hi
            if ml is None or al is None or ml < 0 or al < 0:
                if ml is not None and mh is not None and al is not None and ah is not None:
                    c4 = [ml * al, ml * ah, mh * al, mh * ah]
                    ml, mh = min(c4), max(c4)
                else:
                    ml = mh = None
                    break
            else:
                ml = ml * al
                mh = None if mh is None or ah is None else mh * ah
        if c > 0:
            l, h = (None if ml is None else ml * c), (None if mh is None else mh * c)
        else:
            l, h = (None if mh is None else mh * c), (None if ml is None else ml * c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    p._iv = (lo, hi)
    return p._iv


# ---------------------------------------------------------------- conditions
class F:
    """kinds: ge p | eq p | b key | not f | and fs | or fs | ex n body depth"""
    __slots__ = ("k", "a", "at", "id", "taint", "_neg", "qd")

    def __repr__(self):
        return show(self)


_forms = {}


def form(k, *a):
    key = (k, a)
    f = _forms.get(key)
    if f is None:
        f = F()
        f.k = k
        f.a = a
        f.id = fresh_id()
        f.at = at_of(a)
        f._neg = None
        f.taint = any(x.taint for x in f.at) or (k == "b" and a[0] == "unk")
        if k in ("and", "or"):
            f.taint = f.taint or any(x.taint for x in a[0])
        elif k == "not":
            f.taint = f.taint or a[0].taint
        elif k == "ex":
            f.taint = f.taint or (isinstance(a[1], F) and a[1].taint)
        _forms[key] = f
    return f


def at_formset(fs):
    r = EMPTY
    for f in fs:
        r |= f.at
    return r


def ge(p):
    """p >= 0"""
    if isinstance(p, int):
        return p >= 0
    lo, hi = interval(p)
    if lo is not None and lo >= 0:
        return True
    if hi is not None and hi < 0:
        return False
    g = 0
    for k, v in p.m.items():
        if k:
            g = gcd(g, v)
    if g > 1:
        c = p.m.get((), 0)
        m = {k: v // g for k, v in p.m.items() if k}
        m[()] = c // g  # floor
        p = mk(m)
        lo, hi = interval(p)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
    r = inds_ge(p)
    return form("ge", p) if r is None else r


def inds(p):
    """Conditions of a non-negative combination of indicators, or None."""
    out = []
    for k, v in p.m.items():
        if not k:
            continue
        if len(k) != 1 or k[0].kind != "ind" or v < 1:
            return None
        out.append((k[0].args[0], v))
    return out


def inds_ge(p):
    c = p.m.get((), 0)
    if c < 0:
        cs = inds(p)
        if cs and all(v >= -c for _, v in cs):
            return f_or([f for f, _ in cs])
    elif c >= 0 and len(p.m) == 1:
        pass
    q = inds(neg(p))
    if q is not None and c >= 0 and q and all(v > c for _, v in q):
        return f_and([fnot(f) for f, _ in q])
    if q is not None and len(q) > 0 and c == sum(v for _, v in q) - 1:
        return f_or([fnot(f) for f, _ in q])
    return None


def le(a, b):
    return ge(sub(b, a))


def lt(a, b):
    return ge(sub(sub(b, a), 1))


def eq(a, b=0):
    p = sub(a, b)
    if isinstance(p, int):
        return p == 0
    lo, hi = interval(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    cs = inds(p) or inds(neg(p))
    if cs and const_part(p) == 0:
        return f_and([fnot(f) for f, _ in cs])
    if cs and abs(const_part(p)) == sum(v for _, v in cs):
        return f_and([f for f, _ in cs])
    g = 0
    for k, v in p.m.items():
        if k:
            g = gcd(g, v)
    c = p.m.get((), 0)
    if c % g:
        return False
    first = min((k for k in p.m if k), key=lambda k: [a.id for a in k])
    s = -1 if p.m[first] < 0 else 1
    if g > 1 or s < 0:
        p = mk({k: s * (v // g) for k, v in p.m.items()})
    return form("eq", p)


def bat(*key):
    return form("b", *key)


def unkb():
    return form("b", "unk", fresh_id())


def fnot(f):
    if f is True:
        return False
    if f is False:
        return True
    if f._neg is not None:
        return f._neg
    if f.k == "not":
        r = f.a[0]
    elif f.k == "ge":
        r = ge(sub(neg(f.a[0]), 1))
    elif f.k == "and":
        r = f_or([fnot(x) for x in f.a[0]])
    elif f.k == "or":
        r = f_and([fnot(x) for x in f.a[0]])
    else:
        r = form("not", f)
    f._neg = r
    if isinstance(r, F):
        r._neg = f
    return r


def _sorted(fs):
    return tuple(sorted(fs, key=lambda f: f.id))


def f_and(fs):
    s = {}
    stack = list(fs)
    while stack:
        f = stack.pop()
        if f is True:
            continue
        if f is False:
            return False
        if f.k == "and":
            stack.extend(f.a[0])
        else:
            s[f] = 1
    for f in s:
        # the negation of a disjunction is a conjunction, and there is none among the members
        if f.k != "or" and fnot(f) in s:
            return False
    if not s:
        return True
    # absorption: drop disjunctions with a member in the conjunction, shorten by contradicted members
    ors = [f for f in s if f.k == "or"]
    if ors and len(s) > 1:
        changed = False
        for o in ors:
            mem = []
            sat = False
            for x in o.a[0]:
                if x in s or (x.k == "and" and all(y in s for y in x.a[0])):
                    sat = True
                    break
                nx = fnot(x)
                if nx in s or (x.k == "and" and any(fnot(y) in s for y in x.a[0])):
                    continue
                mem.append(x)
            if sat:
                del s[o]
                changed = True
            elif len(mem) < len(o.a[0]):
                del s[o]
                r = f_or(mem)
                if r is False:
                    return False
                return f_and(list(s) + [r])
        if changed and not s:
            return True
    if len(s) == 1:
        return next(iter(s))
    return form("and", _sorted(s))


def f_or(fs):
    s = {}
    stack = list(fs)
    while stack:
        f = stack.pop()
        if f is False:
            continue
        if f is True:
            return True
        if f.k == "or":
            stack.extend(f.a[0])
        else:
            s[f] = 1
    for f in s:
        if f.k != "and" and fnot(f) in s:
            return True
    if not s:
        return False
    if len(s) == 1:
        return next(iter(s))
    eqs = {}
    for f in s:
        if f.k == "eq" and len(f.a[0].m) <= 2:
            p = f.a[0]
            ks = [k for k in p.m if k]
            if len(ks) == 1 and len(ks[0]) == 1 and p.m[ks[0]] == 1:
                eqs.setdefault(ks[0][0], set()).add(-p.m.get((), 0))
    for a, vs in eqs.items():
        if a.lo is not None and a.hi is not None and a.hi - a.lo + 1 == len(vs):
            return True
    ands = [f for f in s if f.k == "and"]
    if ands:
        for o in ands:
            mem = []
            for x in o.a[0]:
                if fnot(x) in s:
                    continue  # a or (not a and b) = a or b
                mem.append(x)
            if any(x in s for x in o.a[0]):
                del s[o]
                return f_or(list(s))
            if len(mem) < len(o.a[0]):
                del s[o]
                return f_or(list(s) + [f_and(mem)])
        if len(ands) > 1 and len(ands) == len(s):
            common = set(ands[0].a[0])
            for o in ands[1:]:
                common &= set(o.a[0])
            if common:
                rest = [f_and([x for x in o.a[0] if x not in common]) for o in ands]
                return f_and(list(common) + [f_or(rest)])
        # resolve pairs that differ in one complementary literal
        if len(ands) <= 12:
            for i, x in enumerate(ands):
                sx = set(x.a[0])
                for y in ands[i + 1:]:
                    sy = set(y.a[0])
                    d1 = sx - sy
                    d2 = sy - sx
                    if len(d1) == 1 and len(d2) == 1 and fnot(next(iter(d1))) is next(iter(d2)):
                        del s[x]
                        del s[y]
                        return f_or(list(s) + [f_and(list(sx & sy))])
    return form("or", _sorted(s))


def implies(a, b):
    return f_or([fnot(a), b])


def ite_f(c, a, b):
    return f_or([f_and([c, a]), f_and([fnot(c), b])])


def exists(n, body, i):
    """exists i in 0..n: body"""
    if body is False or (isinstance(n, int) and n <= 0):
        return False
    if isinstance(n, int) and n <= 32:
        return f_or([subst(body, {i: k}) for k in range(n)])
    if body is True or i not in body.at:
        return f_and([lt(0, n), body])
    if body.k == "or":
        return f_or([exists(n, b, i) for b in body.a[0]])
    b, level = close(body, i)
    return form("ex", n, b, level)


def forall(n, body, i):
    return fnot(exists(n, fnot(body), i))


# ---------------------------------------------------------------- substitution
def subst(x, mp, memo=None):
    """Replace atoms by integers/polynomials everywhere in a term."""
    if memo is None:
        memo = {}
    keys = mp.keys()
    return _subst(x, mp, keys, memo)


def _subst(x, mp, keys, memo):
    if isinstance(x, (int, str, bool, float)) or x is None:
        return x
    if isinstance(x, tuple):
        if not any(a in keys for a in at_of(x)):
            return x
        return tuple(_subst(y, mp, keys, memo) for y in x)
    at = x.at
    for k in keys:
        if k in at:
            break
    else:
        return x
    r = memo.get(x)
    if r is not None:
        return r
    if isinstance(x, Poly):
        r = 0
        for k, c in x.m.items():
            t = c
            rest = []
            for a in k:
                b = _subst_atom(a, mp, keys, memo)
                t = mul(t, b)
            r = add(r, t)
    elif isinstance(x, Atom):
        r = _subst_atom(x, mp, keys, memo)
    elif isinstance(x, F):
        r = _subst_f(x, mp, keys, memo)
    else:
        r = x.subst(lambda y: _subst(y, mp, keys, memo))
    memo[x] = r
    return r


def _subst_atom(a, mp, keys, memo):
    if a in mp:
        return mp[a]
    for k in keys:
        if k in a.at:
            break
    else:
        return A(a)
    r = memo.get(a)
    if r is not None:
        return r
    r = rebuild_atom(a, tuple(_subst(y, mp, keys, memo) for y in a.args))
    memo[a] = r
    return r


REBUILD = {}


def rebuild_atom(a, args):
    h = REBUILD.get(a.kind)
    if h:
        return h(a, args)
    return A(atom(a.kind, *args, lo=a.lo, hi=a.hi))


BREBUILD = {}


def _subst_f(f, mp, keys, memo):
    k = f.k
    if k == "ge":
        return ge(_subst(f.a[0], mp, keys, memo))
    if k == "eq":
        return eq(_subst(f.a[0], mp, keys, memo))
    if k == "not":
        return fnot(_subst(f.a[0], mp, keys, memo))
    if k == "and":
        return f_and([_subst(y, mp, keys, memo) for y in f.a[0]])
    if k == "or":
        return f_or([_subst(y, mp, keys, memo) for y in f.a[0]])
    if k == "ex":
        n, body, level = f.a
        i = new_idx()
        return exists(_subst(n, mp, keys, memo), subst_under(body, level, i, mp), i)
    if k == "b":
        h = BREBUILD.get(f.a[0])
        args = tuple(_subst(y, mp, keys, memo) for y in f.a)
        return h(*args[1:]) if h else form("b", *args)
    raise ValueError(k)


def subst_under(body, level, i, mp):
    """Substitute in a binder's body after opening it at the fresh index i."""
    b = bv(level)
    mp2 = {q: v for q, v in mp.items() if q is not b}
    body = subst(body, {b: A(i)})
    return subst(body, mp2) if mp2 else body


# ---------------------------------------------------------------- printing
def show_atom(a):
    if a.kind == "var":
        return str(a.args[0])
    if a.kind == "idx":
        return "k%s" % a.args[0]
    if a.kind == "bv":
        return "#%s" % a.args[0]
    if a.kind == "fn":
        return "%s(%s)" % (a.args[0], ",".join(show(x) for x in a.args[1:]))
    return "%s[%s]" % (a.kind, ",".join(show(x) for x in a.args))


def show(x, d=0):
    if isinstance(x, Poly):
        out = []
        for k, c in sorted(x.m.items(), key=lambda kv: (len(kv[0]) == 0, [a.id for a in kv[0]])):
            t = "*".join(show_atom(a) for a in k)
            if not k:
                t = str(abs(c))
            elif abs(c) != 1:
                t = "%d*%s" % (abs(c), t)
            out.append(("-" if c < 0 else "+", t))
        s = " ".join(f"{a} {b}" for a, b in out)
        return s[2:] if s.startswith("+ ") else s.replace("- ", "-", 1)
    if isinstance(x, F):
        if x.k == "ge":
            return f"{show(x.a[0])} >= 0"
        if x.k == "eq":
            return f"{show(x.a[0])} == 0"
        if x.k == "not":
            if x.a[0].k == "eq":
                return f"{show(x.a[0].a[0])} != 0"
            return f"!({show(x.a[0])})"
        if x.k == "and":
            return "(" + " && ".join(show(y) for y in x.a[0]) + ")"
        if x.k == "or":
            return "(" + " || ".join(show(y) for y in x.a[0]) + ")"
        if x.k == "ex":
            return f"exists #{x.a[2]} < {show(x.a[0])}: {show(x.a[1])}"
        if x.k == "b":
            return "%s(%s)" % (x.a[0], ",".join(show(y) for y in x.a[1:]))
    if isinstance(x, tuple):
        return "(" + ",".join(show(y) for y in x) + ")"
    return str(x)
