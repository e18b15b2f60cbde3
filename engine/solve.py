"""Entailment between conditions: linear integer inequalities over value-graph terms (exact rational
elimination with integer tightening), product bounds, equality propagation, finite case splits
and instantiation of quantified facts at the index terms that occur."""
from fractions import Fraction
from math import floor, ceil
import time
from terms import *

AXIOMS = {}  # atom kind -> function(atom) -> list of conditions that define it


DEEP = [False]


def bound(t):
    """The term may not be used outside its quantifier. The cheap answer also excludes terms that
    only mention bound indices inside a quantifier of their own."""
    if DEEP[0]:
        return free_bv(t)
    return any(x.kind == "bv" for x in at_of(t))


class Budget(Exception):
    pass


class Stats:
    queries = 0
    unsat = 0
    sat = 0
    unknown = 0
    faults = 0
    fault = ""


class Simplex:
    """Feasibility of a set of bounds on linear forms (Dutertre/de Moura)."""

    def __init__(self):
        self.rows = {}      # basic -> {nonbasic: coef}
        self.lo = {}
        self.hi = {}
        self.val = {}
        self.cols = {}      # nonbasic -> set of basics
        self.order = {}

    def addvar(self, v):
        if v not in self.val:
            self.val[v] = Fraction(0)
            self.order[v] = len(self.order)
            self.cols[v] = set()

    def addrow(self, s, lin):
        row = {}
        for v, c in lin.items():
            if v in self.rows:
                for w, d in self.rows[v].items():
                    row[w] = row.get(w, 0) + c * d
            else:
                row[v] = row.get(v, 0) + c
        row = {v: Fraction(c) for v, c in row.items() if c}
        self.order[s] = len(self.order)
        self.rows[s] = row
        for v in row:
            self.cols[v].add(s)
        self.val[s] = sum((c * self.val[v] for v, c in row.items()), Fraction(0))

    def bound(self, v, lo=None, hi=None):
        if lo is not None:
            o = self.lo.get(v)
            if o is None or lo > o:
                self.lo[v] = lo
        if hi is not None:
            o = self.hi.get(v)
            if o is None or hi < o:
                self.hi[v] = hi
        if v in self.lo and v in self.hi and self.lo[v] > self.hi[v]:
            return False
        if v not in self.rows:
            x = self.val[v]
            if v in self.lo and x < self.lo[v]:
                self.update(v, self.lo[v])
            elif v in self.hi and x > self.hi[v]:
                self.update(v, self.hi[v])
        return True

    def update(self, v, x):
        d = x - self.val[v]
        self.val[v] = x
        for b in self.cols[v]:
            self.val[b] += self.rows[b][v] * d

    def pivot(self, b, n, x):
        row = self.rows.pop(b)
        a = row[n]
        theta = (x - self.val[b]) / a
        self.val[b] = x
        self.val[n] += theta
        for r in self.cols[n]:
            if r != b:
                self.val[r] += self.rows[r][n] * theta
        # n = b/a - sum others/a
        new = {w: -c / a for w, c in row.items() if w != n}
        new[b] = 1 / a
        for w in row:
            self.cols[w].discard(b)
        touched = list(self.cols.pop(n))
        self.cols[b] = set()
        for r in touched:
            if r == b:
                continue
            rr = self.rows[r]
            c = rr.pop(n)
            for w, d in new.items():
                z = rr.get(w, 0) + c * d
                if z:
                    rr[w] = z
                    self.cols[w].add(r)
                else:
                    rr.pop(w, None)
                    self.cols[w].discard(r)
        self.rows[n] = new
        for w in new:
            self.cols[w].add(n)

    def check(self, limit=400):
        it = 0
        while True:
            it += 1
            if it > limit:
                raise Budget()
            bad = None
            for b in self.rows:
                x = self.val[b]
                if (b in self.lo and x < self.lo[b]) or (b in self.hi and x > self.hi[b]):
                    if bad is None or self.order[b] < self.order[bad]:
                        bad = b
            if bad is None:
                return True
            b = bad
            x = self.val[b]
            row = self.rows[b]
            pick = None
            if b in self.lo and x < self.lo[b]:
                target = self.lo[b]
                for n, c in row.items():
                    if (c > 0 and (n not in self.hi or self.val[n] < self.hi[n])) or (
                        c < 0 and (n not in self.lo or self.val[n] > self.lo[n])
                    ):
                        if pick is None or self.order[n] < self.order[pick]:
                            pick = n
            else:
                target = self.hi[b]
                for n, c in row.items():
                    if (c < 0 and (n not in self.hi or self.val[n] < self.hi[n])) or (
                        c > 0 and (n not in self.lo or self.val[n] > self.lo[n])
                    ):
                        if pick is None or self.order[n] < self.order[pick]:
                            pick = n
            if pick is None:
                return False
            self.pivot(b, pick, target)


def lin_system(ineqs, ranges=True):
    """Simplex instance for a list of polynomials that must be >= 0; monomials are the columns."""
    s = Simplex()
    seen = {}
    monos = set()
    for p in ineqs:
        for k in p.m:
            if k:
                monos.add(k)
    for k in sorted(monos, key=lambda k: [a.id for a in k]):
        s.addvar(k)
        if ranges:
            lo, hi = interval(mk({k: 1}))
            if not s.bound(k, None if lo is None else Fraction(lo), None if hi is None else Fraction(hi)):
                return None
    n = 0
    for p in ineqs:
        c = p.m.get((), 0)
        lin = {k: v for k, v in p.m.items() if k}
        if len(lin) == 1:
            (k, v), = lin.items()
            b = Fraction(-c, v)
            if v > 0:
                ok = s.bound(k, lo=Fraction(ceil(b)))
            else:
                ok = s.bound(k, hi=Fraction(floor(b)))
            if not ok:
                return None
            continue
        # normalise direction so that opposite inequalities share a row
        items = tuple(sorted(lin.items(), key=lambda kv: [a.id for a in kv[0]]))
        sg = 1 if items[0][1] > 0 else -1
        key = tuple((k, sg * v) for k, v in items)
        if key not in seen:
            n += 1
            seen[key] = ("r", n)
            s.addrow(("r", n), dict(key))
        r = seen[key]
        ok = s.bound(r, lo=Fraction(-c)) if sg > 0 else s.bound(r, hi=Fraction(c))
        if not ok:
            return None
    return s


def products(ineqs, deg=3, cap=400):
    """Products of inequalities with non-negative atoms, for atoms occurring in existing monomials."""
    need = set()
    for p in ineqs:
        for k in p.m:
            if len(k) >= 2:
                need.add(k)
    if not need:
        return []
    out = []
    mult = set()
    for k in need:
        for n in range(len(k)):
            mult.add((k[n],))
        if len(k) >= 3:
            for n in range(len(k)):
                mult.add(k[:n] + k[n + 1:])
    mult = [m for m in mult if all(a.lo is not None and a.lo >= 0 for a in m)]
    for m in sorted(mult, key=lambda m: (len(m), [a.id for a in m])):
        mp = mk({m: 1})
        for p in ineqs:
            mons = [k for k in p.m if k]
            if len(mons) > 8:
                continue
            # useful only when a product monomial exists already
            hit = False
            ok = True
            for k in mons:
                kk = tuple(sorted(k + m, key=lambda x: x.id))
                if kk in need:
                    hit = True
                if len(kk) > deg:
                    ok = False
            if hit and ok:
                q = mul(p, mp)
                if isinstance(q, Poly):
                    out.append(q)
        if len(out) > cap:
            break
    return out


def infeasible_linear(ineqs):
    base = list(dict.fromkeys(ineqs))
    try:
        s = lin_system(base)
        if s is None or not s.check():
            return True
        pr = products(base)
        if pr:
            # lower bounds of atoms are inequalities too: a*b >= lo*b
            s = lin_system(list(dict.fromkeys(base + pr)))
            if s is None or not s.check(800):
                return True
    except Budget:
        return None
    return False


def literal_list(fs):
    out = []
    stack = list(fs)
    while stack:
        f = stack.pop()
        if f is True:
            continue
        if f is False:
            return None
        if f.k == "and":
            stack.extend(f.a[0])
        else:
            out.append(f)
    return list(dict.fromkeys(out))


def first_facts(a):
    """Definition of a first-index atom: (n, body, level)."""
    n, body, level = a.args
    j = A(a)
    i = new_idx()
    ex = exists(n, subst(body, {bv(level): A(i)}), i)
    at = open_at(body, level, j)
    return [f_or([fnot(ex), f_and([at, ge(j), lt(j, n)])])]


AXIOMS["first"] = first_facts


def first_rebuild(a, args):
    n, body, level = args
    if isinstance(n, int) and n <= 32 and not isinstance(body, bool):
        for k in range(n):
            c = open_at(body, level, k)
            if c is True:
                return k
            if c is not False:
                break
    elif body is True:
        return 0
    return A(atom("first", n, body, level, lo=0, hi=I64MAX))


REBUILD["first"] = first_rebuild


def gate_facts(a):
    v = a.args[0]
    return [f_or([f_and([c, eq(A(a), x)]) for c, x in v.a])]


AXIOMS["gate"] = gate_facts


def cast_facts(a):
    """A number in range keeps its value; one turn too far loses one turn."""
    p, bits, signed = a.args
    if not isinstance(p, Poly):
        return []
    n = 1 << bits
    lo, hi = (-(n >> 1), (n >> 1) - 1) if signed else (0, n - 1)
    out = [f_or([lt(p, lo), lt(hi, p), eq(A(a), p)])]
    if not signed:
        out.append(f_or([lt(p, n), le(2 * n, p), eq(A(a), sub(p, n))]))
    return out


AXIOMS["cast"] = cast_facts


def bit_facts(a):
    op, x, y = a.args[:3]
    if not all(isinstance(v, (int, Poly)) for v in (x, y)) or a.lo is None or a.lo < 0:
        return []
    if any((interval(v)[0] if isinstance(v, Poly) else v) is None or (interval(v)[0] if isinstance(v, Poly) else v) < 0 for v in (x, y)):
        return []
    r = A(a)
    if op == "BitAnd":
        return [le(r, x), le(r, y)]
    if op in ("BitOr", "BitXor"):
        return [le(r, add(x, y))] + ([le(x, r), le(y, r)] if op == "BitOr" else [])
    return []


AXIOMS["bit"] = bit_facts


def ind_facts(a):
    c = a.args[0]
    return [f_or([f_and([c, eq(A(a), 1)]), f_and([fnot(c), eq(A(a), 0)])])]


AXIOMS["ind"] = ind_facts


def div_facts(a):
    p, q = a.args
    if isinstance(q, int) and q > 0:
        d = A(a)
        r = sub(p, scale(d, q))
        return [ge(r), lt(r, q)]
    if not isinstance(q, int):
        d = A(a)
        r = sub(p, mul(d, q))
        return [f_or([lt(q, 1), f_and([ge(r), lt(r, q)])])]
    return []


AXIOMS["div"] = div_facts


def rem_facts(a):
    p, q = a.args
    r = A(a)
    if isinstance(q, int) and q > 0:
        d = A(atom("div", p, q, lo=0, hi=U64MAX))
        return [eq(sub(p, scale(d, q)), r), lt(r, q)]
    if not isinstance(q, int):
        d = A(atom("div", p, q, lo=0, hi=U64MAX))
        return [f_or([lt(q, 1), f_and([eq(sub(p, mul(d, q)), r), ge(r), lt(r, q)])])]
    return []


AXIOMS["rem"] = rem_facts


def sum_facts(a):
    """A sum lies between its length times the least and the greatest term."""
    n, body = a.args[0], a.args[1]
    if not isinstance(body, (int, Poly)):
        return []
    lo, hi = interval(body)
    out = []
    if lo is not None:
        out.append(ge(sub(A(a), scale(n, lo))))
    if hi is not None:
        out.append(ge(sub(scale(n, hi), A(a))))
    return out


AXIOMS["sum"] = sum_facts


_strs = {}


def strs(f):
    """Symbolic strings compared in a condition: {(name, index)}."""
    if not isinstance(f, F):
        return frozenset()
    r = _strs.get(f)
    if r is None:
        s = set()
        if f.k == "b":
            if f.a[0] == "streq":
                for x in f.a[1:]:
                    k = x.a[0]
                    if k[0] == "sym" and len(k) == 4:
                        s.add((k[1], k[2]))
        elif f.k in ("and", "or"):
            for y in f.a[0]:
                s |= strs(y)
        elif f.k == "not":
            s |= strs(f.a[0])
        elif f.k == "ex":
            s |= strs(f.a[1])
        r = _strs[f] = frozenset(s)
    return r


def heads(body, level):
    """Function symbols applied directly to the bound index in a quantified body."""
    b = A(bv(level))
    out = set()
    for n, x in strs(body):
        if x is b:
            out.add(("str", n))
    for a in body.at:
        if a.kind == "fn":
            for n, x in enumerate(a.args[1:]):
                if x is b:
                    out.add((a.args[0], n))
                elif isinstance(x, Poly) and bv(level) in x.at and len(x.m) == 2 and x.m.get((bv(level),)) == 1:
                    out.add((a.args[0], n, const_part(x)))
    return out


def instances(body, level, atoms, names=()):
    terms = {}
    for h in heads(body, level):
        if h[0] == "str":
            for n, t in names:
                if n == h[1] and not bound(t):
                    terms[t] = 1
            continue
        for a in atoms:
            if a.kind == "fn" and a.args[0] == h[0] and len(a.args) > 1 + h[1]:
                t = a.args[1 + h[1]]
                if len(h) == 3:
                    t = sub(t, h[2])
                if bound(t):
                    continue
                terms[t if isinstance(t, int) else t] = 1
    return list(terms)


def atoms_of(lits):
    s = set()
    for f in lits:
        s |= f.at
    return s


def free_atoms(lits):
    """Atoms that do not mention bound indices."""
    return {a for a in atoms_of(lits) if not bound(a)}


def settle(f, table, memo=None):
    """Replace conditions whose truth is known inside a condition."""
    if isinstance(f, bool):
        return f
    memo = {} if memo is None else memo
    r = memo.get(f)
    if r is None:
        if f in table:
            r = table[f]
        elif f.k == "not":
            r = fnot(settle(f.a[0], table, memo))
        elif f.k in ("and", "or"):
            g = f_and if f.k == "and" else f_or
            r = g([settle(x, table, memo) for x in f.a[0]])
        else:
            r = f
        memo[f] = r
    return r


_fsize = {}


def fsize(f):
    if isinstance(f, bool) or f.k not in ("and", "or", "not"):
        return 1
    r = _fsize.get(f)
    if r is None:
        r = _fsize[f] = 1 + sum(fsize(x) for x in (f.a[0] if f.k != "not" else f.a))
    return r


def atomic(f, out):
    """Comparisons inside a condition (not under quantifiers)."""
    if f.k in ("and", "or"):
        for x in f.a[0]:
            atomic(x, out)
    elif f.k == "not":
        atomic(f.a[0], out)
    elif f.k in ("ge", "eq"):
        out[f] = 1


def top_inds(lits):
    out = {}
    for f in lits:
        if f.k == "not":
            f = f.a[0]
        if f.k in ("ge", "eq"):
            for k in f.a[0].m:
                for a in k:
                    if a.kind == "ind" and not bound(a):
                        out[a] = 1
    return list(out)


def validate(fs, m):
    """Recompute every condition under the assignment of the free numbers."""
    vals, bools = m
    table = {}
    for b, v in bools.items():
        table[b] = v
        n = fnot(b)
        if isinstance(n, F):
            table[n] = not v
    base = {a: v for a, v in vals.items() if a.kind in ("var", "idx", "slen")}
    # numbers the equations determine
    eqs = [f.a[0] for f in fs if isinstance(f, F) and f.k == "eq" and isinstance(f.a[0], Poly)]
    for _ in range(6):
        n0 = len(base)
        for p in eqs:
            p = subst_top(p, base)
            if isinstance(p, Poly):
                free = {a for k in p.m for a in k}
                if len(free) == 1:
                    a = free.pop()
                    c = p.m.get((a,))
                    if a.kind in ("var", "idx", "slen") and c in (1, -1) and all(k in ((), (a,)) for k in p.m):
                        base[a] = -p.m.get((), 0) * c
        if len(base) == n0:
            break
    for a, v in base.items():
        if (a.lo is not None and v < a.lo) or (a.hi is not None and v > a.hi):
            return False
    apps = {}
    todo = [a for a in vals if a.kind == "fn"]
    for _ in range(8):
        rest = []
        for a in todo:
            args = tuple(subst(x, base) if isinstance(x, (Poly, F)) else x for x in a.args)
            if apps:
                args = tuple(subst(x, apps) if isinstance(x, (Poly, F)) else x for x in args)
            b = is_atom(A(atom("fn", *args, lo=a.lo, hi=a.hi)))
            if any(isinstance(x, (Poly, F)) for x in args):
                rest.append(a)
                continue
            v = vals[a]
            if (a.lo is not None and v < a.lo) or (a.hi is not None and v > a.hi) or apps.get(b, v) != v:
                return False
            apps[b] = v
        if not rest or len(rest) == len(todo):
            break
        todo = rest
    for f in fs:
        g = settle(f, table)
        for _ in range(8):
            if isinstance(g, bool):
                break
            g0 = g
            g = subst(g, base)
            if isinstance(g, bool):
                break
            g = settle(subst(g, apps), table)
            if isinstance(g, bool):
                break
            # numbers the assignment leaves open
            free = [a for a in free_atoms([g]) if a.kind in ("var", "idx", "slen") and a not in base]
            free2 = [a for a in free_atoms([g]) if a.kind == "fn" and not any(isinstance(x, (Poly, F)) for x in a.args) and a not in apps]
            if not free and not free2 and g is g0:
                break
            for a in free:
                base[a] = a.lo if a.lo is not None else 0
            for a in free2:
                apps[a] = a.lo if a.lo is not None else 0
        if g is not True:
            return False
    return True


class Query:
    def __init__(self, axioms=(), deadline=None, max_splits=400):
        self.axioms = axioms
        self.deadline = deadline
        self.splits = max_splits

    # -- saturation -------------------------------------------------------------
    def saturate(self, lits):
        """Add definitions of atoms and instances of quantified facts. None = contradiction."""
        done = set()
        inst_done = set()
        work = list(lits)
        for _ in range(6):
            new = []
            at = free_atoms(work)
            names = frozenset().union(*[strs(f) for f in work]) if work else ()
            for a in at:
                if a in done:
                    continue
                done.add(a)
                ax = AXIOMS.get(a.kind)
                if ax:
                    new.extend(ax(a))
            for f in work:
                g = f
                pos = True
                if f.k == "not":
                    g = f.a[0]
                    pos = False
                if g.k != "ex":
                    continue
                n, body, level = g.a
                if pos:
                    if g in inst_done:
                        continue
                    inst_done.add(g)
                    j = A(atom("first", n, body, level, lo=0, hi=I64MAX))
                    new += [open_at(body, level, j), ge(j), lt(j, n)]
                else:
                    for t in instances(body, level, at, names):
                        if (g, t) in inst_done:
                            continue
                        inst_done.add((g, t))
                        new.append(f_or([lt(t, 0), fnot(lt(t, n)), fnot(open_at(body, level, t))]))
            # minimality of first indices
            for a in at:
                if a.kind == "first":
                    n, body, level = a.args
                    for t in instances(body, level, at, names):
                        if t is A(a) or (a, t) in inst_done:
                            continue
                        inst_done.add((a, t))
                        new.append(f_or([lt(t, 0), le(A(a), t), fnot(open_at(body, level, t))]))
            for ax in self.axioms:
                new.extend(ax(work, at, inst_done))
            new = literal_list(new)
            if new is None:
                return None
            old = set(work)
            new = [f for f in new if f not in old]
            if not new:
                break
            work += new
        return work

    def propagate(self, lits):
        """Unit propagation and equality substitution. Returns (literals, substitution) or None."""
        sub_all = {}
        lits = list(lits)
        for _ in range(300):
            lits = literal_list(lits)
            if lits is None:
                return None
            f = f_and(lits)
            if f is False:
                return None
            if f is True:
                return [], sub_all
            lits = list(f.a[0]) if f.k == "and" else [f]
            # equality with a unit coefficient on a lone atom
            pick = None
            for g in lits:
                if g.k != "eq":
                    continue
                p = g.a[0]
                best = None
                for k, c in p.m.items():
                    if len(k) == 1 and abs(c) == 1:
                        a = k[0]
                        rest = mk({q: -v * c for q, v in p.m.items() if q != k})
                        if a in at_of(rest) or bound(a):
                            continue
                        rank = (0 if isinstance(rest, int) else 1, {"idx": 0, "first": 0, "gate": 1, "var": 2, "fn": 3}.get(a.kind, 4), -a.id)
                        if best is None or rank < best[0]:
                            best = (rank, a, rest)
                if best:
                    pick = best[1:] + (g,)
                    break
            if pick is None:
                # bounds that pin an atom
                lo, hi = {}, {}
                for g in lits:
                    if g.k != "ge" or len(g.a[0].m) > 2:
                        continue
                    ks = [k for k in g.a[0].m if k]
                    if len(ks) != 1 or len(ks[0]) != 1:
                        continue
                    x, c, k0 = ks[0][0], g.a[0].m[ks[0]], g.a[0].m.get((), 0)
                    if c > 0:
                        lo[x] = max(lo.get(x, -(k0 // c)), -(k0 // c))
                    else:
                        hi[x] = min(hi.get(x, k0 // -c), k0 // -c)
                pins = []
                for x, h in hi.items():
                    l = lo.get(x, x.lo)
                    if x.lo is not None and l is not None:
                        l = max(l, x.lo)
                    if l is not None and l > h:
                        return None
                    if l == h and not bound(x):
                        pins.append(eq(A(x), h))
                if not pins:
                    return lits, sub_all
                lits = lits + pins
                continue
            a, rest, g = pick
            # keep the range of the eliminated atom
            extra = []
            if a.lo is not None:
                extra.append(ge(sub(rest, a.lo)))
            if a.hi is not None:
                extra.append(ge(sub(a.hi, rest)))
            mp = {a: rest}
            lits = [subst(h, mp) for h in lits if h is not g] + extra
            sub_all = {x: subst(v, mp) for x, v in sub_all.items()}
            # the eliminated applications of a, at its new name
            lits += [eq(subst(A(x), mp), v) for x, v in sub_all.items() if a in x.at and x.kind == "fn"]
            if a in sub_all:
                lits.append(eq(sub_all[a], rest))
            sub_all[a] = rest
            back = [x for x, v in sub_all.items() if x.kind == "fn" and (isinstance(v, int) or all(y.kind in ("var", "idx") for y in v.at))]
            if back:
                # substituting an index can bring back an application that was already eliminated
                at = atoms_of([h for h in lits if not isinstance(h, bool)])
                mp = {x: sub_all[x] for x in back if x in at}
                if mp:
                    lits = [subst(h, mp) for h in lits]
        if any(f is False for f in lits):
            return None
        return [f for f in lits if f is not True], sub_all

    def settle_ors(self, lits, depth):
        """Decide the members of disjunctions that the unit facts already settle."""
        ors = [f for f in lits if f.k == "or"]
        if not ors:
            return lits
        units = [f for f in lits if f.k != "or"]
        for _ in range(8):
            table = {}
            for f in units:
                table[f] = True
                n = fnot(f)
                if isinstance(n, F):
                    table[n] = False
            if depth == 0:
                ineqs = []
                for f in units:
                    if f.k == "ge":
                        ineqs.append(f.a[0])
                    elif f.k == "eq":
                        ineqs += [f.a[0], neg(f.a[0])]
                seen = {}
                for o in ors:
                    atomic(o, seen)
                if len(seen) <= 400:
                    for g in seen:
                        if g in table or g.k not in ("ge", "eq") or not isinstance(g.a[0], Poly):
                            continue
                        n = fnot(g)
                        sides = [[g.a[0]] + ([neg(g.a[0])] if g.k == "eq" else [])]
                        if g.k == "ge" and isinstance(n, F) and n.k in ("ge", "eq"):
                            sides.append([n.a[0]] + ([neg(n.a[0])] if n.k == "eq" else []))
                        for val, extra in zip((False, True), sides):
                            if not isinstance(n, F):
                                break
                            try:
                                s = lin_system(ineqs + extra)
                                if s is None or not s.check():
                                    table[g] = val
                                    table[n] = not val
                                    break
                            except Budget:
                                pass
            memo = {}
            new = []
            for o in ors:
                f = settle(o, table, memo)
                # normalisation may factor a condition into a larger one; keep the smaller
                new.append(o if fsize(f) > fsize(o) else f)
            new = literal_list(new)
            if new is None:
                return None
            nu = [f for f in new if f.k != "or" and f not in table]
            ors = [f for f in new if f.k == "or"]
            units += nu
            if not nu or depth:
                break
        return units + ors

    def streq_conflict(self, lits):
        """A name cannot equal two different literals."""
        val = {}
        for f in lits:
            if f.k == "b" and f.a[0] == "streq":
                x, y = f.a[1], f.a[2]
                for s, l in ((x, y), (y, x)):
                    if l.a[0][0] == "lit":
                        if s in val and val[s] is not l:
                            return True
                        val[s] = l
        return False

    def search(self, lits, depth=0):
        """'unsat', 'unknown', or a list of literals of a consistent branch."""
        if self.deadline and time.time() > self.deadline:
            return "unknown"
        if any(f is False for f in lits):
            return "unsat"
        lits = self.saturate([f for f in lits if f is not True])
        if lits is None:
            return "unsat"
        pr = self.propagate(lits)
        if pr is None:
            return "unsat"
        lits, sb = pr
        if sb:
            # substitution can enable more instances
            l2 = self.saturate(lits)
            if l2 is None:
                return "unsat"
            if len(l2) != len(lits):
                pr = self.propagate(l2)
                if pr is None:
                    return "unsat"
                lits, sb2 = pr
                sb = {**{x: subst(v, sb2) for x, v in sb.items()}, **sb2}
        if self.streq_conflict(lits):
            return "unsat"
        lits = self.settle_ors(lits, depth)
        if lits is None:
            return "unsat"
        # indicators of settled conditions
        open_inds = top_inds(lits)
        if open_inds:
            table = {}
            for f in lits:
                table[f] = True
                n = fnot(f)
                if isinstance(n, F):
                    table[n] = False
            mp = {}
            for a in open_inds:
                c = settle(a.args[0], table)
                if isinstance(c, bool):
                    mp[a] = int(c)
            if mp:
                return self.branch([subst(f, mp) for f in lits], sb, mp, depth)
        ineqs = []
        ors = []
        for f in lits:
            if f.k == "ge":
                ineqs.append(f.a[0])
            elif f.k == "eq":
                ineqs.append(f.a[0])
                ineqs.append(neg(f.a[0]))
            elif f.k == "or":
                ors.append(f)
            elif f.k == "not" and f.a[0].k == "eq":
                ors.append(f_or([ge(sub(f.a[0].a[0], 1)), ge(sub(neg(f.a[0].a[0]), 1))]))
        r = infeasible_linear(ineqs) if ineqs else False
        if r is True:
            return "unsat"
        weak = r is None
        # disjunctions: drop members the linear facts refute, then split on the smallest
        best = None
        for o in ors:
            if o is True:
                continue
            if o is False:
                return "unsat"
            mem = []
            holds = False
            members = o.a[0] if o.k == "or" else (o,)
            if len(members) > 3 and ineqs:
                for x in members:
                    if x.k == "ge" and len(x.a[0].m) <= 2:
                        try:
                            s = lin_system(ineqs + [fnot(x).a[0]])
                            if s is None or not s.check():
                                holds = True
                                break
                        except Budget:
                            pass
            if holds:
                continue
            for x in members:
                if x.k in ("ge", "eq") and ineqs:
                    ii = [x.a[0]] + ([neg(x.a[0])] if x.k == "eq" else [])
                    try:
                        s = lin_system(ineqs + ii)
                        if s is None or not s.check():
                            continue
                    except Budget:
                        pass
                mem.append(x)
            if not mem:
                return "unsat"
            if len(mem) == 1 and self.entailed(mem[0], ineqs):
                continue
            if best is None or len(mem) < len(best[1]):
                best = (o, mem)
                if len(mem) == 1:
                    break
        if best is None or len(best[1]) > 1:
            ap = self.apart(lits, ineqs)
            if ap == "unsat":
                return "unsat"
            if ap is not None and (best is None or len(ap[1]) == 1):
                best = ap
        if best is None and open_inds:
            a = open_inds[0]
            unknown, leaf = False, None
            for v, c in ((1, a.args[0]), (0, fnot(a.args[0]))):
                self.splits -= 1
                if self.splits < 0:
                    return "unknown"
                r = self.branch([subst(f, {a: v}) for f in lits] + [c], sb, {a: v}, depth + 1)
                if r == "unsat":
                    continue
                if r == "unknown":
                    unknown = True
                    continue
                if self.want_model and r[0] == "leaf":
                    m = self.model(r[1], r[2])
                    if m is not None:
                        return ("model", m, r[2])
                    leaf = leaf or r
                    continue
                return r
            if leaf is not None:
                return leaf
            return "unknown" if unknown else "unsat"
        if best is None:
            return ("weak" if weak else "leaf", lits, sb)
        o, mem = best
        rest = [f for f in lits if f is not o and not (o is not None and f.k == "not" and f.a[0].k == "eq" and o is f_or([ge(sub(f.a[0].a[0], 1)), ge(sub(neg(f.a[0].a[0]), 1))]))]
        rest += [e for e in (eq(A(a), v) for a, v in sb.items() if a.kind == "fn") if e is not True]
        unknown = False
        leaf = None
        for n, x in enumerate(mem):
            self.splits -= 1
            if self.splits < 0:
                return "unknown"
            r = self.search(rest + [x] + [fnot(y) for y in mem[:n] if y.k in ("b", "not")], depth + 1)
            if r == "unsat":
                continue
            if r == "unknown":
                unknown = True
                continue
            tag, l2, sb2 = r
            sbm = {**{a: subst(v, sb2) for a, v in sb.items()}, **sb2}
            got = (tag, l2, sbm)
            if self.want_model and tag == "leaf":
                m = self.model(l2, sbm)
                if m is not None:
                    return ("model", m, sbm)
                leaf = leaf or got
                continue
            return got
        if leaf is not None:
            return leaf
        return "unknown" if unknown else "unsat"

    def entailed(self, x, ineqs):
        """The inequality already follows from the linear facts."""
        if x.k != "ge":
            return False
        n = fnot(x)
        if n is False:
            return True
        try:
            s = lin_system(ineqs + [n.a[0]])
            return s is None or not s.check()
        except Budget:
            return False

    def branch(self, lits, sb, mp, depth):
        r = self.search(lits, depth)
        if isinstance(r, str) or r[0] == "model":
            return r
        tag, l2, sb2 = r
        return tag, l2, {**{a: subst(subst(v, mp), sb2) for a, v in sb.items()}, **mp, **sb2}

    def apart(self, lits, ineqs):
        """Elements with different names sit at different indices: the disequality with the fewest
        possible sides, or "unsat"."""
        pos, neg_ = {}, {}
        for f in lits:
            g, t = (f.a[0], neg_) if f.k == "not" else (f, pos)
            if g.k != "b" or g.a[0] != "streq":
                continue
            for x, y in ((g.a[1], g.a[2]), (g.a[2], g.a[1])):
                k, l = x.a[0], y.a[0]
                if k[0] == "sym" and len(k) == 4 and l[0] == "lit":
                    t.setdefault((k[1], k[3]), {}).setdefault(k[2], set()).add(l[1])
        pairs = []
        for key, d in pos.items():
            items = list(d.items())
            others = items + [(i, None) for i in neg_.get(key, {}) if i not in d]
            for n, (i, li) in enumerate(items):
                for j, lj in others[n + 1:]:
                    if i is j or (isinstance(i, int) and isinstance(j, int)):
                        continue
                    nj = neg_.get(key, {}).get(j, set())
                    ni = neg_.get(key, {}).get(i, set())
                    if (lj and li != lj) or (li & nj) or (lj and lj & ni):
                        pairs.append((i, j))
        if not pairs:
            return None
        # constants first: they force bounds one after the other
        pairs.sort(key=lambda p: (not (isinstance(p[0], int) or isinstance(p[1], int)), p[1] if isinstance(p[1], int) else p[0] if isinstance(p[0], int) else 0))
        ineqs = list(ineqs)
        forced = []
        have = set(ineqs)
        for _ in range(40):
            best = None
            grew = False
            for i, j in pairs:
                mem = []
                done = False
                for x in (lt(i, j), lt(j, i)):
                    if x is True or (x is not False and x.k == "ge" and x.a[0] in have):
                        done = True
                        break
                    if x is False or x.k != "ge":
                        continue
                    try:
                        s = lin_system(ineqs + [x.a[0]])
                        if s is None or not s.check():
                            continue
                    except Budget:
                        pass
                    mem.append(x)
                if done:
                    continue
                if not mem:
                    return "unsat"
                if len(mem) == 1:
                    forced.append(mem[0])
                    ineqs.append(mem[0].a[0])
                    have.add(mem[0].a[0])
                    grew = True
                elif best is None:
                    best = mem
            if not grew:
                break
        if forced:
            return (None, [f_and(forced)])
        return (None, best) if best is not None else None

    want_model = False

    # -- models -----------------------------------------------------------------
    def model(self, lits, sb):
        """An integer assignment satisfying all (non-split) literals, or None."""
        ineqs = []
        for f in lits:
            if f.k == "ge":
                ineqs.append(f.a[0])
            elif f.k == "eq":
                ineqs += [f.a[0], neg(f.a[0])]
            elif f.k == "or":
                return None
        m = find_model(ineqs, self.deadline)
        if m is None:
            return None
        full = dict(m)
        for a, v in sb.items():
            for x in at_of(v):
                full.setdefault(x, x.lo if x.lo is not None else 0)
        for a, v in sb.items():
            full[a] = evalp(v, full)
        bools = {}
        for f in lits:
            if f.k == "b":
                bools[f] = True
            elif f.k == "not" and f.a[0].k == "b":
                bools[f.a[0]] = False
        return full, bools


def evalp(p, m):
    if isinstance(p, int):
        return p
    t = 0
    for k, c in p.m.items():
        for a in k:
            c *= m.get(a, a.lo if a.lo is not None else 0)
        t += c
    return t


def find_model(ineqs, deadline=None, tries=24):
    """Small integer solutions; nonlinear monomials are linearised by pinning atoms."""
    ineqs = [p for p in ineqs if isinstance(p, Poly)]
    atoms = set()
    nl = set()
    for p in ineqs:
        for k in p.m:
            atoms.update(k)
            if len(k) > 1:
                nl.update(k)
    nl = sorted(nl, key=lambda a: a.id)

    def linear(ps, fixed):
        mp = {a: v for a, v in fixed.items()}
        out = []
        for p in ps:
            q = subst_top(p, mp)
            if isinstance(q, int):
                if q < 0:
                    return None
                continue
            out.append(q)
        return out

    cand = [1, 2, 0, 3, 4, 5, 8, 16, 1 << 16, 65537, (1 << 31), (1 << 32) - 1, (1 << 32)]
    count = [0]

    def rec(fixed):
        if deadline and time.time() > deadline:
            return None
        count[0] += 1
        if count[0] > 4000:
            return None
        ps = linear(ineqs, fixed)
        if ps is None:
            return None
        if ps:
            try:
                s = lin_system(ps)
                if s is None or not s.check():
                    return None
            except Budget:
                return None
        nonlin = [k for p in ps for k in p.m if len(k) > 1]
        if nonlin:
            freq = {}
            for k in nonlin:
                for a in set(k):
                    freq[a] = freq.get(a, 0) + 1
            a = max(freq, key=lambda x: (freq[x], -x.id))
            vals = []
            if ps and (a,) in s.val:
                x = s.val[(a,)]
                vals += [int(floor(x)), int(ceil(x))]
            lo = a.lo if a.lo is not None else 0
            for c in cand + [lo, lo + 1] + ([a.hi] if a.hi is not None else []):
                if (a.lo is None or c >= a.lo) and (a.hi is None or c <= a.hi):
                    vals.append(c)
            for v in dict.fromkeys(vals):
                r = rec({**fixed, a: v})
                if r is not None:
                    return r
            return None
        return integral(ps, fixed)

    def integral(ps, fixed, depth=0):
        if not ps:
            return dict(fixed)
        try:
            s = lin_system(ps)
            if s is None or not s.check():
                return None
        except Budget:
            return None
        vals = {k[0]: v for k, v in s.val.items() if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], Atom)}
        frac = [a for a, v in vals.items() if v.denominator != 1]
        if not frac:
            r = dict(fixed)
            r.update({a: int(v) for a, v in vals.items()})
            return r
        if depth > 12:
            return None
        a = frac[0]
        v = vals[a]
        for extra in (sub(A(a), ceil(v)), sub(floor(v), A(a))):
            r = integral(ps + ([extra] if isinstance(extra, Poly) else []), fixed, depth + 1)
            if r is not None:
                return r
        return None

    r = rec({})
    if r is None:
        return None
    for p in ineqs:
        if evalp(p, r) < 0:
            return None
    return r


def subst_top(p, mp):
    """Substitute atoms of the monomials by integers (not inside other atoms)."""
    m = {}
    for k, c in p.m.items():
        rest = []
        for a in k:
            if a in mp:
                c *= mp[a]
            else:
                rest.append(a)
        kk = tuple(rest)
        m[kk] = m.get(kk, 0) + c
    return mk(m)


_cache = {}


def relevant(lits, goal_atoms, rounds=6):
    """Literals connected to the goal through shared atoms."""
    cur = set(goal_atoms)
    todo = list(lits)
    out = []
    for _ in range(rounds):
        nxt = []
        grew = False
        for f in todo:
            if cur & f.at:
                out.append(f)
                if not f.at <= cur:
                    cur |= f.at
                    grew = True
            else:
                nxt.append(f)
        todo = nxt
        if not grew:
            break
    return out


def unsat(fs, axioms=(), timeout=10, max_splits=400):
    """True: no instance satisfies the conditions. False: not shown."""
    lits = literal_list(fs)
    if lits is None:
        return True
    key = ("u", frozenset(lits), tuple(a.__name__ for a in axioms), DEEP[0])
    r = _cache.get(key)
    if r is None:
        Stats.queries += 1
        q = Query(axioms, time.time() + timeout, max_splits)
        try:
            r = q.search(lits) == "unsat"
        except FAULTS as e:
            fault(e)
            r = False
        _cache[key] = r
        if r:
            Stats.unsat += 1
    return r


# a fault of the solver leaves the question open
FAULTS = (RecursionError, AttributeError, TypeError, KeyError, IndexError, ValueError, ZeroDivisionError)


def fault(e):
    Stats.faults += 1
    if Stats.faults <= 3:
        Stats.fault = f"{type(e).__name__}: {e}"[:200]


def top_atoms(p):
    return {a for k in p.m for a in k}


def quick(lits, goal):
    """Do the linear facts close to the goal settle it already?"""
    n = fnot(goal)
    if not isinstance(n, F):
        return False
    base = []
    cur = set()
    for g in (n.a[0] if n.k == "and" else (n,)):
        if g.k in ("ge", "eq"):
            base += [g.a[0]] + ([neg(g.a[0])] if g.k == "eq" else [])
            cur |= top_atoms(g.a[0])
    if not base:
        return False
    pool = []
    for f in lits:
        if f.k == "ge":
            pool.append((f.a[0],))
        elif f.k == "eq":
            pool.append((f.a[0], neg(f.a[0])))
    chosen = list(base)
    for _ in range(3):
        rest = []
        new = set()
        grew = False
        for ps in pool:
            t = top_atoms(ps[0])
            if t & cur:
                chosen.extend(ps)
                new |= t
                grew = True
            else:
                rest.append(ps)
        pool = rest
        if not grew:
            break
        cur = cur | new
        if len(chosen) > 60:
            return False
        if infeasible_linear(chosen) is True:
            return True
    return False


def prove(fs, goal, axioms=(), timeout=10):
    """Do the facts entail the goal?"""
    if goal is True:
        return True
    lits = literal_list(fs)
    if lits is None:
        return True
    if goal is not False and goal.k == "and":
        return all(prove(fs, g, axioms, timeout) for g in goal.a[0])
    ng = fnot(goal)
    g = [ng]
    if goal is not False:
        if goal in lits:
            return True
        key = ("q", frozenset(lits), goal)
        r = _cache.get(key)
        if r is None:
            r = _cache[key] = quick(lits, goal)
        if r:
            return True
    rel = relevant(lits, at_of(ng)) if ng is not True else lits
    if len(rel) < len(lits) and unsat(rel + g, axioms, timeout):
        return True
    if unsat(lits + g, axioms, timeout):
        return True
    if timeout < 5 or not any(a.kind in BINDERS or (a.kind == "fn" and any(x.kind in BINDERS for x in a.at)) for f in lits + g if isinstance(f, F) for a in f.at):
        return False
    DEEP[0] = True
    try:
        return unsat(lits + g, axioms, timeout)
    finally:
        DEEP[0] = False


PLAIN = ("var", "fn", "idx", "slen", "gate", "first", "ind", "sum")
POOL = (1, 0, 3, 2, 5, 4, 7, 8, 12, 13, 255, 256, 257, 1 << 15, 65535, 1 << 16, 1 << 30, 1 << 31, (1 << 32) - 1, (1 << 32) - 2)
BIG = (1 << 31, 1 << 31, 1 << 30, 1 << 16, 16, 32, 64, 24, (1 << 32) - 1, 1)
GUESSES = [60]


def inputs_of_opaque(lits):
    """Numbers that enter operations without a linear meaning (wrapping, shifts, masks, byte
    extraction), and members of products."""
    out = {}
    for f in lits:
        if not isinstance(f, F):
            continue
        for a in f.at:
            if a.kind in PLAIN or bound(a):
                continue
            for x in a.args:
                if isinstance(x, (Poly, F)):
                    for b in at_of(x):
                        if b.kind in ("var", "fn", "slen") and not bound(b) and not (b.kind == "fn" and any(free_bv(y) for y in b.args if isinstance(y, (Poly, F)))):
                            out[b] = 1
    return list(out)


def counterexample(fs, axioms=(), timeout=15):
    """('unsat', None) | ('model', assignment) | ('unknown', None)"""
    r = counterexample1(fs, axioms, timeout)
    if r[0] != "unknown" or GUESSES[0] <= 0:
        return r
    # pin the inputs of opaque operations, so that these become numbers, and ask again
    lits = literal_list(fs)
    try:
        pr = Query(axioms).propagate(lits or [])
        ins = inputs_of_opaque(pr[0]) if pr else []
    except FAULTS as e:
        fault(e)
        return r
    if not ins or len(ins) > 12:
        return r
    GUESSES[0] -= 1
    import random
    rnd = random.Random(len(ins))
    end = time.time() + min(timeout, 12)
    n = 0
    while time.time() < end and n < 40:
        n += 1
        cur = list(lits)
        for a in ins:
            c = POOL[n % len(POOL)] if len(ins) == 1 else rnd.choice(BIG if n % 2 else POOL)
            lo, hi = a.lo if a.lo is not None else 0, a.hi
            if c < lo or (hi is not None and c > hi):
                c = lo
            cur.append(eq(A(a), c))
        try:
            t, m = counterexample1(cur, axioms, 2)
        except FAULTS as e:
            fault(e)
            continue
        if t == "model" and validate(fs, m):
            return t, m
    return r


def counterexample1(fs, axioms=(), timeout=15):
    lits = literal_list(fs)
    if lits is None:
        return "unsat", None
    q = Query(axioms, time.time() + timeout, 1500)
    q.want_model = True
    try:
        r = q.search(lits)
    except FAULTS as e:
        fault(e)
        return "unknown", None
    if r == "unsat":
        return "unsat", None
    if r == "unknown":
        Stats.unknown += 1
        return "unknown", None
    if r[0] == "model":
        m = r[1]
    elif r[0] == "leaf":
        try:
            m = q.model(r[1], r[2])
        except FAULTS as e:
            fault(e)
            m = None
    else:
        m = None
    try:
        ok = m is not None and validate(fs, m)
    except FAULTS as e:
        fault(e)
        ok = False
    if not ok:
        Stats.unknown += 1
        return "unknown", None
    Stats.sat += 1
    return "model", m
