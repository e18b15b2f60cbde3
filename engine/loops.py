"""Closed forms for loops whose number of iterations is not a constant."""
from terms import *
from values import *
import interp
from interp import St, merge, lits_of, Unsupported, seqlen
import solve


def diff(old, new, path=()):
    """Leaves at which two values differ."""
    if same(old, new):
        return []
    if isinstance(old, V) and isinstance(new, V) and old.k == new.k:
        if old.k == "agg" and old.a[0] == new.a[0] and len(old.a[1]) == len(new.a[1]):
            return [d for i, (x, y) in enumerate(zip(old.a[1], new.a[1])) for d in diff(x, y, path + (i,))]
        if old.k == "iter" and old.a[0] == new.a[0] and len(old.a[1]) == len(new.a[1]):
            return [d for i, (x, y) in enumerate(zip(old.a[1], new.a[1])) for d in diff(x, y, path + (("it", i),))]
        if old.k == "vec":
            return [d for i in range(3) for d in diff(old.a[i], new.a[i], path + (("vs", i),))]
        if old.k == "ptr" and old.a[:4] == new.a[:4]:
            return [d for i in (4, 5) for d in diff(old.a[i], new.a[i], path + (("pf", i),))]
        if old.k == "list" and len(old.a[0]) == len(new.a[0]) and old.a[0]:
            return [d for i, (x, y) in enumerate(zip(old.a[0], new.a[0])) for d in diff(x, y, path + (("ix", i),))]
    return [(path, old, new)]


def narrowed(E, outs):
    return [(t, E.narrow_mem(s)) for t, s in outs]


QUANT = True


class Leaf:
    def __init__(self, key, path, entry):
        self.key, self.path, self.entry = key, path, entry
        self.id = fresh_id()
        self.at = atom("hole", self.id)
        if isint(entry):
            self.hole = A(self.at)
        elif isbool(entry):
            self.hole = form("b", "hole", A(self.at))
        else:
            self.hole = mkv("hole", A(self.at))
        self.closed = None


def put_leaf(E, st, l, v):
    old = st.mem[l.key]
    st.mem[l.key] = E.put(old, l.path, v) if l.path else v


def get_leaf(E, st, l):
    v = st.mem.get(l.key, UNDEF)
    for p in l.path:
        if isinstance(v, V) and isinstance(p, tuple) and p[0] in ("it", "vs", "pf") and v.k not in ("iter", "vec", "ptr"):
            return UNDEF
        v = E.step(v, p)
    return v


def fill(x, solved):
    """Replace the holes of solved leaves by their closed forms."""
    mp = {}
    for l in solved:
        if isint(l.entry) and isint(l.closed):
            mp[l.at] = l.closed
        else:
            interp.HOLE[l.id] = l.closed
            mp[l.at] = A(atom("holeval", l.id))
    return subst(x, mp) if mp else x


def rel(pc, base):
    b = set(lits_of(base))
    return [f for f in lits_of(pc) if f not in b]


def summarise(E, st0, step):
    leaves = []
    st0 = E.narrow_mem(st0)
    E.quiet += 1
    try:
        for rnd in range(10):
            st = st0.copy()
            for l in leaves:
                put_leaf(E, st, l, l.hole)
            outs = narrowed(E, step(st))
            cont = merge([s for t, s in outs if t == "cont"])
            if cont is None:
                E.quiet -= 1
                try:
                    return [(t, s) for t, s in step(st0) if t != "cont"]
                finally:
                    E.quiet += 1
            new = []
            for k, v in st.mem.items():
                if k not in cont.mem:
                    continue
                for path, o, n in diff(v, cont.mem[k]):
                    if any(l.key == k and l.path == path for l in leaves):
                        continue
                    # a leaf below an existing one cannot appear; above: replace the finer ones
                    new.append(Leaf(k, path, initial(E, st0, k, path)))
            if not new:
                break
            for n in new:
                leaves = [l for l in leaves if not (l.key == n.key and l.path[:len(n.path)] == n.path)]
            leaves += new
        else:
            raise Unsupported("loop variables")
    finally:
        E.quiet -= 1

    upd = {l: get_leaf(E, cont, l) for l in leaves}
    k = new_idx()
    solved = []
    todo = list(leaves)
    progress = True
    while todo and progress:
        progress = False
        for l in list(todo):
            u = fill(upd[l], solved)
            c = close_form(E, l, u, k, todo)
            if c is not None:
                l.closed = c
                solved.append(l)
                todo.remove(l)
                progress = True
    for l in todo:
        u = upd[l]
        if isint(l.entry):
            l.closed = A(atom("unk", ("loop", l.id), A(k)))
        elif isbool(l.entry):
            l.closed = form("b", "unk", ("loop", l.id), A(k))
        else:
            l.closed = unkv("loop", l.id, A(k))
        solved.append(l)

    st = st0.copy()
    for l in leaves:
        put_leaf(E, st, l, fill(l.closed, [x for x in solved if x is not l]))
    # what is known at the head of iteration k because no earlier iteration left the loop
    inv = []
    if any(t != "cont" and not (f.k == "ge") for t, s in outs for f in rel(s.pc, st0.pc) if isinstance(f, F)):
        E.quiet += 1
        try:
            inv = invariants(E, st0, step(st), k)
        finally:
            E.quiet -= 1
    base = st0.pc
    if inv:
        base = f_and([st0.pc] + inv)
        if base is False:
            base = st0.pc
        st.pc = base
    outs = step(st)
    return finish(E, st0, outs, k, base)


def invariants(E, st0, outs, k):
    base = lits_of(st0.pc)
    out = []
    for t, s in outs:
        if t == "cont":
            continue
        r = rel(s.pc, st0.pc)
        if any(trip([f], k) for f in r):
            continue
        hit = False
        for f in r:
            x = eq_trip(E, base, f, k)
            if x is not None:
                hit = True
                out.append(ge(sub(x, A(k))))
        if not hit and QUANT:
            j = new_idx()
            out.append(fnot(exists(A(k), subst(f_and(r), {k: A(j)}), j)))
    return [f for f in out if not isinstance(f, bool)]


def eq_trip(E, base, f, k):
    """n of a literal k = n, when n is not negative."""
    if not (isinstance(f, F) and f.k == "eq"):
        return None
    p = f.a[0]
    c = p.m.get((k,))
    if c not in (1, -1):
        return None
    n = scale(sub(p, scale(A(k), c)), -c)
    if k in at_of(n):
        return None
    lo, hi = interval(n)
    if lo is not None and lo >= 0 or solve.prove(base, ge(n), E.axioms, 3):
        return n
    return None


def initial(E, st0, key, path):
    v = st0.mem.get(key, UNDEF)
    for p in path:
        v = E.step(v, p)
    return v


def holes_in(x, todo):
    at = at_of(x)
    return any(l.at in at for l in todo)


def close_form(E, l, u, k, todo):
    """Value of the leaf at the start of iteration k, or None."""
    if same(u, l.hole):
        return l.entry
    if isint(l.entry) and isint(u):
        c = sub(u, l.hole)
        if not holes_in(c, todo):
            if k not in at_of(c) and not isinstance(c, int):
                return add(l.entry, mul(A(k), c))
            if isinstance(c, int):
                return add(l.entry, scale(A(k), c))
            j = new_idx()
            return add(l.entry, sum_over(A(k), subst(c, {k: A(j)}), j))
    if isbool(l.entry) and isbool(u):
        j = new_idx()
        interp.HOLE[l.id] = False
        mp = {l.at: A(atom("holeval", l.id))}
        u0 = subst(u, mp)
        interp.HOLE[l.id] = True
        u1 = subst(u, mp)
        if not holes_in((u0, u1), todo):
            at_j = lambda x: subst(x, {k: A(j)})
            if u1 is True and u0 is not True:
                return f_or([l.entry, exists(A(k), at_j(u0), j)])
            if u0 is False:
                return f_and([l.entry, fnot(exists(A(k), at_j(fnot(u1)), j))])
    if isk(l.hole, "hole") and isk(u, "cat") and u.a[0] and same(u.a[0][0], l.hole):
        rest = list(u.a[0][1:])
        if not holes_in(tuple(rest), todo):
            j = new_idx()
            r = [subst(x, {k: A(j)}) for x in rest]
            entry = l.entry
            if all(isk(x, "list") for x in r):
                chunk = [e for x in r for e in x.a[0]]
                return cat([entry, flat(A(k), chunk, j)])
            if len(r) == 1 and isk(r[0], "opt"):
                return cat([entry, filt(A(k), r[0].a[0], r[0].a[1], j)])
            return cat([entry, mkv("flatseq", A(k), *[x for x in close((cat(r),), j)])])
    if isk(l.hole, "hole") and isk(u, "upd") and same(u.a[0], l.hole) and not holes_in(u.a[1:], todo):
        i, x = u.a[1], u.a[2]
        d = sub(i, A(k))
        if k not in at_of(d):
            j = new_idx()
            return mkv("updk", l.entry, d, A(k), *close(subst(x, {k: A(j)}), j))
    if not holes_in(u, todo) and l.at not in at_of(u):
        prev = subst(u, {k: sub(A(k), 1)})
        v = mkcase([(eq(A(k), 0), l.entry), (ge(sub(A(k), 1)), prev)])
        return toint(v) if isint(l.entry) and isint(u) else v
    return None


def trip(lits, k):
    """n of a literal k >= n."""
    for f in lits:
        if f.k == "ge":
            p = f.a[0]
            if p.m.get((k,)) == 1:
                rest = sub(p, A(k))
                if k not in at_of(rest):
                    return f, neg(rest)
    return None


def finish(E, st0, outs, k, known=None):
    conts = [s for t, s in outs if t == "cont"]
    exits = [(t, s) for t, s in outs if t != "cont"]
    base = st0.pc
    if known is None:
        known = base
    clits = [set(rel(s.pc, known)) for s in conts]
    normal = None
    bound = None
    for t, s in exits:
        r = rel(s.pc, known)
        for f in r:
            x = trip([f], k)
            if x is None:
                n = eq_trip(E, lits_of(base), f, k)
                if n is None:
                    continue
                x = (f, n)
            nf = fnot(f)
            if all(nf in c for c in clits):
                normal, bound = (t, s), x
                break
        if normal:
            break
    early = [(t, s) for t, s in exits if normal is None or s is not normal[1]]
    out = []
    if normal is not None:
        n = bound[1]
        lo, hi = interval(n)
        if lo is None or lo < 0:
            if not solve.prove(lits_of(base), ge(n), E.axioms, 3):
                n = toint(mkcase([(ge(n), n), (fnot(ge(n)), 0)]))
        nf = fnot(bound[0])
    else:
        n = I64MAX
        nf = None
    econd = []
    for t, s in early:
        econd.append(f_and([f for f in rel(s.pc, known) if f is not nf]))
    allc = f_or(econd)
    # does an early condition only say that another bound was reached?
    if early:
        i = new_idx()
        ex = exists(n, subst(allc, {k: A(i)}), i)
        J = None
        if isinstance(allc, F) and allc.k == "ge":
            x = trip([allc], k)
            if x is not None:
                J = x[1]
                ex = lt(J, n)
        elif isinstance(allc, F):
            x = eq_trip(E, lits_of(base), allc, k)
            if x is not None:
                J = x
                ex = lt(J, n)
        if J is None:
            if ex is True and allc is True:
                J = 0
            else:
                b, level = close(subst(allc, {k: A(i)}), i)
                J = A(atom("first", n, b, level, lo=0, hi=I64MAX))
        for (t, s), c in zip(early, econd):
            mp = {k: J}
            extra = [subst(c, mp)] if len(early) > 1 else []
            pc = f_and([base] + ([ex] if normal is not None else []) + extra)
            if pc is False:
                continue
            out.append((t, St(pc, sub_mem(s.mem, mp))))
    else:
        ex = False
    if normal is not None:
        t, s = normal
        mp = {k: n}
        r = [subst(f, mp) for f in rel(s.pc, known) if f is not bound[0]]
        pc = f_and([base, fnot(ex)] + r)
        if pc is not False:
            out.append((t, St(pc, sub_mem(s.mem, mp))))
    return out


def sub_mem(mem, mp):
    memo = {}
    keys = mp.keys()
    out = {}
    for key, v in mem.items():
        at = at_of(v)
        out[key] = subst(v, mp, memo) if any(a in at for a in keys) else v
    return out
