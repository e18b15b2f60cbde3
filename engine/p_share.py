"""Sharing between threads (C19): declared Send and Sync, and writes to the shared buffer."""
from common import *
from hist import start


def declared(rep):
    """Every type with a hand-written Send or Sync: all it holds must be Send (Sync) by itself."""
    P = prog()
    n = 0
    for im in P.impls:
        tr = im["trait"].split("::")[-1]
        if tr not in ("Send", "Sync") or im["crate"] != "ros_pointcloud2" or "Positive" not in im["polarity"]:
            continue
        n += 1
        rep.note("hand_written_impls", f"{tr} for {im['self']}")
        if not im["holds"] and not im["ty"]:
            rep.add("undecided", "declared type holds only such data", f"{tr} for {im['self']}", "not a struct, enum or union")
        for name, t, ok in im["holds"]:
            where = f"{short_span(im['span'])}, {tr} for {im['self']}, member {name.split('.')[-1]}"
            if ok:
                rep.add("held", "declared type holds only such data", where)
            else:
                rep.add("violated", "declared type holds only such data", where, f"{t} is not {tr}")
    # types without one: the compiler's own inference is the guarantee
    for t in P.types:
        if t["kind"] == "adt" and t.get("crate") == "ros_pointcloud2":
            rep.note("types_seen", t["str"])
            rep.add("held", "declared or inferred by the compiler", t["str"])


def shared_writes(rep, mod, depth):
    """No step of a part of a split iterator writes to what the parts share."""
    pt = PointTy(mod)
    E, mv, mt, good, bad = start(mod)
    m = MsgView(mv, mt)
    nf = is_atom(m.nf)
    N = mul(m.W, m.H)
    ops = [o for o in ("it_next", "it_next_back") if has_root(f"{mod}::{o}")]
    asks = [o for o in ("it_hint", "it_len", "it_par_len", "it_opt_len") if has_root(f"{mod}::{o}")]

    def scan(before, what):
        bad = [e for e in E.events[before:] if e[0] in ("shared_write", "lost_write")]
        w = [e for e in bad if e[0] == "shared_write"]
        for k, pc, kw, st in w:
            d = Decider(rep, E, pt, nf)
            fn = st[-1] if st else ""
            where = f"{mod}, {what}, in {event_fn(st)}"
            d.impossible("the shared buffer is never written", where, lits_of(pc), "a write through a shared pointer")
        for k, pc, kw, st in bad:
            if k == "lost_write":
                rep.add("undecided", "the shared buffer is never written", f"{mod}, {what}", "a write whose place is not understood")
        if not bad:
            rep.add("held", "the shared buffer is never written", f"{mod}, {what}")

    for it in good:
        levels = [(it, 0, N, "iterator")]
        for lv in range(depth + 1):
            nxt = []
            for cur, lo, n, label in levels:
                f, b = var(f"f{lv}", 0, ADDR_MAX), var(f"b{lv}", 0, ADDR_MAX)
                at0 = len(E.events)
                ends = []
                for x in cur.steps("it_next", f)[0]:
                    ends += x.steps("it_next_back", b)[0] if len(ops) > 1 else [x]
                for y in ends:
                    for op in ops:
                        y.step(op)
                    for q in asks:
                        y.call(q)
                if lv:
                    scan(at0, label)
                if lv < depth:
                    for y in ends:
                        n2 = sub(sub(n, f), b) if len(ops) > 1 else sub(n, f)
                        i = var(f"i{lv}", 0, ADDR_MAX)
                        s = y.st.assume(ge(sub(n2, i)))
                        if s is None:
                            continue
                        at1 = len(E.events)
                        for s2, l, r in y.at(s).split(i):
                            nxt.append((l, add(lo, f), i, label + ", left part"))
                            nxt.append((r, add(add(lo, f), i), sub(n2, i), label + ", right part"))
                        scan(at1, label + ", split")
            levels = nxt
    rep.absorb(E)


def event_fn(stack):
    for f in reversed(stack or ()):
        n = f[0] if isinstance(f, tuple) else f
        if isinstance(n, int):
            n = prog().insts[n]["path"]
        if "ros_pointcloud2" in str(n):
            return str(n)[:100]
    return "?"
