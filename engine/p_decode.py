"""Decoding: C01-C07, C17 and the decoding half of C23."""
from common import *
import hist
from hist import Iter, start


def elem_bytes(v, pt):
    """{field name: bytes} of a point value."""
    return {f["name"]: bytes_of(fld(v, f["idx"]), f["ty"]) for f in pt.fields}


def kinds(*ks):
    return lambda want: want


OBL_RULE = {
    "C01": lambda o: "memory access inside the allocation" if o.kind == "ub" else None,
    "C02": lambda o: {"bounds": "index in bounds", "overflow": "arithmetic does not overflow", "panic": "panic unreachable", "alloc": "capacity representable"}.get(o.kind),
}


def obls(E, rep, prop, pt, nf, pre=()):
    r = OBL_RULE.get(prop)
    if r:
        obligations(E, rep, r, pt, nf, pre)


def allocs(E, rep, pt, m, nf):
    """Every allocation is bounded by the buffer, the field list or a constant."""
    d = Decider(rep, E, pt, nf)
    for kind, pc, kw, stack in E.events:
        if kind != "alloc":
            continue
        n = toint(kw["n"])
        known_ = E.known_facts(pc, kw["nk"])
        goal = ge(sub(add(add(m.D, m.nf), 64), n))
        d.decide("allocation bounded by the message", f"{short_span(kw['span'])} ({kw['what']})", lits_of(pc), goal, f"capacity {show(n)[:200]}", known_)


# ------------------------------------------------------------------ the vector conversion
def vec_conversion(rep, mod, prop):
    pt = PointTy(mod)
    name = mod + "::into_vec"
    tys, rt = root_tys(name)
    E, (mv,), outs = run(name)
    rep.absorb(E)
    m = MsgView(mv, tys[0])
    nf = is_atom(m.nf)
    where = name
    if prop in ("C01", "C02"):
        obls(E, rep, prop, pt, nf)
        if prop == "C02":
            allocs(E, rep, pt, m, nf)
    al = out_alts(outs)
    okc = [(c, w.a[1][0]) for c, w, s in al if isk(w, "agg") and w.a[0] == 0]
    errc = [(c, w.a[1][0]) for c, w, s in al if isk(w, "agg") and w.a[0] == 1]
    if any(not isk(w, "agg") for _, w, _ in al):
        rep.add("undecided", "result of the conversion understood", where, "unresolved outcome")
    if prop in ("C04", "C05"):
        accept_rules(rep, prop, E, pt, m, where, [c for c, _ in okc], [(c, w) for c, w in errc], rt)
        return
    spec = DecodeSpec(pt, m)
    k = var("k", 0, ADDR_MAX)
    for big in (False, True):
        tag = "big-endian" if big else "little-endian"
        inside = [lt(k, mul(m.W, m.H))]
        d = Decider(rep, E, pt, nf, facts=spec.facts + [spec.simp(f, big) for f in inside], limit=10)
        d.facts = [spec.simp(f, big) for f in d.facts] + spec.raw(big)
        d.example_facts = list(d.facts)
        for c, v in okc:
            c2 = spec.simp(c, big)
            if c2 is False:
                continue
            v2 = spec.simp(v, big)
            content, n = vec_parts(v2)
            pre = [c2]
            if prop == "C06":
                for nc, nn in alts(n):
                    d.decide("number of points", where, pre + [nc], eq(toint(nn), spec.simp(mul(m.W, m.H), big)), f"{tag}: {show(toint(nn))[:120]} points")
            el = seq_get(content, k)
            check_element(rep, d, prop, where + ", " + tag, pt, spec, m, k, el, pre, big)


def check_element(rep, d, prop, where, pt, spec, m, k, el, pre, big):
    """The k-th point against the specification."""
    eb = elem_bytes(el, pt)
    for f in pt.fields:
        got = eb[f["name"]]
        w = f"{where}, field {f['name']}"
        if prop == "C03":
            want = [spec.simp(b, big) if not isinstance(b, int) else b for b in spec.field_bytes(f, k, big)]
            d.equal_bytes("field read from its own place", w, pre, got, want)
        elif prop == "C01":
            initialised(rep, d, w, pre, got)
        elif prop == "C17":
            byte_order(rep, d, w, pre, got, big, m)
        elif prop == "C06":
            in_block(rep, d, w, pre, got, k, m, spec, big)


def source_index(x):
    """Index into the message data a byte comes from."""
    a = is_atom(x) if isinstance(x, Poly) else None
    if a is not None and a.kind == "fn" and a.args[0] == "a0.data" and len(a.args) == 2:
        return a.args[1]
    return None


def split_cases(pre, bs):
    """Common alternatives of a byte sequence: [(condition, bytes)]."""
    conds = []
    for b in bs:
        if isk(b, "case"):
            conds.append(b.a)
    if not conds:
        return [(pre, bs)]
    out = []
    for c, _ in conds[0]:
        sel = []
        lits = set(lits_of(c))
        for b in bs:
            if isk(b, "case"):
                pick = [w for d, w in b.a if d is c]
                if pick:
                    b = pick[0]
                else:
                    keep = [(d, w) for d, w in b.a if known(d, lits) is not False]
                    b = keep[0][1] if len(keep) == 1 else b
            sel.append(b)
        out.append((pre + [c], sel))
    return out


def initialised(rep, d, where, pre, got):
    for p, bs in split_cases(pre, got):
        if any(isk(b, "undef") for b in bs):
            d.impossible("no uninitialised byte in a point", where, p, "a byte is never written")
        elif any(isk(x, "case") for x in bs):
            for b in bs:
                for c, x in alts(b):
                    if isk(x, "undef"):
                        d.impossible("no uninitialised byte in a point", where, p + [c], "a byte is never written")
            rep.add("held", "no uninitialised byte in a point", where)
        else:
            rep.add("held", "no uninitialised byte in a point", where)


def byte_order(rep, d, where, pre, got, big, m):
    """Consecutive bytes of the value come from consecutive bytes of the message, in the message's order."""
    if len(got) < 2:
        return
    for p, bs in split_cases(pre, got):
        idx = [source_index(b) for b in bs]
        if any(i is None for i in idx):
            if solve.prove(d.facts + p, False, (), d.limit):
                rep.add("held", "byte order honoured", where)
                continue
            rep.add("undecided", "byte order honoured", where, "source of the bytes not understood")
            continue
        for j in range(1, len(idx)):
            want = sub(idx[j - 1], 1) if big else add(idx[j - 1], 1)
            g = eq(idx[j], want)
            r = d.decide("byte order honoured", where, p, g, f"byte {j} of the value comes from {show(idx[j])[:80]}, byte {j-1} from {show(idx[j-1])[:80]}")
            if r != "held":
                break


def in_block(rep, d, where, pre, got, k, m, spec, big):
    S = spec.simp(m.S, big)
    lo = mul(k, S)
    acc = [spec.simp(f, big) for f in spec.accept]
    for p, bs in split_cases(pre, got):
        idx = [source_index(b) for b in bs]
        if any(i is None for i in idx):
            if not solve.prove(d.facts + p, False, (), d.limit):
                rep.add("undecided", "k-th point from k-th block", where, "source of the bytes not understood")
            continue
        first, last = idx[0], idx[-1]
        lo_i, hi_i = (last, first) if big else (first, last)
        d.decide("k-th point from k-th block", where, p + acc, f_and([ge(sub(lo_i, lo)), lt(hi_i, add(lo, S))]), f"bytes {show(lo_i)[:100]} to {show(hi_i)[:100]}")


# ------------------------------------------------------------------ acceptance and errors
def accept_rules(rep, prop, E, pt, m, where, okc, errs, rt, iterator=False):
    nf = is_atom(m.nf)
    spec = DecodeSpec(pt, m)
    i = new_idx()
    if prop == "C04":
        d = Decider(rep, E, None, None)
        missing = {}
        for f in pt.fields:
            present = exists(m.nf, streq(m.name(A(i)), s_lit(f["name"])), i)
            missing[f["name"]] = fnot(present)
        d = MissingDecider(rep, E, pt, nf)
        for f in pt.fields:
            for c in okc:
                d.decide("a message lacking a field is refused", f"{where}, without {f['name']}", [c, missing[f["name"]]], False, "conversion succeeds")
        if iterator:
            missing_names(rep, d, pt, m, where, errs, missing, rt)
        return
    # C05
    d = Decider(rep, E, pt, nf, facts=[])
    d.example_facts = list(spec.facts)
    for c in okc:
        d.decide("accepted only with step x width x height equal to the buffer length", where, lits_of(c), spec.size_ok, "sizes disagree")
    rule = "accepted only if every field ends within the point step"
    for f in pt.fields:
        j = spec.J[f["name"]]
        for code, size in SIZES.items():
            # the field's own datatype decides how many bytes it has
            codes = dict(spec.codes())
            own = is_atom(m.datatype(j))
            for keep in (True, False):
                # the other fields: of the right datatype, or of any
                if keep:
                    mp = {**codes, own: code}
                else:
                    mp = {own: code}
                facts = [subst(x, mp) for n, x in enumerate(spec.facts) if n % 4 != 3] + [eq(A(a), v) for a, v in mp.items()]
                d2 = Decider(rep, E, pt, nf, facts=facts)
                if keep and code != f["code"]:
                    continue
                if not keep and code == f["code"]:
                    continue
                for c in okc:
                    c2 = subst(spec.simp(c, None, False), mp)
                    if c2 is False:
                        rep.add("held", rule, where)
                        continue
                    g = ge(sub(m.S, add(m.offset(j), size)))
                    if keep:
                        d2.decide(rule, f"{where}, field {f['name']}", [c2], g, f"datatype {code}")
                    else:
                        ok = solve.prove(facts + [c2], g, (), 8)
                        rep.add("held" if ok else "undecided", rule + " (another datatype than the member's)", f"{where}, field {f['name']}", f"datatype {code}")
    facts = [spec.simp(f) for f in spec.facts + spec.accept] + spec.raw()
    d3 = Decider(rep, E, pt, nf, facts=facts)
    for c, w in errs:
        c = spec.simp(c)
        for ci, wi in alts(w):
            # each cause of the refusal on its own
            for part in disjuncts(f_and([c, spec.simp(ci)])):
                d3.impossible("a consistent message is accepted", where, [part], f"refused with {err_name(wi, rt)}")


def disjuncts(f, depth=2):
    """Disjunctive split of a condition's largest disjunctions."""
    if isinstance(f, bool):
        return [] if f is False else [True]
    if f.k == "or":
        return [y for x in f.a[0] for y in disjuncts(x, depth)]
    if f.k == "and" and depth:
        ors = [x for x in f.a[0] if x.k == "or"]
        if ors:
            o = max(ors, key=lambda x: (sum(len(y.a[0]) for y in x.a[0] if y.k == "and"), -x.id))
            rest = [x for x in f.a[0] if x is not o]
            out = []
            for x in o.a[0]:
                g = f_and(rest + [x])
                if g is not False:
                    out += disjuncts(g, depth - 1)
            return out
    return [f]


def err_name(w, rt):
    et = prog().types[rt]["variants"][1]["fields"][0][1]
    names = []
    for _, x in alts(w):
        names.append(variant_name(et, x.a[0]) if isk(x, "agg") else "?")
    return "/".join(names)


class MissingDecider(Decider):
    """Examples for messages without some of the fields."""

    def refute(self, cond):
        own = [(f["name"], f["code"]) for f in self.pt.fields]
        tpls = [own[:i] + own[i + 1:] for i in range(len(own))]
        tpls += [[("other", 7)] + t for t in tpls[:3]]
        tpls += [[("other%d" % i, c) for i, (n, c) in enumerate(own)], [], own]
        tpls += [own[:i] + [("other", own[i][1])] + own[i + 1:] for i in range(len(own))]
        for change in (lambda n: n.upper() if n.upper() != n else n.lower(), lambda n: " " + n, lambda n: n + "2", lambda n: n[:-1], lambda n: "/" + n):
            tpls += [own[:i] + [(change(own[i][0]), own[i][1])] + own[i + 1:] for i in range(len(own))]
            tpls.append([(change(n), c) for n, c in own])
        if len(own) > 2:
            tpls += [own[2:], own[:-2], own[1:-1], [own[-1]], [own[0]]]
        for t in tpls:
            c = apply_template(cond, t, self.nf)
            if c is False:
                continue
            if c is True:
                return "fields " + ", ".join("%s:%d" % x for x in t)
            if not clean(c):
                continue
            r, m = solve.counterexample(lits_of(c), (), self.limit)
            if r == "model":
                return "fields [" + ", ".join("%s:%d" % x for x in t) + "]; " + show_model(m)
        return None


def by_assignment(rep, d, pt, where, pre, content, length, missing, rule):
    """The reported list for every combination of missing fields, when it depends on nothing else."""
    inds_ = [a for a in at_of(content) | at_of(length) if a.kind == "ind"]
    back = {}
    for n, c in missing.items():
        back[c] = n
    who = {}
    for a in inds_:
        c = a.args[0]
        if c in back:
            who[a] = (back[c], 1)
        elif fnot(c) in back:
            who[a] = (back[fnot(c)], 0)
        elif any(b is not a and a in b.at for b in inds_):
            continue
        else:
            return False
    names = sorted(set(n for n, _ in who.values()))
    if not names or len(names) > 10:
        return False
    todo = []
    for bits in range(1 << len(names)):
        gone = {n for i, n in enumerate(names) if bits >> i & 1}
        if not gone:
            continue
        mp = {a: (1 if (n in gone) == bool(v) else 0) for a, (n, v) in who.items()}
        tab = {}
        for n, c in missing.items():
            if n in names:
                tab[c] = n in gone
                tab[fnot(c)] = n not in gone
        ln = toint(subst(length, mp))
        if not isinstance(ln, int) or ln > 32:
            return False
        ct = subst(content, mp)
        got = []
        for k in range(ln):
            y = seq_get(ct, k)
            ys = [w for c, w in alts(y) if solve.settle(c, tab) is not False]
            if len(ys) != 1 or not (isk(ys[0], "str") and ys[0].a[0][0] == "lit"):
                return False
            got.append(ys[0].a[0][1])
        todo.append((gone, got, f_and([c if n in gone else fnot(c) for n, c in missing.items() if n in names])))
    rest = [n for n in missing if n not in names]
    for gone, got, cond in todo:
        if sorted(got) == sorted(gone):
            rep.add("held", rule, where)
        else:
            d.impossible(rule, where, pre + [cond], f"reports {got} when {sorted(gone)} are missing")
    for n in rest:
        d.impossible(rule, where, pre + [missing[n]], f"{n} is never reported")
    return True


def missing_names(rep, d, pt, m, where, errs, missing, rt):
    et = prog().types[rt]["variants"][1]["fields"][0][1]
    anymiss = f_or(list(missing.values()))
    rule = "exactly the missing names are reported"
    for c, w in errs:
        for c2, x in alts(w):
            pre = [c, c2]
            if not isk(x, "agg"):
                rep.add("undecided", rule, where, "error value not understood")
                continue
            if variant_name(et, x.a[0]) != "FieldsNotFound":
                d.decide("missing fields are reported as such", where, pre + [anymiss], False, f"reported as {variant_name(et, x.a[0])}")
                continue
            content, length = vec_parts(x.a[1][0])
            if by_assignment(rep, d, pt, where, pre, content, length, missing, rule):
                continue
            listed = {}
            bad = None
            for p in pieces_of(content):
                if isk(p, "list"):
                    es = [(True, y) for y in p.a[0]]
                elif isk(p, "opt"):
                    es = [(p.a[0], p.a[1])]
                elif isk(p, "rep") and is_atom(p.a[0]) is not None and is_atom(p.a[0]).kind == "ind":
                    es = [(is_atom(p.a[0]).args[0], p.a[1])]
                else:
                    bad = p
                    break
                for cc, y in es:
                    for c3, y2 in alts(y):
                        n = y2.a[0][1] if isk(y2, "str") and y2.a[0][0] == "lit" else None
                        if n is None:
                            bad = y
                        listed.setdefault(n, []).append(f_and([cc, c3]))
            if bad is not None:
                rep.add("undecided", rule, where, "reported names not understood: " + showv(bad)[:200])
                continue
            for f in pt.fields:
                n = f["name"]
                cs = listed.pop(n, [])
                inl = f_or(cs)
                d.decide(rule, f"{where}, {n}", pre + [missing[n]], inl, "a missing name is not reported")
                d.decide(rule, f"{where}, {n}", pre + [fnot(missing[n])], fnot(inl), "a name that is present is reported")
                for i in range(len(cs)):
                    for j in range(i):
                        d.decide(rule, f"{where}, {n}", pre + [cs[i], cs[j]], False, "a name is reported twice")
            for n, cs in listed.items():
                d.decide(rule, where, pre + [f_or(cs)], False, f"reports {n!r}, which is not a field of the type")


# ------------------------------------------------------------------ iterators
def iter_conversion(rep, mod, prop):
    """Creation of the iterator."""
    pt = PointTy(mod)
    name = mod + "::into_iter"
    tys, rt = root_tys(name)
    E, (mv,), outs = run(name)
    rep.absorb(E)
    m = MsgView(mv, tys[0])
    al = out_alts(outs)
    okc = [c for c, w, s in al if isk(w, "agg") and w.a[0] == 0]
    errc = [(c, w.a[1][0]) for c, w, s in al if isk(w, "agg") and w.a[0] == 1]
    if any(not isk(w, "agg") for _, w, _ in al):
        rep.add("undecided", "result of the conversion understood", name, "unresolved outcome")
    accept_rules(rep, prop, E, pt, m, name, okc, errc, rt, iterator=True)


def lens(it, st=None):
    """[(name, value, state)] of every reported length."""
    out = []
    for op in ("it_hint", "it_len", "it_par_len", "it_opt_len"):
        if not has_root(f"{it.mod}::{op}"):
            continue
        for s, v in it.call(op, st):
            for c, w in alts(v):
                s2 = s.assume(c)
                if s2 is None:
                    continue
                if op == "it_hint":
                    out.append(("size_hint lower bound", fld(w, 0), s2))
                    out.append(("size_hint upper bound", fld(w, 1), s2))
                elif op == "it_opt_len":
                    out.append(("opt_len", w, s2))
                else:
                    out.append(("len" if op == "it_len" else "parallel len", w, s2))
    return out


OVERRIDABLE = ("it_nth", "it_nth_back", "it_count", "it_last", "it_fold", "it_rfold")


def overridden(mod):
    """Roots among OVERRIDABLE whose method is the crate's own, not the one inherited from the trait."""
    out = []
    P = prog()
    for op in OVERRIDABLE:
        if not has_root(f"{mod}::{op}"):
            continue
        for b in P.insts[root(f"{mod}::{op}")]["body"]["blocks"]:
            t = b[1]
            if t[0] == "call" and t[1].get("inst") is not None and P.insts[t[1]["inst"]]["crate"] == "ros_pointcloud2":
                out.append(op)
                break
    return out


STEPPING = {"Item", "next", "next_back", "size_hint", "nth", "nth_back", "count", "last", "fold", "rfold", "len"}
PARALLEL = {"Item", "drive_unindexed", "opt_len", "drive", "len", "with_producer", "IntoIter", "into_iter", "split_at", "Iter"}


def own_methods(rep):
    """Every method the crate writes for an iterator is one the histories cover."""
    for im in prog().impls:
        tr = im["trait"].split("::")[-1]
        if im["crate"] != "ros_pointcloud2" or not (tr.endswith("Iterator") or tr == "Producer"):
            continue
        for n in im["items"]:
            ok = n in (PARALLEL if "arallel" in tr or tr == "Producer" else STEPPING)
            rep.add("held" if ok else "undecided", "the methods written by the crate are those analysed", f"{short_span(im['span'])}, {tr}::{n} for {im['self']}", "" if ok else "no history uses this method")


class Walk:
    """Observes iterators reached by steps and splits."""

    def __init__(self, rep, mod, prop, pt, E, m, ref, d, spec):
        self.rep, self.mod, self.prop, self.pt, self.E, self.m, self.ref, self.d, self.spec = rep, mod, prop, pt, E, m, ref, d, spec

    def want(self, k):
        """Bytes of the k-th point as sequential iteration yields them."""
        at, bs = self.ref
        return {n: [subst(b, {at: k}) if not isinstance(b, int) else b for b in l] for n, l in bs.items()}

    def same_point(self, what, st, x, k):
        w = self.want(k)
        for f in self.pt.fields:
            got = bytes_of(fld(x, f["idx"]), f["ty"])
            self.d.equal_bytes(what, f"{self.mod}, field {f['name']}", lits_of(st.pc), got, w[f["name"]])

    def observe(self, it, lo, n, label):
        """it has the n points lo, lo+1, ... left."""
        d, rep = self.d, self.rep
        ops = [("it_next", lo)]
        if has_root(self.mod + "::it_next_back"):
            ops.append(("it_next_back", sub(add(lo, n), 1)))
        for op, k in ops:
            for kind, s, x in it.step(op):
                pc = lits_of(s.pc)
                if kind == "item":
                    d.decide("a point only while points remain", f"{label}, {op[3:]}", pc, ge(sub(n, 1)), "a step yields a point although none is left")
                    self.same_point(f"point handed out by {op[3:]}", s, x, k)
                elif kind == "none":
                    d.decide("no early end", f"{label}, {op[3:]}", pc, ge(neg(n)), "a step ends although points remain")
                    self.exhausted(it.at(s), label + " after the end")
                else:
                    rep.add("undecided", "step understood", label, showv(x)[:200])
        for what, v, s in lens(it):
            want = n
            if isk(v, "agg"):
                if v.a[0] == 0:
                    d.impossible("reported length is the number of remaining points", f"{label}, {what}", lits_of(s.pc), f"{what} is None")
                    continue
                v = v.a[1][0]
            d.decide("reported length is the number of remaining points", f"{label}, {what}", lits_of(s.pc), eq(toint(v), want), f"{what} = {show(toint(v))[:120]}")

    def exhausted(self, it, label):
        ops = ["it_next"] + (["it_next_back"] if has_root(self.mod + "::it_next_back") else [])
        for op in ops:
            for kind, s, x in it.step(op):
                if kind != "none":
                    self.d.impossible("stays exhausted", f"{label}, {op[3:]}", lits_of(s.pc), "a point after the end")
        for what, v, s in lens(it):
            if isk(v, "agg"):
                if v.a[0] == 0:
                    continue
                v = v.a[1][0]
            self.d.decide("reported length is the number of remaining points", f"{label}, {what}", lits_of(s.pc), eq(toint(v), 0), f"{what} = {show(toint(v))[:120]} after the end")

    def overrides(self, it, lo, n, label):
        """Methods of the iterator traits that the crate writes itself agree with stepping."""
        d, rep = self.d, self.rep
        i = var("skip", 0, ADDR_MAX)
        for op in overridden(self.mod):
            rep.note("methods_written_by_the_crate", op[3:])
            what = f"{label}, {op[3:]}"
            if op in ("it_nth", "it_nth_back"):
                k = add(lo, i) if op == "it_nth" else sub(sub(add(lo, n), 1), i)
                for kind, s, x in it.step(op, i):
                    pc = lits_of(s.pc)
                    if kind == "item":
                        d.decide("a point only while points remain", what, pc, ge(sub(sub(n, i), 1)), "yields a point although too few are left")
                        self.same_point(f"point handed out by {op[3:]}", s, x, k)
                        rest = sub(sub(n, i), 1)
                        self.observe(it.at(s), add(add(lo, i), 1) if op == "it_nth" else lo, rest, what + " and then")
                    elif kind == "none":
                        d.decide("no early end", what, pc, ge(sub(i, n)), "ends although enough points remain")
                        self.exhausted(it.at(s), what + " after the end")
                    else:
                        rep.add("undecided", "step understood", what, showv(x)[:200])
                continue
            for s, v in it.call(op, value=True):
                for c, w in alts(v):
                    s2 = s.assume(c)
                    if s2 is None:
                        continue
                    pc = lits_of(s2.pc)
                    if op == "it_count":
                        d.decide("count is the number of remaining points", what, pc, eq(toint(w), n), f"count = {show(toint(w))[:120]}")
                    elif op == "it_last":
                        if isk(w, "agg") and w.a[0] == 0:
                            d.decide("no early end", what, pc, ge(neg(n)), "no last point although points remain")
                        elif isk(w, "agg"):
                            d.decide("a point only while points remain", what, pc, ge(sub(n, 1)), "a last point although none is left")
                            self.same_point("point handed out by last", s2, w.a[1][0], sub(add(lo, n), 1))
                        else:
                            rep.add("undecided", "step understood", what, showv(w)[:200])
                    else:
                        content, ln = vec_parts(w)
                        k = var("k", 0, ADDR_MAX)
                        d.decide("every remaining point is visited once", what, pc, eq(toint(ln), n), f"{show(toint(ln))[:120]} points visited")
                        s3 = s2.assume(f_and([lt(k, n), lt(k, toint(ln))]))
                        if s3 is not None:
                            self.same_point(f"point handed out by {op[3:]}", s3, seq_get(content, k), add(lo, k) if op == "it_fold" else sub(sub(add(lo, n), 1), k))

    def interleave(self, it, label):
        """Stepping from the front and then from the back leaves the same iterator as the other order."""
        if not has_root(self.mod + "::it_next_back"):
            return
        def two(a, b):
            out = []
            for k1, s1, x1 in it.step(a):
                if k1 == "item":
                    for k2, s2, x2 in it.at(s1).step(b):
                        if k2 == "item":
                            out.append((s2, self.E.narrow(s2, it.at(s2).value()), x1, x2))
            return out
        fb, bf = two("it_next", "it_next_back"), two("it_next_back", "it_next")
        if len(fb) == 1 and len(bf) == 1 and same(fb[0][1], bf[0][1]):
            self.rep.add("held", "front and back steps commute", label)
        else:
            self.rep.add("undecided", "front and back steps commute", label, "final states differ in form")


def walk(rep, mod, prop, depth):
    pt = PointTy(mod)
    E, mv, mt, good, bad = start(mod)
    m = MsgView(mv, mt)
    nf = is_atom(m.nf)
    spec = DecodeSpec(pt, m)
    both = has_root(mod + "::it_next_back")
    if not good:
        raise AnchorMissing(mod + "::into_iter never succeeds")
    N = mul(m.W, m.H)
    for it in good:
        a = var("a", 0, ADDR_MAX)
        k = var("k", 0, ADDR_MAX)
        ref = None
        done, ended = it.steps("it_next", a)
        for x in done:
            for kind, s, v in x.step("it_next"):
                if kind == "item":
                    ref = (is_atom(a), {f["name"]: bytes_of(fld(v, f["idx"]), f["ty"]) for f in pt.fields}) if ref is None else ref
        if ref is None:
            rep.add("undecided", "iterator yields points", mod, "no step yields a point")
            continue
        if prop in ("C03", "C17", "C06", "C01"):
            for x in done:
                for op in ("it_next", "it_next_back"):
                    if not has_root(f"{mod}::{op}"):
                        continue
                    kk_ = a if op == "it_next" else sub(sub(N, a), 1)
                    xs = [x] if op == "it_next" else [y for y in it.steps("it_next_back", a)[0]]
                    for y in xs:
                        for kind, s, v in y.step(op):
                            if kind != "item":
                                if prop == "C06" and kind == "none":
                                    d = Decider(rep, E, pt, nf, facts=lits_of(s.pc))
                                    d.decide("number of points", f"{mod}::{op}", [], ge(sub(a, N)), "iteration ends early")
                                continue
                            if prop == "C06":
                                d = Decider(rep, E, pt, nf, facts=lits_of(s.pc))
                                d.decide("number of points", f"{mod}::{op}", [], ge(sub(sub(N, a), 1)), "iteration goes on too long")
                            for big in (False, True):
                                d = Decider(rep, E, pt, nf, facts=[spec.simp(f, big) for f in spec.facts + lits_of(s.pc)] + spec.raw(big))
                                check_element(rep, d, prop, f"{mod}::{op}, {'big' if big else 'little'}-endian", pt, spec, m, spec.simp(kk_, big), spec.simp(v, big), [], big)
            if prop in ("C03", "C17"):
                parts(rep, prop, mod, pt, spec, m, E, it, nf)
            if prop != "C01":
                continue
        d = Decider(rep, E, pt, nf)
        w = Walk(rep, mod, prop, pt, E, m, ref, d, spec)
        levels = [(it, 0, N, "iterator")]
        for lv in range(depth + 1):
            nxt = []
            for cur, lo, n, label in levels:
                f, b = var(f"f{lv}", 0, ADDR_MAX), var(f"b{lv}", 0, ADDR_MAX)
                xs, _ = cur.steps("it_next", f)
                for x in xs:
                    ys = x.steps("it_next_back", b)[0] if both else [x]
                    for y in ys:
                        lo2 = add(lo, f)
                        n2 = sub(sub(n, f), b) if both else sub(n, f)
                        if prop == "C07":
                            w.observe(y, lo2, n2, label)
                            w.overrides(y, lo2, n2, label)
                            w.interleave(y, label)
                        else:
                            # the obligations of every step and of every reported length count
                            for op in ("it_next", "it_next_back"):
                                if has_root(f"{mod}::{op}"):
                                    for kind, s, v in y.step(op):
                                        if kind == "none":
                                            for op2 in ("it_next", "it_next_back"):
                                                if has_root(f"{mod}::{op2}"):
                                                    y.at(s).step(op2)
                            lens(y)
                            for op in overridden(mod):
                                i = var("skip", 0, ADDR_MAX)
                                y.call(op, args=[i] if "nth" in op else [], value="nth" not in op)
                        if lv < depth:
                            i = var(f"i{lv}", 0, ADDR_MAX)
                            s = y.st.assume(ge(sub(n2, i)))
                            if s is None:
                                continue
                            for s2, l, r in y.at(s).split(i):
                                nxt.append((l, lo2, i, label + ", left part"))
                                nxt.append((r, add(lo2, i), sub(n2, i), label + ", right part"))
            levels = nxt
        if prop in ("C01", "C02"):
            obls(E, rep, prop, pt, nf)
            if prop == "C02":
                allocs(E, rep, pt, m, nf)
    rep.absorb(E)


def parts(rep, prop, mod, pt, spec, m, E, it, nf):
    """Points yielded by both parts of an iterator that was split after any number of steps."""
    f, i, g = var("f0", 0, ADDR_MAX), var("i0", 0, ADDR_MAX), var("f1", 0, ADDR_MAX)
    N = mul(m.W, m.H)
    for x in it.steps("it_next", f)[0]:
        st = x.st.assume(ge(sub(sub(N, f), i)))
        if st is None:
            continue
        for s, l, r in x.at(st).split(i):
            for part, lo, n, label in ((l, f, i, "left"), (r, add(f, i), sub(sub(N, f), i), "right")):
                for op in ("it_next", "it_next_back"):
                    if not has_root(f"{mod}::{op}"):
                        continue
                    for y in part.steps(op, g)[0]:
                        k = add(lo, g) if op == "it_next" else sub(sub(add(lo, n), g), 1)
                        for kind, s2, v in y.step(op):
                            if kind != "item":
                                continue
                            for big in (False, True):
                                d = Decider(rep, E, pt, nf, facts=[spec.simp(c, big) for c in spec.facts + lits_of(s2.pc)] + spec.raw(big))
                                check_element(rep, d, prop, f"{mod}::{op} of the {label} part, {'big' if big else 'little'}-endian", pt, spec, m, spec.simp(k, big), spec.simp(v, big), [], big)


# ------------------------------------------------------------------ parallel decoding (C23)
def par_decode(rep, mod):
    pt = PointTy(mod)
    name = mod
    for op in ("it_drive", "it_drive_unindexed"):
        E, mv, mt, good, bad = start(mod)
        for it in good:
            f, b = var("f0", 0, ADDR_MAX), var("b0", 0, ADDR_MAX)
            for x in it.steps("it_next", f)[0]:
                for y in x.steps("it_next_back", b)[0]:
                    n0 = len(E.events)
                    i = root(f"{mod}::{op}")
                    E.exec_body(y.st, i, [y.value(), UNIT])
                    evs = [e for e in E.events[n0:] if e[0] == "bridge"]
                    if not evs:
                        rep.add("undecided", "parallel iteration goes through the indexed bridge", f"{mod}::{op}", "no call to rayon's bridge found")
                    for k, pc, kw, st in evs:
                        if same(kw["value"], y.value()):
                            rep.add("held", "the whole remaining iterator is handed to the scheduler", f"{mod}::{op}")
                        else:
                            compare_iters(rep, mod, E, y, kw["value"], y.st, f"{mod}::{op}", m=MsgView(mv, mt), pt=pt)
        rep.absorb(E)
    # producers
    for op in ("it_producer", "it_producer_split"):
        E, mv, mt, good, bad = start(mod)
        m = MsgView(mv, mt)
        N = mul(m.W, m.H)
        got = []

        def hook(E, st, inst, args):
            got.append((st, args[0]))
            return [(st, UNIT)]
        E.leaf_hooks["witness::sink"] = hook
        for it in good:
            f, b, i = var("f0", 0, ADDR_MAX), var("b0", 0, ADDR_MAX), var("i0", 0, ADDR_MAX)
            ref = None
            for x in it.steps("it_next", f)[0]:
                for kind, s, v in x.step("it_next"):
                    if kind == "item":
                        ref = (is_atom(f), {q["name"]: bytes_of(fld(v, q["idx"]), q["ty"]) for q in pt.fields})
                if ref is None:
                    continue
                for y in x.steps("it_next_back", b)[0]:
                    n2 = sub(sub(N, f), b)
                    st = y.st.assume(ge(sub(n2, i)))
                    got.clear()
                    args = [y.value()] + ([i] if op == "it_producer_split" else [])
                    E.exec_body(st, root(f"{mod}::{op}"), args)
                    if not got:
                        rep.add("undecided", "producer hands out the points", f"{mod}::{op}", "the producer's iterator was not found")
                    for s, v in got:
                        parts = [(fld(v, 0), f, i, "left half"), (fld(v, 1), add(f, i), sub(n2, i), "right half")] if op == "it_producer_split" else [(v, f, n2, "whole")]
                        for val, lo, n, label in parts:
                            z = it.put(val, s)
                            w = Walk(rep, mod, "C23", pt, E, m, ref, Decider(rep, E, pt, is_atom(m.nf)), None)
                            c, e = var("f1", 0, ADDR_MAX), var("b1", 0, ADDR_MAX)
                            for p in z.steps("it_next", c)[0]:
                                for q in p.steps("it_next_back", e)[0]:
                                    w.observe(q, add(lo, c), sub(sub(n, c), e), f"{mod}: {label} of the producer")
        rep.absorb(E)


def compare_iters(rep, mod, E, y, val, st, where, m, pt):
    """The value handed to the scheduler yields what the original would."""
    f, b = var("f1", 0, ADDR_MAX), var("b1", 0, ADDR_MAX)
    N = mul(m.W, m.H)
    f0, b0 = var("f0", 0, ADDR_MAX), var("b0", 0, ADDR_MAX)
    z = y.put(val, st)
    ref = None
    for x in y.steps("it_next", f)[0]:
        for kind, s, v in x.step("it_next"):
            if kind == "item":
                ref = (is_atom(f), {q["name"]: bytes_of(fld(v, q["idx"]), q["ty"]) for q in pt.fields})
    if ref is None:
        rep.add("undecided", "the whole remaining iterator is handed to the scheduler", where, "no reference")
        return
    w = Walk(rep, mod, "C23", pt, E, m, ref, Decider(rep, E, pt, is_atom(m.nf)), None)
    for p in z.steps("it_next", f)[0]:
        for q in p.steps("it_next_back", b)[0]:
            w.observe(q, f, sub(sub(sub(sub(N, f0), b0), f), b), where)
