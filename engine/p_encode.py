"""Encoding: C08, C09, C10, C25, and the encoding halves of C23, C26, C27."""
from common import *
from p_decode import elem_bytes, OBL_RULE
import hist

U32 = (1 << 32) - 1
NAME_OF = {"from_iter": "per-point encoder", "from_vec": "direct-copy encoder", "from_par": "parallel encoder"}


class Encoded:
    """Outcomes of one encoder applied to an arbitrary list of points."""

    def __init__(self, rep, mod, enc):
        self.mod, self.enc, self.where = mod, enc, f"{mod}::{enc}"
        self.pt = PointTy(mod)
        tys, rt = root_tys(self.where)
        self.E, (self.points,), outs = run(self.where)
        rep.absorb(self.E)
        self.content, self.n = vec_parts(self.points)
        self.mt = prog().types[rt]["variants"][0]["fields"][0][1]
        self.rt = rt
        self.ok, self.err = [], []
        for c, w, s in out_alts(outs):
            if not isk(w, "agg"):
                rep.add("undecided", "result of the encoder understood", self.where, showv(w)[:200])
                continue
            if w.a[0] == 0:
                for c2, x in alts(w.a[1][0]):
                    f = f_and([c, c2])
                    if f is not False:
                        self.ok.append((f, x, s))
            else:
                self.err.append((c, w.a[1][0], s))

    def view(self, v):
        return MsgView(v, self.mt)

    def narrow(self, c, v):
        """The value where c holds."""
        st = St()
        st.pc = c
        return self.E.narrow(st, v)


def count_known(m):
    return toint(m.nf)


def encode(rep, mod, enc, prop):
    x = Encoded(rep, mod, enc)
    d = Decider(rep, x.E)
    n = x.n
    if not x.ok:
        d.impossible("points can be encoded", x.where, [], "no outcome is a message") if x.err else rep.add("undecided", "points can be encoded", x.where, "no outcome")
    if prop in ("C10", "C25"):
        rule = encode_rule(prop)
        obligations(x.E, rep, rule)
    if prop == "C25":
        # every byte of the message is written
        pass
    for c, v, s in x.ok:
        v = x.narrow(c, v)
        m = x.view(v)
        pre = lits_of(c)
        if prop == "C10":
            sizes(rep, d, x, m, pre, n)
        if prop in ("C08", "C23", "C27"):
            metadata(rep, d, x, m, pre, n)
        if prop in ("C09", "C23", "C27"):
            payload(rep, d, x, m, pre, n)
        if prop == "C25":
            written(rep, d, x, m, pre, n)
    if prop == "C10":
        for c, w, s in x.err:
            step = max(1, declared_size(x))
            small = [le(n, U32), le(mul(n, step), U32)]
            d.impossible("a cloud that fits is encoded", x.where, lits_of(c) + small, "refused although all numbers fit")


def le(a, b):
    return ge(sub(b, a))


def declared_size(x):
    """Point step of the encoded messages, when it is one number."""
    for c, v, s in x.ok:
        S = toint(x.view(x.narrow(c, v)).S)
        if isinstance(S, int):
            return S
    return x.pt.size


def encode_rule(prop):
    def rule(o):
        if prop == "C10":
            return {"overflow": "arithmetic on sizes does not overflow", "panic": "panic unreachable"}.get(o.kind)
        return {"ub": "memory access inside the allocation", "bounds": "index in bounds", "panic": "panic unreachable", "overflow": "arithmetic does not overflow"}.get(o.kind)
    return rule


def sizes(rep, d, x, m, pre, n):
    """Numbers of an encoded message are the true ones."""
    w = x.where
    d.decide("width is the true number of points", w, pre, eq(m.W, n), f"width {show(m.W)[:120]}")
    d.decide("row step is the true width times point step", w, pre, eq(m.R, mul(n, m.S)), f"row step {show(m.R)[:120]}, point step {show(m.S)[:60]}")
    d.decide("every number fits 32 bits", w, pre, f_and([le(n, U32), le(mul(n, m.S), U32)]), "a message is made from a cloud whose sizes do not fit")
    d.decide("buffer length is the true number of bytes", w, pre, eq(toint(m.D), mul(n, m.S)), f"{show(toint(m.D))[:120]} bytes")


def field_table(x, m):
    """[(name value, offset, datatype, count)] of the encoded message, or None."""
    k = toint(m.nf)
    if not isinstance(k, int) or k > 64:
        return None
    return [(m.name(i), m.offset(i), m.datatype(i), m.count(i)) for i in range(k)]


def metadata(rep, d, x, m, pre, n):
    w = x.where
    d.decide("width is the number of points", w, pre, eq(m.W, n), f"width {show(m.W)[:120]}")
    d.decide("height is one, zero when empty", w, pre + [ge(sub(n, 1))], eq(m.H, 1), f"height {show(m.H)[:120]}")
    d.decide("height is one, zero when empty", w, pre + [eq(n, 0)], eq(m.H, 0), f"height {show(m.H)[:120]}")
    d.decide("row step is width times point step", w, pre, eq(m.R, mul(m.W, m.S)), f"row step {show(m.R)[:120]}")
    d.decide("buffer length is point step times width", w, pre, eq(toint(m.D), mul(m.W, m.S)), f"{show(toint(m.D))[:120]} bytes")
    for c, e in alts(m.endian):
        if isk(e, "agg"):
            if variant_name(m.endian_ty, e.a[0]) == "Little":
                rep.add("held", "byte order flag is little-endian", w)
            else:
                d.impossible("byte order flag is little-endian", w, pre + [c], "flagged big-endian")
        else:
            rep.add("undecided", "byte order flag is little-endian", w, showv(e)[:120])
    d.decide("one field per member", w, pre, eq(toint(m.nf), x.pt.n), f"{show(toint(m.nf))[:80]} fields for {x.pt.n} members")
    tab = field_table(x, m)
    if tab is None:
        rep.add("undecided", "field table understood", w, "number of fields is not fixed")
        return
    for i, (f, (name, off, code, cnt)) in enumerate(zip(x.pt.fields, tab)):
        wf = f"{w}, field {f['name']}"
        name_is(rep, d, wf, pre, name, f["name"])
        d.decide("datatype code matches the member", wf, pre, eq(code, f["code"]), f"datatype {show(code)[:80]} instead of {f['code']}")
        d.decide("count is one", wf, pre, eq(cnt, 1), f"count {show(cnt)[:80]}")
        d.decide("field lies within the point step", wf, pre, le(add(off, f["size"]), m.S), f"offset {show(off)[:80]}, step {show(m.S)[:80]}")
        for j in range(i):
            g, o2 = x.pt.fields[j], tab[j][1]
            d.decide("fields do not overlap", f"{wf} and {g['name']}", pre, f_or([le(add(off, f["size"]), o2), le(add(o2, g["size"]), off)]), f"offsets {show(off)[:60]} and {show(o2)[:60]}")


def name_is(rep, d, where, pre, name, want):
    for c, s in alts(name):
        g = streq(s, s_lit(want)) if isk(s, "str") else None
        if g is True:
            rep.add("held", "field names in order", where)
        elif g is False:
            d.impossible("field names in order", where, pre + [c], f"named {showv(s)[:60]} instead of {want!r}")
        elif g is None:
            rep.add("undecided", "field names in order", where, showv(s)[:120])
        else:
            d.decide("field names in order", where, pre + [c], g, showv(s)[:120])


def payload(rep, d, x, m, pre, n):
    """Bytes at k*step+offset are the field's value, little-endian."""
    tab = field_table(x, m)
    if tab is None:
        rep.add("undecided", "field table understood", x.where, "number of fields is not fixed")
        return
    k = var("k", 0, ADDR_MAX)
    inside = [ge(sub(sub(n, k), 1))]
    el = seq_get(x.content, k)
    eb = elem_bytes(el, x.pt)
    d2 = Decider(rep, x.E, facts=inside)
    for i, f in enumerate(x.pt.fields):
        # the member is found through its declared name
        js = [j for j, t in enumerate(tab) if isk(t[0], "str") and streq(t[0], s_lit(f["name"])) is True]
        if len(js) != 1:
            if all(isk(t[0], "str") and isinstance(streq(t[0], s_lit(f["name"])), bool) for t in tab):
                d2.impossible("field bytes at the declared offset", f"{x.where}, field {f['name']}", pre, f"declared {len(js)} times")
            else:
                rep.add("undecided", "field bytes at the declared offset", f"{x.where}, field {f['name']}", "names not understood")
            continue
        off = tab[js[0]][1]
        got = [seq_get(m.data, add(add(mul(k, m.S), off), j)) for j in range(f["size"])]
        d2.equal_bytes("field bytes at the declared offset", f"{x.where}, field {f['name']}", pre, got, eb[f["name"]], f"offset {show(off)[:60]}")


def written(rep, d, x, m, pre, n):
    """No byte of the buffer is left uninitialised or comes from outside the points."""
    q = var("q", 0, ADDR_MAX)
    d2 = Decider(rep, x.E, facts=[lt(q, toint(m.D))])
    b = seq_get(m.data, q)
    for c, y in alts(b):
        if isk(y, "undef"):
            d2.impossible("every byte of the buffer is written", x.where, pre + [c], "a byte is never written")
    rep.add("held", "every byte of the buffer is written", x.where)


# ------------------------------------------------------------------ round trips (C26)
def roundtrip(rep, mod, enc, dec):
    x = Encoded(rep, mod, enc)
    where = f"{mod}: {enc} then {dec}"
    pt, n = x.pt, x.n
    k = var("k", 0, ADDR_MAX)
    el = seq_get(x.content, k)
    want = elem_bytes(el, pt)
    inside = [ge(sub(sub(n, k), 1))]
    if not x.ok:
        rep.add("undecided", "round trip", where, "nothing is encoded")
    for c, v, s in x.ok:
        E = x.E
        st = s.assume(c)
        if st is None:
            continue
        st = E.narrow_mem(st)
        v = E.narrow(st, v)
        pre = lits_of(st.pc)
        if dec in ("into_vec", "into_iter_collect"):
            E, _, outs = run(f"{mod}::{dec}", [v], st, E)
            rep.absorb(E)
            d = Decider(rep, E, facts=[])
            for c2, w, s2 in out_alts(outs):
                if not isk(w, "agg"):
                    rep.add("undecided", "round trip", where, "unresolved outcome")
                elif w.a[0] == 1:
                    d.impossible("an encoded message is decoded", where, lits_of(c2), "decoding fails")
                else:
                    content, ln = vec_parts(E.narrow(s2.assume(c2) or s2, w.a[1][0]))
                    p2 = lits_of(c2)
                    for nc, nn in alts(ln):
                        d.decide("same number of points", where, p2 + [nc], eq(toint(nn), n), f"{show(toint(nn))[:100]} points")
                    compare(rep, E, pt, where, p2 + inside, elem_bytes(seq_get(content, k), pt), want)
        else:
            # the iterator conversion, stepped
            outs = E.exec_body(st, root(mod + "::into_iter"), [v])
            d = Decider(rep, E, facts=[])
            rt = root_tys(mod + "::into_iter")[1]
            it_ty = prog().types[rt]["variants"][0]["fields"][0][1]
            for c2, w, s2 in out_alts(outs):
                if not isk(w, "agg"):
                    rep.add("undecided", "round trip", where, "unresolved outcome")
                    continue
                if w.a[0] == 1:
                    d.impossible("an encoded message is decoded", where, lits_of(c2), "decoding fails")
                    continue
                s3 = s2.assume(c2)
                if s3 is None:
                    continue
                s3 = E.narrow_mem(s3).copy()
                key = ("T", fresh_id())
                s3.mem[key] = E.narrow(s3, w.a[1][0])
                it = hist.Iter(mod, E, s3, key, it_ty)
                a = var("a", 0, ADDR_MAX)
                ops = [("it_next", a)]
                if has_root(mod + "::it_next_back"):
                    ops.append(("it_next_back", sub(sub(n, a), 1)))
                for op, at in ops:
                    for y in it.steps(op, a)[0]:
                        for kind, s4, val in y.step(op):
                            p4 = lits_of(s4.pc)
                            if kind == "item":
                                d.decide("same number of points", where, p4, ge(sub(sub(n, a), 1)), "more points than were encoded")
                                compare(rep, E, pt, where, p4, elem_bytes(val, pt), elem_bytes(seq_get(x.content, at), pt))
                            elif kind == "none":
                                d.decide("same number of points", where, p4, ge(sub(a, n)), "fewer points than were encoded")
                            else:
                                rep.add("undecided", "round trip", where, "step not understood")
            rep.absorb(E)


def compare(rep, E, pt, where, pre, got, want):
    d = Decider(rep, E, facts=[])
    for f in pt.fields:
        d.equal_bytes("bit-identical field values", f"{where}, field {f['name']}", pre, got[f["name"]], want[f["name"]])


# ------------------------------------------------------------------ parallel encoding (C23)
def par_encode(rep, mod):
    """The message made from a parallel source describes the same points in order."""
    encode(rep, mod, "from_par", "C23")
    a = Encoded(rep, mod, "from_par")
    # the sequential encoder with the same point step
    b = None
    for enc in ("from_vec", "from_iter"):
        c = Encoded(rep, mod, enc)
        if b is None or declared_size(c) == declared_size(a) != declared_size(b):
            b = c
    parts = [e[2]["inside"] for e in a.E.events if e[0] == "par_reduce"]
    if parts:
        rep.add("undecided", "any division of a reduced source", a.where, "shown for divisions into two parts")
    ca, cb = f_or([c for c, _, _ in a.ok]), f_or([c for c, _, _ in b.ok])
    if same(ca, cb):
        rep.add("held", "same clouds accepted as by the sequential encoder", a.where)
    else:
        d = Decider(rep, a.E)
        d.decide("same clouds accepted as by the sequential encoder", a.where, [cb] + parts, ca, "refused in parallel only")
        d.decide("same clouds accepted as by the sequential encoder", a.where, [ca], cb, "accepted in parallel only")
