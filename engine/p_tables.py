"""Tables, primitive values, layouts, colours, constructors, the message builder and the ROS
message conversions: C11, C12, C13, C14, C16, C18, C21, C22."""
from common import *
from p_decode import elem_bytes

PRIMS = ["i8", "u8", "i16", "u16", "i32", "u32", "f32", "f64"]
VARIANT_CODE = {"I8": 1, "U8": 2, "I16": 3, "U16": 4, "I32": 5, "U32": 6, "F32": 7, "F64": 8, "RGB": 7}
VARIANT_NAME = {v: v.lower() for v in VARIANT_CODE}


def go(rep, name, args=None):
    """Run an entry point; returns (Decider, engine, arguments, types, [(conditions, value, state)])."""
    E, args, outs = run(name, args)
    rep.absorb(E)
    tys, rt = root_tys(name)
    return Decider(rep, E), E, args, (tys, rt), [(lits_of(c), w, s) for c, w, s in out_alts(outs)]


def no_panic(E, rep, rule="panic, overflow and bounds"):
    """Obligations of the repository's own code (and of generated code), not of nalgebra's."""
    obligations(E, rep, lambda o: rule if o.kind in ("panic", "bounds", "overflow", "ub") and "nalgebra" not in str(o.span) else None)


# ------------------------------------------------------------------ comparing values
def value_is(d, rule, where, pre, got, want, t, what=""):
    """got equals want as a value of type t, under pre."""
    T = prog().types[t]
    k = T["kind"]
    if k in ("int", "float", "char"):
        if k == "int" and isint(got) and isint(want) and not isk(got, "case") and not isk(want, "case"):
            return d.decide(rule, where, pre, eq(toint(got), toint(want)), f"{what}{showv(got)[:160]} instead of {showv(want)[:160]}") if quick_eq(d, pre, got, want) is None else d.rep.add("held", rule, where)
        return d.equal_bytes(rule, where, pre, bytes_of(got, t), bytes_of(want, t), what)
    if k == "bool":
        g, w = tobool(got), tobool(want)
        if same(g, w):
            return d.rep.add("held", rule, where)
        d.decide(rule, where, pre + lits_of(g), w, f"{what}set although {show(fnot(w))[:160]}")
        return d.decide(rule, where, pre + lits_of(w), g, f"{what}not set although {show(w)[:160]}")
    if same(got, want):
        return d.rep.add("held", rule, where)
    for c, g in alts(got):
        for c2, w in alts(want):
            p = pre + lits_of(f_and([c, c2]))
            if f_and([c, c2]) is False:
                continue
            if same(g, w):
                d.rep.add("held", rule, where)
            elif isk(g, "str") and isk(w, "str"):
                string_is(d, rule, where, p, g, w, what)
            elif isk(g, "agg") and isk(w, "agg"):
                if g.a[0] != w.a[0]:
                    d.impossible(rule, where, p, f"{what}{showv(g)[:120]} instead of {showv(w)[:120]}")
                    continue
                fs = member_types(T, w.a[0])
                for i, (n, ft) in enumerate(fs):
                    value_is(d, rule, where, p, g.a[1][i], w.a[1][i], ft, f"{what}{n}: ")
            elif k == "adt" and T["adt"] == "Union":
                d.equal_bytes(rule, where, p, bytes_of(g, t), bytes_of(w, t), what)
            elif k == "array":
                for i in range(T["len"]):
                    value_is(d, rule, where, p, seq_get(g, i), seq_get(w, i), T["elem"], f"{what}[{i}]: ")
            elif isk(g, "vec") or isk(w, "vec"):
                vec_is(d, rule, where, p, g, w, T, what)
            else:
                d.rep.add("undecided", rule, where, f"{what}{showv(g)[:160]} against {showv(w)[:160]}")


def quick_eq(d, pre, got, want):
    return True if same(got, want) else None


def member_types(T, variant):
    if T["kind"] == "tuple":
        return [(str(i), t) for i, t in enumerate(T["fields"])]
    return [(f[0], f[1]) for f in T["variants"][variant]["fields"]]


def string_is(d, rule, where, pre, g, w, what=""):
    """Two strings; different known sources are different strings."""
    c = streq(g, w)
    if c is True:
        return d.rep.add("held", rule, where)
    if c is False or (g.a[0][0] in ("sym", "lit") and w.a[0][0] in ("sym", "lit")):
        if c is not False:
            return d.decide(rule, where, pre, c, f"{what}{showv(g)[:120]} instead of {showv(w)[:120]}")
        return d.impossible(rule, where, pre, f"{what}{showv(g)[:120]} instead of {showv(w)[:120]}")
    if g.a[0][0] == "fn" and g.a[0][1] in STRFN and g.a[0][2] is w and w.a[0][0] == "sym" and not any(w.a[0][1:-1] == n for f in pre for n in strs_in(f)):
        return d.decide(rule, where, pre, c, f"{what}{g.a[0][1]}{g.a[0][3:]} of {showv(w)[:120]}")
    d.rep.add("undecided", rule, where, f"{what}{showv(g)[:120]} against {showv(w)[:120]}")


def strs_in(f):
    """Symbolic strings a condition speaks about."""
    out, seen, work = set(), set(), [f]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work.extend(x)
        elif hasattr(x, "a") and id(x) not in seen:
            seen.add(id(x))
            if isk(x, "str") and x.a[0][0] == "sym":
                out.add(x.a[0][1:-1])
            work.extend(x.a)
    return out


def vec_is(d, rule, where, pre, g, w, T, what):
    gc, gn = vec_parts(g)
    wc, wn = vec_parts(w)
    for c, n in alts(gn):
        d.decide(rule, where, pre + lits_of(c), eq(toint(n), toint(wn)), f"{what}length {show(toint(n))[:120]}")
    k = var("k", 0, ADDR_MAX)
    p = pre + [lt(k, toint(wn))]
    value_is(d, rule, where, p, seq_get(gc, k), seq_get(wc, k), T["args"][0], f"{what}element k: ")


def holds(rep, rule, where, ok, detail=""):
    rep.add("held" if ok else "violated", rule, where, detail)


# ------------------------------------------------------------------ C11
def tables(rep):
    # code and size of every variant
    for nm, table in (("code", VARIANT_CODE), ("size", {v: SIZES[c] for v, c in VARIANT_CODE.items()})):
        tys, rt = root_tys("tables::" + nm)
        for i, v in enumerate(prog().types[tys[0]]["variants"]):
            d, E, _, _, outs = go(rep, "tables::" + nm, [agg(i)])
            no_panic(E, rep)
            w = f"{nm} of {v['name']}"
            if v["name"] not in table:
                rep.add("undecided", "every datatype is in the ROS table", w)
                continue
            if not outs:
                rep.add("undecided", f"datatype {nm} agrees with the ROS definition", w, "no outcome")
            for p, x, s in outs:
                d.decide(f"datatype {nm} agrees with the ROS definition", w, p, eq(toint(x), table[v["name"]]), f"{showv(x)[:80]} instead of {table[v['name']]}")
    # a code names one datatype, every other code is refused
    for nm in ("from_code", "from_field"):
        d, E, args, (tys, rt), outs = go(rep, "tables::" + nm)
        no_panic(E, rep)
        code = toint(args[0]) if nm == "from_code" else None
        dt = None
        for p, x, s in outs:
            if nm == "from_field":
                fv = E.read_ptr(s, args[0])
                code = toint(member(fv, pointee(tys[0]), "datatype"))
            if not isk(x, "agg"):
                rep.add("undecided", "codes map to datatypes", nm, "unresolved outcome")
            elif x.a[0] == 0:
                dt = prog().types[rt]["variants"][0]["fields"][0][1]
                for c, y in alts(x.a[1][0]):
                    if not isk(y, "agg"):
                        rep.add("undecided", "codes map to datatypes", nm, "unresolved datatype")
                        continue
                    v = variant_name(dt, y.a[0])
                    d.decide("a code is accepted only as its own datatype", f"{nm}, {v}", p + lits_of(c), eq(code, VARIANT_CODE.get(v, -1)), f"{v} from another code")
            else:
                for n in range(1, 9):
                    d.impossible("the eight codes are accepted", f"{nm}, code {n}", p + [eq(code, n)], "refused")
    # names
    d, E, args, (tys, rt), outs = go(rep, "tables::from_str")
    no_panic(E, rep)
    for p, x, s in outs:
        if not isk(x, "agg"):
            rep.add("undecided", "names map to datatypes", "from_str", "unresolved outcome")
        elif x.a[0] == 0:
            dt = prog().types[rt]["variants"][0]["fields"][0][1]
            for c, y in alts(x.a[1][0]):
                v = variant_name(dt, y.a[0]) if isk(y, "agg") else None
                if v is None:
                    rep.add("undecided", "names map to datatypes", "from_str", "unresolved datatype")
                    continue
                sv = args[0] if not isk(args[0], "ptr") else E.read_ptr(s, args[0])
                g = streq(sv, s_lit(VARIANT_NAME.get(v, "?"))) if isk(sv, "str") else None
                if g is None:
                    rep.add("undecided", "a name is accepted only as its own datatype", "from_str", "argument not understood")
                else:
                    d.decide("a name is accepted only as its own datatype", f"from_str, {v}", p + lits_of(c), g, f"{v} from another name")
    for n in PRIMS + ["rgb"]:
        d, E, _, (tys, rt), outs = go(rep, "tables::n_" + n)  if has_root("tables::n_" + n) else (None, None, None, (None, None), None)
        if outs is None:
            continue
        dt = prog().types[rt]["variants"][0]["fields"][0][1]
        for p, x, s in outs:
            if isk(x, "agg") and x.a[0] == 1:
                d.impossible("the name is accepted", n, p, "refused")
            elif isk(x, "agg"):
                for c, y in alts(x.a[1][0]):
                    if isk(y, "agg"):
                        v = variant_name(dt, y.a[0])
                        if VARIANT_NAME.get(v) == n:
                            rep.add("held", "the name gives its own datatype", n)
                        else:
                            d.impossible("the name gives its own datatype", n, p + lits_of(c), f"{n} gives {v}")
                    else:
                        rep.add("undecided", "the name gives its own datatype", n)
            else:
                rep.add("undecided", "the name gives its own datatype", n)
    # the Rust type of each datatype
    for n in PRIMS + ["rgb"]:
        if not has_root(f"p_{n}::datatype"):
            continue
        d, E, _, (tys, rt), outs = go(rep, f"p_{n}::datatype")
        vt = root_tys(f"p_{n}::new")[0][0]
        code, size = prim_of(vt)
        for p, x, s in outs:
            for c, y in alts(x):
                if not isk(y, "agg"):
                    rep.add("undecided", "datatype of the Rust type", n)
                    continue
                v = variant_name(rt, y.a[0])
                ok = VARIANT_CODE.get(v) == code and SIZES[VARIANT_CODE[v]] == prog().types[vt]["size"]
                if ok:
                    rep.add("held", "datatype of the Rust type", n)
                else:
                    d.impossible("datatype of the Rust type", n, p + lits_of(c), f"{n} is carried as {v}")


# ------------------------------------------------------------------ C12
def sub_of(t):
    """Indices of bytes, byte order and datatype among the members of the point datum."""
    r = {}
    for i, (n, ft, _) in enumerate(prog().types[t]["variants"][0]["fields"]):
        T = prog().types[ft]
        if T["kind"] == "array":
            r["bytes"] = i
        elif T["kind"] == "adt" and T["path"].endswith("Endian"):
            r["endian"] = i
            r["endian_ty"] = ft
        elif T["kind"] == "adt" and T["path"].endswith("FieldDatatype"):
            r["datatype"] = i
            r["datatype_ty"] = ft
        elif T["kind"] == "adt":
            # wrapped buffer
            r["bytes"] = i
            r["wrapped"] = ft
    if "bytes" not in r or "endian" not in r:
        raise AnchorMissing("parts of the point datum")
    return r


def datum(v, t):
    """(byte list, byte order value, byte order type, datatype value, datatype type)."""
    r = sub_of(t)
    bt = prog().types[t]["variants"][0]["fields"][r["bytes"]][1]
    return bytes_of(fld(v, r["bytes"]), bt), fld(v, r["endian"]), r["endian_ty"], fld(v, r["datatype"]) if "datatype" in r else None, r.get("datatype_ty")


def tag_of(v, t):
    """(tag atom, {variant name: value}) of a symbolic enum."""
    tags = [a for a in at_of(v) if a.kind in ("var", "fn")]
    if len(tags) != 1 or not isk(v, "case"):
        raise AnchorMissing("enum tag")
    return tags[0], {variant_name(t, w.a[0]): -c.a[0].m.get((), 0) for c, w in v.a}


def both_orders(v, t):
    """[(big?, substitution)] for a symbolic byte order flag."""
    tag, vals = tag_of(v, t)
    return [(False, {tag: vals["Little"]}), (True, {tag: vals["Big"]})]


def prims(rep):
    for n in PRIMS + ["rgb"]:
        m = "p_" + n
        if not has_root(m + "::new"):
            continue
        vt = root_tys(m + "::new")[0][0]
        code, size = prim_of(vt)
        rule = "same bits after storing and reading"
        for nm in (m + "::roundtrip", "pd_from::f_" + n):
            if not has_root(nm):
                continue
            d, E, args, (tys, rt), outs = go(rep, nm)
            no_panic(E, rep)
            for p, x, s in outs:
                d.equal_bytes(rule, nm, p, bytes_of(x, rt), bytes_of(args[0], tys[0]))
            if not outs:
                rep.add("undecided", rule, nm, "no outcome")
        # stored form
        d, E, args, (tys, rt), outs = go(rep, m + "::new")
        no_panic(E, rep)
        src = bytes_of(args[0], tys[0])
        for p, x, s in outs:
            bs, e, et, dt, dtt = datum(x, rt)
            for c, y in alts(e):
                big = isk(y, "agg") and variant_name(et, y.a[0]) == "Big"
                d.equal_bytes("stored bytes are the value's", m + "::new", p + lits_of(c), bs[:size], src[::-1] if big else src)
            if dt is not None:
                for c, y in alts(dt):
                    v = variant_name(dtt, y.a[0]) if isk(y, "agg") else None
                    if v is None:
                        rep.add("undecided", "stored datatype is the value's", m)
                    elif VARIANT_CODE.get(v) == code:
                        rep.add("held", "stored datatype is the value's", m)
                    else:
                        d.impossible("stored datatype is the value's", m + "::new", p + lits_of(c), f"stored as {v}")
        # reading under either byte order
        d, E, args, (tys, rt), outs = go(rep, m + "::get")
        no_panic(E, rep)
        for p, x, s in outs:
            pv = E.read_ptr(s, args[0])
            pt = pointee(tys[0])
            bs, e, et, dt, dtt = datum(pv, pt)
            ev = symbolic_order(E, args[0], s, pt)
            for big, mp in both_orders(ev, et):
                p2 = [subst(q, mp) for q in p]
                if f_and(p2) is False:
                    continue
                want = [subst(b, mp) for b in bs[:size]]
                got = [subst(b, mp) for b in bytes_of(x, rt)]
                d.equal_bytes("reading honours the byte order", f"{m}::get, {'big' if big else 'little'}-endian", p2, got, want[::-1] if big else want)
        for nm, big in (("from_le", False), ("from_be", True)):
            d, E, args, (tys, rt), outs = go(rep, f"{m}::{nm}")
            no_panic(E, rep)
            src = bytes_of(args[0], tys[0])[:size]
            for p, x, s in outs:
                d.equal_bytes("exactly the type's bytes in the stated order", f"{m}::{nm}", p, bytes_of(x, rt), src[::-1] if big else src)
        d, E, args, (tys, rt), outs = go(rep, m + "::to_buffer")
        no_panic(E, rep)
        src = bytes_of(args[0], tys[0])
        for p, x, s in outs:
            d.equal_bytes("bytes handed to the buffer are the value's", m + "::to_buffer", p, bytes_of(x, rt)[:size], src)
    # the byte buffer itself
    for nm, n in (("new", 8), ("from_slice4", 4), ("from_array2", 2), ("from_array8", 8)):
        d, E, args, (tys, rt), outs = go(rep, "buffer::" + nm)
        no_panic(E, rep)
        src = bytes_of(args[0], tys[0])
        for p, x, s in outs:
            d.equal_bytes("the buffer keeps its bytes", "buffer::" + nm, p, bytes_of(x, rt)[:n], src[:n])
    d, E, args, (tys, rt), outs = go(rep, "buffer::index")
    i = toint(args[1])
    for j in range(8):
        for p, x, s in outs:
            p2 = [subst(q, {is_atom(i): j}) for q in p]
            if f_and(p2) is False:
                continue
            d.equal_bytes("the buffer keeps its bytes", f"buffer::index {j}", p2, [subst(b, {is_atom(i): j}) for b in bytes_of(x, rt)], [bytes_of(args[0], tys[0])[j]])


def pointee(t):
    T = prog().types[t]
    for k in ("pointee", "elem", "inner", "to"):
        if k in T:
            return T[k]
    return T["args"][0]


def symbolic_order(E, ptr, s, pt):
    """The byte order flag of the datum behind ptr before the code narrowed it."""
    st = St()
    return fld(symval(pt, "a0", (), engine(), st), sub_of(pt)["endian"])


# ------------------------------------------------------------------ C13, C14
STR_OF = {v: k for k, v in CODES.items()}


def layouts(rep, mod):
    pt = PointTy(mod)
    w = mod + "::layout"
    d, E, _, (tys, rt), outs = go(rep, w)
    no_panic(E, rep)
    if not outs:
        rep.add("undecided", "layout understood", w, "no outcome")
    rule = "layout describes the memory"
    lt_ = prog().types[rt]["variants"][0]["fields"][0][1]
    fty = prog().types[lt_]["args"][0]
    vs = prog().types[fty]["variants"]
    for p, x, s in outs:
        content, n = vec_parts(fld(x, 0))
        n = toint(n)
        if not isinstance(n, int):
            rep.add("undecided", rule, w, "number of entries is not fixed")
            continue
        off, i = 0, 0
        bad = False
        order = sorted(pt.fields, key=lambda f: (f["off"], f["idx"]))
        declared = pt.fields
        for k in range(n):
            e = seq_get(content, k)
            if not isk(e, "agg"):
                rep.add("undecided", rule, f"{w}, entry {k}", showv(e)[:160])
                bad = True
                break
            v = vs[e.a[0]]
            get = {f[0]: e.a[1][j] for j, f in enumerate(v["fields"])}
            size = get.get("size")
            if not isinstance(size, int):
                rep.add("undecided", rule, f"{w}, entry {k}", "size is not fixed: " + showv(size)[:100])
                bad = True
                break
            if v["name"] == "Padding":
                off += size
                continue
            if i >= len(declared):
                d.impossible(rule, w, p, "more fields than members")
                bad = True
                break
            f = declared[i]
            wf = f"{w}, field {i} ({f['name']})"
            nm, ty = strip(get["name"]), strip(get["ty"])
            if isk(nm, "str"):
                string_is(d, "layout lists the names in order", wf, p, nm, s_lit(f["name"]))
            else:
                rep.add("undecided", "layout lists the names in order", wf, showv(nm)[:100])
            want = "rgb" if is_rgb(f["ty"]) else STR_OF[f["code"]]
            if isk(ty, "str") and ty.a[0][0] == "lit":
                got = ty.a[0][1]
                if got.lower() == want or (want == "rgb" and got.lower() == "f32"):
                    rep.add("held", "layout states the datatypes", wf)
                else:
                    d.impossible("layout states the datatypes", wf, p, f"{got!r} instead of {want!r}")
            else:
                rep.add("undecided", "layout states the datatypes", wf, showv(ty)[:100])
            d.decide("layout states the sizes", wf, p, eq(size, f["size"]), f"{size} instead of {f['size']} bytes")
            d.decide("padding puts each field at its offset", wf, p, eq(off, f["off"]), f"described at byte {off}, stored at byte {f['off']}")
            off += size
            i += 1
        if bad:
            continue
        d.decide("one entry per member", w, p, eq(i, len(declared)), f"{i} fields for {len(declared)} members")
        d.decide("layout covers the whole type", w, p, eq(off, pt.size), f"{off} of {pt.size} bytes")


def is_rgb(t):
    T = prog().types[t]
    return T["kind"] == "adt" and T["path"].split("::")[-1] == "RGB"


def strip(v):
    """The string inside Cow and references."""
    while isk(v, "agg") and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v


def fields(rep, mod):
    """Generic field list of a point and back."""
    pt = PointTy(mod)
    # point -> list
    w = mod + "::to_fields"
    d, E, args, (tys, rt), outs = go(rep, w)
    no_panic(E, rep)
    at_ = prog().types[rt]["variants"][0]["fields"][0][1]
    et = prog().types[at_]["elem"]
    src = elem_bytes(args[0], pt)
    if not outs:
        rep.add("undecided", "member i goes to position i", w, "no outcome")
    for p, x, s in outs:
        arr = fld(x, 0)
        for i, f in enumerate(pt.fields):
            wf = f"{w}, {f['member']} at {i}"
            bs, e, ety, dt, dtt = datum(seq_get(arr, i), et)
            for c, y in alts(e):
                if not isk(y, "agg"):
                    rep.add("undecided", "member i goes to position i", wf, "byte order")
                    continue
                big = variant_name(ety, y.a[0]) == "Big"
                want = src[f["name"]]
                d.equal_bytes("member i goes to position i", wf, p + lits_of(c), bs[:f["size"]], want[::-1] if big else want)
            for c, y in alts(dt) if dt is not None else []:
                v = variant_name(dtt, y.a[0]) if isk(y, "agg") else None
                if v is None:
                    rep.add("undecided", "position i has the member's datatype", wf)
                elif VARIANT_CODE.get(v) == f["code"]:
                    rep.add("held", "position i has the member's datatype", wf)
                else:
                    d.impossible("position i has the member's datatype", wf, p + lits_of(c), f"{v}")
    # list -> point
    w = mod + "::from_fields"
    d, E, args, (tys, rt), outs = go(rep, w)
    no_panic(E, rep)
    arr = fld(args[0], 0)
    if not outs:
        rep.add("undecided", "position i goes to member i", w, "no outcome")
    for p, x, s in outs:
        got = elem_bytes(x, pt)
        for i, f in enumerate(pt.fields):
            bs, e, ety, dt, dtt = datum(seq_get(arr, i), et)
            for big, mp in both_orders(e, ety):
                want = bs[:f["size"]]
                g = [subst(b, mp) for b in got[f["name"]]]
                p2 = [subst(q, mp) for q in p]
                if f_and(p2) is False:
                    continue
                d.equal_bytes("position i goes to member i", f"{w}, {f['member']} from {i}, {'big' if big else 'little'}-endian", p2, g, want[::-1] if big else want)


# ------------------------------------------------------------------ C18
CHANNEL = {"b": 0, "g": 1, "r": 2}


def colour(rep):
    rt_rgb = root_tys("rgb::new")[1]

    def by(v):
        return bytes_of(v, rt_rgb)
    d, E, args, _, outs = go(rep, "rgb::new")
    no_panic(E, rep)
    for p, x, s in outs:
        bs = by(x)
        for n, a in zip("rgb", args):
            d.equal_bytes("constructing puts the channel in its bits", f"rgb::new, {n}", p, [bs[CHANNEL[n]]], [toint(a)])
        if any(isk(b, "undef") for b in bs):
            d.impossible("every bit of the packed word is set", "rgb::new", p, "left uninitialised")
        else:
            rep.add("held", "every bit of the packed word is set", "rgb::new")
    for nm in ("from_f32", "from_u32", "conv_from"):
        d, E, args, (tys, rt), outs = go(rep, "rgb::" + nm)
        no_panic(E, rep)
        for p, x, s in outs:
            d.equal_bytes("the packed number is kept bit for bit", "rgb::" + nm, p, by(x), bytes_of(args[0], tys[0]))
    for nm in ("conv_into", "raw"):
        d, E, args, (tys, rt), outs = go(rep, "rgb::" + nm)
        no_panic(E, rep)
        for p, x, s in outs:
            d.equal_bytes("the packed number is kept bit for bit", "rgb::" + nm, p, bytes_of(x, rt), by(args[0]))
    for n in "rgb":
        d, E, args, (tys, rt), outs = go(rep, "rgb::" + n)
        no_panic(E, rep)
        for p, x, s in outs:
            d.equal_bytes("reading gives the channel's bits", "rgb::" + n, p, bytes_of(x, rt), [by(args[0])[CHANNEL[n]]])
        d, E, args, (tys, rt), outs = go(rep, "rgb::set_" + n)
        no_panic(E, rep)
        before = by_initial(tys)
        for p, x, s in outs:
            after = by(E.read_ptr(s, args[0]))
            want = list(before)
            want[CHANNEL[n]] = toint(args[1])
            for i in range(4):
                d.equal_bytes("setting changes its own channel only", f"rgb::set_{n}, byte {i}", p, [after[i]], [want[i]])
    for nm, neg_ in (("eq", False), ("ne", True)):
        d, E, args, (tys, rt), outs = go(rep, "rgb::" + nm)
        no_panic(E, rep)
        a, b = by(args[0]), by(args[1])
        spec = f_and([eq(toint(a[i]), toint(b[i])) for i in range(3)])
        for p, x, s in outs:
            g = tobool(x)
            g = fnot(g) if neg_ else g
            d.decide("equal exactly when the channels are", "rgb::" + nm, p + lits_of(g), spec, "different colours compare equal")
            d.decide("equal exactly when the channels are", "rgb::" + nm, p + lits_of(spec), g, "equal colours compare different")
    d, E, args, (tys, rt), outs = go(rep, "rgb::default")
    for p, x, s in outs:
        for n in "rgb":
            d.equal_bytes("the default colour is black", "rgb::default, " + n, p, [by(x)[CHANNEL[n]]], [0])
    display(rep, by)
    d, E, args, (tys, rt), outs = go(rep, "rgb::debug")
    src = by(args[0])
    seen = [(strip(kw["name"]), kw["value"]) for kind, pc, kw, st in E.events if kind == "debug_field"]
    for nm, v in seen:
        n = nm.a[0][1] if isk(nm, "str") and nm.a[0][0] == "lit" else None
        if n in CHANNEL:
            d.equal_bytes("shown channels are the stored ones", f"Debug, {n}", [], [toint(v) if isint(v) else v], [src[CHANNEL[n]]])
    if not seen:
        rep.add("undecided", "shown channels are the stored ones", "Debug")


def by_initial(tys):
    """Bytes behind the first (reference) argument before the call."""
    E, st = engine(), St()
    p = symval(tys[0], "a0", (), E, st)
    return bytes_of(E.read_ptr(st, p), pointee(tys[0]))


def parse_template(bs):
    """Pieces of a compiled format string: [("lit", text) | ("arg", index, flags, width, precision)]."""
    out, i, nxt = [], 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            return out
        if b < 0x80:
            out.append(("lit", bytes(bs[i:i + b]).decode("utf-8", "replace")))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("lit", bytes(bs[i:i + n]).decode("utf-8", "replace")))
            i += n
        elif b & 0xc0 == 0xc0:
            fl = wd = pr = None
            idx = nxt
            if b & 1:
                fl = int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
            if b & 2:
                wd = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 4:
                pr = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 8:
                idx = bs[i] | bs[i + 1] << 8
                i += 2
            nxt = idx + 1
            out.append(("arg", idx, fl, wd, pr))
        else:
            return None
    return None


ZERO_PAD = 1 << 24


def display(rep, by):
    d, E, args, (tys, rt), outs = go(rep, "rgb::display")
    src = by(args[0])
    rule = "displayed as two hexadecimal digits per channel, red first"
    ev = [(pc, kw["what"]) for kind, pc, kw, st in E.events if kind == "write_fmt"]
    if len(ev) != 1 or not isk(ev[0][1], "fmtargs"):
        rep.add("undecided", rule, "Display", "formatting not understood")
        return
    tpl, fa = ev[0][1].a[0], ev[0][1].a[1]
    pieces = None
    if isk(tpl, "list") and isk(fa, "list") and all(isinstance(b, int) for b in tpl.a[0]):
        av = fa.a[0]
        pieces = parse_template(list(tpl.a[0]))
    if pieces is None or any(q[0] == "arg" and (q[1] >= len(av) or not isk(av[q[1]], "fmtarg")) for q in pieces):
        rep.add("undecided", rule, "Display", "formatting not understood")
        return
    shown = [q for q in pieces if q[0] == "arg"]
    if len(shown) != 3:
        rep.add("undecided", rule, "Display", f"{len(shown)} values shown")
        return
    for q, n in zip(shown, "rgb"):
        v = av[q[1]]
        how, val = v.a[0], v.a[1]
        how = str(how)
        if "hex" not in how:
            rep.add("undecided", rule, "Display, " + n, "shown as " + how)
            continue
        if isk(val, "ptr"):
            rep.add("undecided", rule, "Display, " + n, "value not understood")
            continue
        d.equal_bytes(rule, "Display, " + n, [], [toint(val)], [src[CHANNEL[n]]])
        if q[3] == 2 and q[2] is not None and q[2] & ZERO_PAD:
            rep.add("held", rule, "Display, " + n + ", padding")
        else:
            d.impossible(rule, "Display, " + n, [], "not padded to two digits: different colours read the same")


# ------------------------------------------------------------------ C22
CTORS = {
    "xyz": ["x", "y", "z"], "xyzi": ["x", "y", "z", "intensity"], "xyzl": ["x", "y", "z", "label"],
    "xyzrgb": ["x", "y", "z", "r", "g", "b"], "xyzrgba": ["x", "y", "z", "r", "g", "b", "a"],
    "xyzrgbnormal": ["x", "y", "z", "rgb", "normal_x", "normal_y", "normal_z"],
    "xyzinormal": ["x", "y", "z", "intensity", "normal_x", "normal_y", "normal_z"],
    "xyzrgbl": ["x", "y", "z", "r", "g", "b", "label"],
    "xyznormal": ["x", "y", "z", "normal_x", "normal_y", "normal_z"],
}


def ctor(rep, mod):
    pt = PointTy(mod)
    w = "ctors::" + mod
    d, E, args, (tys, rt), outs = go(rep, w)
    no_panic(E, rep)
    names = CTORS[mod]
    rule = "constructor stores each argument in its member"
    if not outs:
        rep.add("undecided", rule, w, "no outcome")
    for p, x, s in outs:
        for n, a, t in zip(names, args, tys):
            if n in CHANNEL:
                m = fidx(rt, "rgb")
                got = [bytes_of(fld(x, m), member_ty(rt, "rgb"))[CHANNEL[n]]]
            else:
                got = bytes_of(member(x, rt, n), member_ty(rt, n))
            d.equal_bytes(rule, f"{w}, {n}", p, got, bytes_of(a, t))
    # default values are not left unset
    # geometry
    for nm, bits in (("xyz", 32), ("xyz_f32", 32), ("xyz_f64", 64)):
        r = f"g_{mod}::{nm}"
        d, E, args, (tys, rt), outs = go(rep, r)
        no_panic(E, rep)
        for p, x, s in outs:
            src = [member(args[0], tys[0], n) for n in "xyz"]
            coords_are(rep, d, r, p, x, rt, src, member_ty(tys[0], "x"), bits)
    if has_root(f"c_{mod}::r"):
        for n in "rgb":
            r = f"c_{mod}::{n}"
            d, E, args, (tys, rt), outs = go(rep, r)
            no_panic(E, rep)
            for p, x, s in outs:
                src = bytes_of(member(args[0], tys[0], "rgb"), member_ty(tys[0], "rgb"))
                d.equal_bytes("colour getters return the channel", r, p, bytes_of(x, rt), [src[CHANNEL[n]]])


def leaves(v, t):
    """Float members of a value, in memory order: [(value, type)]."""
    T = prog().types[t]
    if T["kind"] == "float":
        return [(v, t)]
    out = []
    if T["kind"] == "array":
        for i in range(T["len"]):
            out += leaves(seq_get(v, i), T["elem"])
    elif T["kind"] == "adt" and T["adt"] == "Struct":
        for i, (_, ft, off) in sorted(enumerate(T["variants"][0]["fields"]), key=lambda x: x[1][2]):
            out += leaves(fld(v, i), ft)
    elif T["kind"] == "tuple":
        for i, ft in enumerate(T["fields"]):
            out += leaves(fld(v, i), ft)
    return out


def float_is(rep, d, rule, where, p, got, gt, src, st, widen=None):
    """got is src, converted where the widths differ."""
    if prog().types[gt]["bits"] == prog().types[st]["bits"]:
        d.equal_bytes(rule, where, p, bytes_of(got, gt), bytes_of(src, st))
        return
    for c, g in alts(got):
        if isk(g, "fl") and g.a[1][0] == "cvt":
            # compare what was converted
            x = g.a[1][1]
            d.equal_bytes(rule, where, p + lits_of(c), bytes_of(x, st), bytes_of(src, st), "converted from ")
        else:
            rep.add("undecided", rule, where, f"{showv(g)[:120]} against the conversion of {showv(src)[:120]}")


def coords_are(rep, d, where, p, x, rt, src, st, bits):
    rule = "x, y and z stay in place"
    ls = leaves(x, rt)
    if len(ls) != 3:
        rep.add("undecided", rule, where, f"{len(ls)} coordinates")
        return
    for (g, gt), s, n in zip(ls, src, "xyz"):
        float_is(rep, d, rule, f"{where}, {n}", p, g, gt, s, st)


def geometry(rep):
    """nalgebra's own point keeps x, y, z in memory order (checked on its constructor), then both ways."""
    for nm in ("mk_f32", "mk_f64"):
        d, E, args, (tys, rt), outs = go(rep, "geom::" + nm)
        for p, x, s in outs:
            coords_are(rep, d, "geom::" + nm, p, x, rt, args, tys[0], 0)
    for nm in ("of_f32", "of_f32_ref", "of_f64", "of_f64_ref"):
        d, E, args, (tys, rt), outs = go(rep, "geom::" + nm)
        no_panic(E, rep)
        for p, x, s in outs:
            v, t = args[0], tys[0]
            if prog().types[t]["kind"] in ("ref", "ptr"):
                v, t = E.read_ptr(s, v), pointee(t)
            for (sv, st), n in zip(leaves(v, t), "xyz"):
                float_is(rep, d, "x, y and z stay in place", f"geom::{nm}, {n}", p, member(x, rt, n), member_ty(rt, n), sv, st)
    for nm in ("to_f32", "to_f32_ref", "to_f64", "to_f64_ref"):
        d, E, args, (tys, rt), outs = go(rep, "geom::" + nm)
        no_panic(E, rep)
        for p, x, s in outs:
            v, t = args[0], tys[0]
            if prog().types[t]["kind"] in ("ref", "ptr"):
                v, t = E.read_ptr(s, v), pointee(t)
            coords_are(rep, d, "geom::" + nm, p, x, rt, [member(v, t, n) for n in "xyz"], member_ty(t, "x"), 0)


# ------------------------------------------------------------------ C16
def path(v, t, names):
    """(value, type) of a member path; alternatives of a name are separated by '|'."""
    for n in names.split("."):
        for m in n.split("|"):
            try:
                i = fidx(t, m)
                break
            except AnchorMissing:
                i = None
        if i is None:
            return None
        v, t = fld(v, i), prog().types[t]["variants"][0]["fields"][i][1]
    return v, t


PLAIN = [
    ("header.stamp.sec", "header.stamp.sec"), ("header.stamp.nanosec|nsec", "header.stamp.nanosec"),
    ("header.frame_id", "header.frame_id"), ("height", "dimensions.height"), ("width", "dimensions.width"),
    ("point_step", "point_step"), ("row_step", "row_step"), ("header.seq", "header.seq"), ("data", "data"),
]
FLAGS = [("is_bigendian", "endian", "Big"), ("is_dense", "dense", "Dense")]
LIBS = ["jazzy", "r2r", "rosrust"]


def rosmsg(rep, lib):
    for way in ("in", "out"):
        w = f"rosmsg::{lib}_{way}"
        d, E, args, (tys, rt), outs = go(rep, w)
        no_panic(E, rep)
        src, st = args[0], tys[0]
        if not outs:
            rep.add("undecided", "every member is carried", w, "no outcome")
        for p, x, s in outs:
            for lp, cp in PLAIN:
                a, b = (lp, cp) if way == "in" else (cp, lp)
                g, q = path(x, rt, b), path(src, st, a)
                if g is None or q is None:
                    if lp != "header.seq":
                        raise AnchorMissing(f"{w}: member {a} or {b}")
                    continue
                same_member(d, rep, f"{w}, {b}", p, g, q)
            for lp, cp, vn in FLAGS:
                if way == "in":
                    g, q = path(x, rt, cp), path(src, st, lp)
                    flag_is(d, rep, f"{w}, {cp}", p, g[0], g[1], vn, tobool(nonzero(q)))
                else:
                    g, q = path(x, rt, lp), path(src, st, cp)
                    want = flag_of(q[0], q[1], vn)
                    got = tobool(nonzero(g))
                    iff(d, "byte order and density flags are carried", f"{w}, {lp}", p, got, want)
            # fields
            fa, fb = path(src, st, "fields"), path(x, rt, "fields")
            (ca, na), (cb, nb) = vec_parts(fa[0]), vec_parts(fb[0])
            for c, n in alts(nb):
                d.decide("every field is carried", f"{w}, number of fields", p + lits_of(c), eq(toint(n), toint(na)), f"{show(toint(n))[:120]} fields")
            k = var("k", 0, ADDR_MAX)
            ea, eb = seq_get(ca, k), seq_get(cb, k)
            ta, tb = prog().types[fa[1]]["args"][0], prog().types[fb[1]]["args"][0]
            p2 = p + [lt(k, toint(na))]
            for n in ("name", "offset", "datatype", "count"):
                same_member(d, rep, f"{w}, fields[k].{n}", p2, path(eb, tb, n), path(ea, ta, n))
        no_copy(rep, d, E, w, path(src, st, "data"))
    for nm, t in (("time", [("sec", "sec"), ("nanosec|nsec", "nanosec")]), ("header", [("stamp.sec", "stamp.sec"), ("stamp.nanosec|nsec", "stamp.nanosec"), ("frame_id", "frame_id")])):
        w = f"rosmsg::{lib}_{nm}"
        if not has_root(w):
            continue
        d, E, args, (tys, rt), outs = go(rep, w)
        no_panic(E, rep)
        for p, x, s in outs:
            for a, b in t:
                same_member(d, rep, f"{w}, {b}", p, path(x, rt, b), path(args[0], tys[0], a))


def nonzero(q):
    v, t = q
    T = prog().types[t]
    return v if T["kind"] == "bool" else fnot(eq(toint(v), 0))


def same_member(d, rep, where, p, g, q):
    rule = "every member is carried"
    (gv, gt), (qv, qt) = g, q
    T, U = prog().types[gt], prog().types[qt]
    if T["kind"] == "int" and U["kind"] == "int" and T["size"] == U["size"]:
        d.equal_bytes(rule, where, p, bytes_of(gv, gt), bytes_of(qv, qt))
    elif gt == qt:
        value_is(d, rule, where, p, gv, qv, gt)
    else:
        rep.add("undecided", rule, where, "types differ")


def flag_of(v, t, variant):
    """Condition under which the enum value is the named variant."""
    out = []
    for c, w in alts(v):
        if not isk(w, "agg"):
            return None
        if variant_name(t, w.a[0]) == variant:
            out.append(c)
    return f_or(out)


def flag_is(d, rep, where, p, v, t, variant, want):
    g = flag_of(v, t, variant)
    if g is None:
        rep.add("undecided", "byte order and density flags are carried", where, showv(v)[:120])
        return
    iff(d, "byte order and density flags are carried", where, p, g, want)


def iff(d, rule, where, p, g, want):
    if g is None or want is None:
        d.rep.add("undecided", rule, where, "flag not understood")
        return
    if same(g, want):
        d.rep.add("held", rule, where)
        return
    d.decide(rule, where, p + lits_of(g), want, "set although the source is not")
    d.decide(rule, where, p + lits_of(want), g, "not set although the source is")


def no_copy(rep, d, E, where, data):
    """No buffer as long as the data is made."""
    rule = "the data buffer is handed over"
    c, n = vec_parts(data[0])
    a = is_atom(toint(n))
    bad = False
    for kind, pc, kw, stack in E.events:
        if kind in ("alloc", "grow") and kw.get("n") is not None and a in at_of(toint(kw["n"])):
            bad = True
            if "collect" in str(kw.get("what")):
                rep.add("undecided", rule, f"{short_span(kw['span'])}", "collected anew")
            else:
                d.impossible(rule, f"{where}: {short_span(kw['span'])}", lits_of(pc) + [ge(sub(toint(n), 1))], f"{kw['what']} of {show(toint(kw['n']))[:80]} elements")
        elif kind == "grow" and kw.get("n") is None and "fields" not in str(kw.get("what")):
            pass
    if not bad:
        rep.add("held", rule, where)


# ------------------------------------------------------------------ C21
def builder_causes(rep, which):
    builder(rep, which, True)


def builder(rep, which="msg", causes=False):
    w = "build::" + which
    d0, E, args, (tys, rt), outs = go(rep, w)
    header, width, flds, big, step, row, data, dense = args
    ht, wt, ft, bt, st_, rt_, dt_, et_ = tys
    fc, nf = vec_parts(flds)
    nf = toint(nf)
    fty = prog().types[ft]["args"][0]
    i = new_idx()
    el = seq_get(fc, A(i))
    code = toint(member(el, fty, "datatype"))
    count = toint(member(el, fty, "count"))
    W, S, R = toint(width), toint(step), toint(row)
    dc, D = vec_parts(data)
    D = toint(D)
    unknown = f_or([lt(code, 1), le(9, code)])
    bad_count = exists(nf, fnot(eq(count, 1)), i)
    bad_type = exists(nf, unknown, i)
    # sum of the sizes, as the specification has it
    size_case = gated_size(code)
    total = sum_over(nf, size_case, i)
    sums = sums_in([c for c, _, _ in [(f_and(p), x, s) for p, x, s in outs]])
    mp = {}
    for a in sums:
        if is_atom(total) is a:
            continue
        if a.args[0] is nf or same(a.args[0], nf):
            j = new_idx()
            body = open_at(a.args[1], a.args[2], A(j))
            cj = toint(member(seq_get(fc, A(j)), fty, "datatype"))
            sp = gated_size(cj)
            if all(solve.prove([eq(cj, n)] , eq(subst(body, {is_atom(cj): n}), SIZES[n]), E.axioms, 5) for n in range(1, 9)):
                mp[a] = total
    d = BuildDecider(rep, E, nf, "a2")
    if not causes:
        obligations_with(E, rep, d)
    ok = errs = 0
    # what must not be the case when an error of this name is returned
    absent = {"FieldsNotFound": [ge(sub(nf, 1))], "UnsupportedFieldCount": [fnot(bad_count)], "UnsupportedFieldType": [fnot(bad_type)],
              "InvalidFieldFormat": [ge(sub(S, total))], "DataLengthMismatch": [ge(sub(S, 1)), divides(D, S)],
              "NumberConversion": [], "ExhaustedSource": []}
    for p, x, s in outs:
        if mp:
            p = [subst(q, mp) for q in p]
        if not isk(x, "agg"):
            rep.add("undecided", "outcome understood", w, showv(x)[:100])
            continue
        if x.a[0] == 1:
            errs += 1
            for c, y in alts(x.a[1][0]):
                pc = p + lits_of(subst(c, mp) if isinstance(c, F) and mp else c)
                if causes:
                    if not isk(y, "agg"):
                        rep.add("undecided", "the named cause is present", w, showv(y)[:60])
                        continue
                    et = prog().types[rt]["variants"][1]["fields"][0][1]
                    name = variant_name(et, y.a[0])
                    d.impossible("the named cause is present", f"{w}, {name}", pc + absent[name], f"refused with {name}")
                    continue
                valid = [ge(sub(nf, 1)), fnot(bad_count), fnot(bad_type), ge(sub(S, total)), divides(D, S)]
                d.impossible("a well-formed description is accepted", f"{w}, {showv(y)[:40]}", pc + valid, "refused")
            continue
        ok += 1
        if causes:
            continue
        d.decide("no fields: refused", w, p, ge(sub(nf, 1)), "built without fields")
        d.impossible("field count other than one: refused", w, p + [bad_count], "built")
        d.impossible("unknown datatype: refused", w, p + [bad_type], "built")
        d.decide("point step smaller than the fields: refused", w, p, ge(sub(S, total)), "built")
        d.decide("buffer not a multiple of the point step: refused", w, p, divides(D, S), "built")
        for c2, m in alts(x.a[1][0]):
            pc = p + lits_of(c2)
            mt = prog().types[rt]["variants"][0]["fields"][0][1]
            carried(d, rep, w, pc, m, mt, args, tys)
    if not ok:
        rep.add("undecided", "outcome understood", w, "nothing is built")


def divides(D, S):
    """D is a multiple of S (S >= 1)."""
    if isinstance(S, int):
        return eq(A(atom("rem", D, S, lo=0, hi=S - 1)), 0) if S else False
    return eq(rem_term(D, S), 0)


def rem_term(D, S):
    return A(atom("rem", D, S, lo=0, hi=U64MAX))


def gated_size(code):
    return toint(mkcase([(f_or([eq(code, c) for c in SIZES if SIZES[c] == s]), s) for s in (1, 2, 4, 8)]))


def sums_in(fs):
    out = set()
    for f in fs:
        for a in at_deep(f):
            if a.kind == "sum":
                out.add(a)
    return out


def at_deep(x):
    return [a for a in at_of(x) if isinstance(a, Atom)]


class BuildDecider(Decider):
    """Looks for examples among short field lists."""

    def __init__(self, rep, E, nf, fields_name):
        super().__init__(rep, E, None, None)
        self.nfa, self.fn_ = is_atom(nf), fields_name

    def refute(self, cond):
        if cond is False:
            return None
        for codes in ([], [7], [2], [8], [7, 7, 7], [9], [0], [1, 8], [3, 2]):
            c = apply_template(cond, [("f%d" % i, x) for i, x in enumerate(codes)], self.nfa, self.fn_)
            if c is False:
                continue
            if c is True:
                return f"{len(codes)} fields of datatypes {codes}"
            if not clean(c):
                continue
            r, m = solve.counterexample(lits_of(c), (), self.limit)
            if r == "model":
                return f"{len(codes)} fields of datatypes {codes}; " + show_model(m)
        return None


def obligations_with(E, rep, d):
    for k, n in E.trivial.items():
        if k in ("panic", "overflow", "bounds", "ub"):
            rep.held("never panics", n)
    for o in E.obls:
        if o.kind not in ("panic", "overflow", "bounds", "ub"):
            continue
        ls = lits_of(o.pc)
        known_ = E.known_facts(o.pc, o.nk, debug=o.kind != "ub")
        d.decide("never panics", f"{short_span(o.span)} in {short_fn(o)}", ls, o.goal, f"{o.kind}: {o.msg}: {show(o.goal)[:160]}", known_)


def carried(d, rep, w, p, m, mt, args, tys):
    header, width, flds, big, step, row, data, dense = args
    rule = "the built message carries what was given"
    for n, v, t in (("header", header, tys[0]), ("fields", flds, tys[2]), ("point_step", step, tys[4]), ("row_step", row, tys[5]), ("data", data, tys[6])):
        value_is(d, rule, f"{w}, {n}", p, member(m, mt, n), v, member_ty(mt, n))
    dm, dmt = path(m, mt, "dimensions")
    value_is(d, rule, f"{w}, width", p, member(dm, dmt, "width"), width, member_ty(dmt, "width"))
    H = toint(member(dm, dmt, "height"))
    W = toint(width)
    d.decide("height is one, zero for width zero", w, p + [ge(sub(W, 1))], eq(H, 1), f"height {show(H)[:80]}")
    d.decide("height is one, zero for width zero", w, p + [eq(W, 0)], eq(H, 0), f"height {show(H)[:80]}")
    for n, v, variant in (("endian", big, "Big"), ("dense", dense, "Dense")):
        t = member_ty(mt, n)
        g = flag_of(member(m, mt, n), t, variant)
        iff(d, rule, f"{w}, {n}", p, g, tobool(v))


def dims(rep, prop="C21"):
    d, E, args, (tys, rt), outs = go(rep, "build::dims")
    no_panic(E, rep)
    n = toint(args[0])
    for p, x, s in outs:
        if not isk(x, "agg"):
            rep.add("undecided", "dimensions", "build::dims")
            continue
        if x.a[0] == 1:
            if prop == "C21":
                d.impossible("a width that fits is accepted", "build::dims", p + [ge(sub((1 << 32) - 1, n))], "refused")
            continue
        dt = prog().types[rt]["variants"][0]["fields"][0][1]
        for c, y in alts(x.a[1][0]):
            pc = p + lits_of(c)
            d.decide("the width is the given one", "build::dims", pc, eq(toint(member(y, dt, "width")), n))
            if prop != "C21":
                continue
            H = toint(member(y, dt, "height"))
            d.decide("height is one, zero for width zero", "build::dims", pc + [ge(sub(n, 1))], eq(H, 1))
            d.decide("height is one, zero for width zero", "build::dims", pc + [eq(n, 0)], eq(H, 0))


def build_defaults(rep):
    d, E, args, (tys, rt), outs = go(rep, "build::field_default")
    for p, x, s in outs:
        d.decide("a new field counts one element", "build::field_default", p, eq(toint(member(x, rt, "count")), 1))
