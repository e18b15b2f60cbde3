"""Agreement of the conversions on every message (C30) and the causes named by errors (C31)."""
from common import *
from solve import settle
from hist import start
import p_decode
from p_decode import elem_bytes, disjuncts


class AnyMessage(Decider):
    """Examples with foreign datatypes, repeated names and missing names."""

    def examples(self):
        own = [(f["name"], f["code"]) for f in self.pt.fields]
        n = len(own)
        out = [own]
        for code in (1, 2, 4, 5, 6, 7, 8, 0, 9):
            for i in range(n) if n <= 4 else (0, n // 2, n - 1):
                if own[i][1] != code:
                    out.append(own[:i] + [(own[i][0], code)] + own[i + 1:])
        out += [own + [own[0]], own + [own[-1]], [own[-1]] + own, own[::-1], own + [("other", 0)], [("other", 7)] + own]
        out += [own[:i] + own[i + 1:] for i in range(n)]
        out += [own[:i] + [("other", own[i][1])] + own[i + 1:] for i in range(n)]
        for change in (lambda s: s.upper() if s.upper() != s else s.lower(), lambda s: " " + s, lambda s: s + "2"):
            out += [own[:i] + [(change(own[i][0]), own[i][1])] + own[i + 1:] for i in range(n)]
        out.append([])
        return out

    def refute(self, cond):
        t0 = time.time()
        for t in self.examples():
            if QUICK[0] and time.time() - t0 > 6 * self.limit:
                return None
            c = apply_template(cond, t, self.nf)
            if c is False:
                continue
            txt = "fields [" + ", ".join("%s:%d" % x for x in t) + "]"
            if c is True:
                return txt
            if not clean(c):
                continue
            r, m = solve.counterexample(lits_of(c), (), self.limit)
            if r == "unknown":
                for c2, note in self.sizes(c):
                    if c2 is False:
                        continue
                    if c2 is True:
                        return txt + "; " + note
                    r, m = solve.counterexample(lits_of(c2), (), self.limit)
                    if r == "model":
                        txt += "; " + note
                        break
            if r == "model":
                return txt + "; " + show_model(m)
        return None


def outcomes(rep, name):
    """(engine, message, [(condition, value)], [(condition, error)])"""
    tys, rt = root_tys(name)
    E, (mv,), outs = run(name)
    rep.absorb(E)
    al = out_alts(outs)
    if any(not isk(w, "agg") for _, w, _ in al):
        rep.add("undecided", "result of the conversion understood", name, "unresolved outcome")
    okc = [(c, w.a[1][0]) for c, w, s in al if isk(w, "agg") and w.a[0] == 0]
    errc = [(c, w.a[1][0]) for c, w, s in al if isk(w, "agg") and w.a[0] == 1]
    return E, MsgView(mv, tys[0]), okc, errc, rt


def agree(rep, mod):
    """The vector conversion and the iterator accept the same messages and yield the same points."""
    pt = PointTy(mod)
    E, m, okv, errv, rt = outcomes(rep, mod + "::into_vec")
    nf = is_atom(m.nf)
    E2, mv2, mt2, good, bad = start(mod)
    rep.absorb(E2)
    d = AnyMessage(rep, E, pt, nf)
    where = f"{mod}: vector and iterator"
    never(d, m, pt, "the iterator accepts what the vector conversion accepts", where, [c for c, v in okv], [s.pc for s, v in bad], "accepted by the vector conversion only")
    never(d, m, pt, "the vector conversion accepts what the iterator accepts", where, [it.st.pc for it in good], [c for c, v in errv], "accepted by the iterator only")
    a = var("a", 0, ADDR_MAX)
    N = mul(m.W, m.H)
    for it in good:
        for x in it.steps("it_next", a)[0]:
            for kind, s, item in x.step("it_next"):
                if kind != "item":
                    continue
                want = elem_bytes(item, pt)
                for c, v in okv:
                    content, n = vec_parts(v)
                    d.decide("the same number of points", where, lits_of(f_and([it.st.pc, c])), eq(toint(n), N), f"{show(toint(n))[:120]} points in the vector")
                    got = elem_bytes(seq_get(content, a), pt)
                    for part in disjuncts(c):
                        at = locate(m, pt, part)
                        pre = subst(f_and([s.pc, part]), at)
                        if pre is False:
                            continue
                        for f in pt.fields:
                            compare(d, m, f, f"{where}, field {f['name']}", pre, [subst(b, at) for b in got[f["name"]]], [subst(b, at) for b in want[f["name"]]], at)


def locate(m, pt, c):
    """First places of names that a condition spells out: {first-match index: place}."""
    names = {}
    simple = [f for f in lits_of(c) if f.k not in ("or", "and")]
    for f in lits_of(c):
        if f.k == "b" and f.a[0] == "streq":
            for i in range(len(pt.fields)):
                for g in pt.fields:
                    if f is streq(m.name(i), s_lit(g["name"])):
                        names[i] = g["name"]
    mp = {}
    for f in pt.fields:
        for i in range(len(pt.fields)):
            if i not in names:
                break
            if names[i] == f["name"]:
                # every earlier place holds another name
                if solve.prove(simple, lt(i, m.nf), (), 3):
                    mp[found(m, f["name"])] = i
                break
    return mp


def never(d, m, pt, rule, where, some, others, detail):
    """None of some goes together with any of others."""
    for c in some:
        for part in disjuncts(c):
            at = locate(m, pt, part)
            known = {}
            for f in lits_of(part):
                known[f] = True
                known[fnot(f)] = False
            for o in others:
                o = settle(o, known)
                for cause in disjuncts(o):
                    both = subst(f_and([part, cause]), at)
                    d.facts = d.example_facts = [eq(A(x), v) for x, v in at.items()]
                    d.impossible(rule, where, lits_of(both), detail)
    d.facts = d.example_facts = []


def found(m, name):
    """The index at which the field of this name is found first."""
    i = new_idx()
    e = exists(m.nf, streq(m.name(A(i)), s_lit(name)), i)
    return atom("first", *e.a, lo=0, hi=I64MAX)


def compare(d, m, f, where, pre, got, want, at):
    """Equal bytes for every byte order and every datatype of the field in the message."""
    tag, little, big = m.endian_tag()
    dt = is_atom(subst(m.datatype(A(found(m, f["name"]))), at))
    for order in (little, big):
        for code in range(1, 9):
            mp = {tag: order, dt: code}
            p = subst(pre, mp)
            if p is False:
                continue
            w = f"{where}, datatype {code}, {'little' if order == little else 'big'}-endian"
            g2, w2 = [subst(b, mp) for b in got], [subst(b, mp) for b in want]
            if all(same(x, y) for x, y in zip(g2, w2)):
                d.rep.add("held", "the same points", w)
                continue
            facts = [eq(A(x), v) for x, v in list(mp.items()) + list(at.items())]
            d.facts = facts
            d.example_facts = facts
            p = lits_of(p)
            if d.prove(facts + p, False):
                continue
            d.equal_bytes("the same points", w, p, g2, w2)
    d.facts = []
    d.example_facts = []


def causes(rep, mod):
    """The error returned by a decoding conversion names a cause that is there."""
    pt = PointTy(mod)
    for conv in ("into_vec", "into_iter"):
        E, m, okc, errs, rt = outcomes(rep, f"{mod}::{conv}")
        et = prog().types[rt]["variants"][1]["fields"][0][1]
        nf = is_atom(m.nf)
        d = AnyMessage(rep, E, pt, nf)
        i = new_idx()
        there = {f["name"]: exists(m.nf, streq(m.name(A(i)), s_lit(f["name"])), i) for f in pt.fields}
        known, roomy, own = [], [], []
        for f in pt.fields:
            at = A(found(m, f["name"]))
            gone = fnot(there[f["name"]])
            code = m.datatype(at)
            known.append(f_or([gone, f_and([ge(sub(code, 1)), ge(sub(8, code))])]))
            roomy.append(f_or([gone, ge(sub(m.S, add(m.offset(at), 8)))]))
            own.append(f_or([gone, eq(code, f["code"])]))
        sizes = eq(mul(mul(m.W, m.H), m.S), m.D)
        absent = {"FieldsNotFound": list(there.values()), "ExhaustedSource": list(there.values()), "UnsupportedFieldType": known,
                  "DataLengthMismatch": roomy + [sizes], "InvalidFieldFormat": own, "NumberConversion": [],
                  "UnsupportedFieldCount": [fnot(exists(m.nf, fnot(eq(m.count(A(i)), 1)), i))]}
        for c, w in errs:
            for ci, wi in alts(w):
                if not isk(wi, "agg"):
                    rep.add("undecided", "the named cause is present", f"{mod}::{conv}", showv(wi)[:60])
                    continue
                name = variant_name(et, wi.a[0])
                for part in disjuncts(f_and([c, ci])):
                    at = locate(m, pt, part)
                    d.facts = d.example_facts = [eq(A(x), v) for x, v in at.items()]
                    facts = {}
                    for f in lits_of(part):
                        facts[f] = True
                        facts[fnot(f)] = False
                    cond = subst(f_and([part] + [settle(f, facts) if isinstance(f, F) else f for f in absent[name]]), at)
                    d.impossible("the named cause is present", f"{mod}::{conv}, {name}", lits_of(cond), f"refused with {name}")
        d.facts = d.example_facts = []


def encode_causes(rep, mod, enc):
    """An encoder that refuses names the conversion of a number, and only when one does not fit."""
    import p_encode
    x = p_encode.Encoded(rep, mod, enc)
    d = Decider(rep, x.E)
    _, rt = root_tys(x.where)
    et = prog().types[rt]["variants"][1]["fields"][0][1]
    step = max(1, p_encode.declared_size(x))
    for c, w, s in x.err:
        for ci, wi in alts(w):
            name = variant_name(et, wi.a[0]) if isk(wi, "agg") else "?"
            small = [p_encode.le(x.n, p_encode.U32), p_encode.le(mul(x.n, step), p_encode.U32)] if name == "NumberConversion" else []
            d.impossible("the named cause is present", f"{x.where}, {name}", lits_of(f_and([c, ci])) + small, f"refused with {name}")
