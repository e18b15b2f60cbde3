"""Shared pieces of the property analyses: running entry points, the view of a symbolic message,
comparison of value graphs against a specification, and verdicts."""
import time
import re
import interp
import models
import solve
import loops
from terms import *
from values import *
from interp import *

CODES = {"i8": 1, "u8": 2, "i16": 3, "u16": 4, "i32": 5, "u32": 6, "f32": 7, "f64": 8}
SIZES = {1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 4, 8: 8}
NATIVE = ["xyz", "xyzi", "xyzl", "xyzrgb", "xyzrgba", "xyzrgbnormal", "xyzinormal", "xyzrgbl", "xyznormal"]
DERIVED = ["d_mixed", "d_all", "d_single", "d_aligned", "d_renamed", "d_tight", "d_packed"]
MORE = ["d_raw", "d_locals", "d_long", "d_cache", "d_packed2", "d_odd"]  # derived, conversions between members and fields only
RUSTREPR = ["r_small", "r_mixed", "r_order", "r_flip"]
RENAMES = {"d_raw": {"move": "fn", "r#move": "fn", "r#type": "type", "r#ref": "ref"}, "d_odd": {"h": "höhe", "e": "", "w": "with space"}, "d_renamed": {"x": "y", "y": "x", "label": "l"}}


settle = solve.settle


class AnchorMissing(Exception):
    pass


class Enough(Exception):
    """A task has reported enough violations."""


QUICK = [True]
# time spent in this task on conditions that were not shown
SPENT = [0.0]
# the example message to try first
turn = [0]


def budget(limit):
    """Time for one question: less once much was spent without an answer."""
    if QUICK[0]:
        for spent, most in ((150, 0.5), (90, 1), (45, 2), (20, 4)):
            if SPENT[0] > spent:
                return min(limit, most)
    return limit


class Report:
    """Findings of one task."""

    def __init__(self):
        self.items = []
        self.n = {"held": 0, "violated": 0, "undecided": 0}
        self.functions = set()
        self.unmodelled = set()
        self.rules = {}
        self.extra = {}

    def note(self, key, *xs):
        """Something to list in the evidence."""
        self.extra.setdefault(key, []).extend(x for x in xs if x not in self.extra.get(key, ()))

    def add(self, status, rule, where, detail=""):
        self.n[status] += 1
        r = self.rules.setdefault(rule, {"held": 0, "violated": 0, "undecided": 0})
        r[status] += 1
        if status != "held":
            self.items.append((status, rule, where, str(detail)[:1500]))
        if status == "violated" and QUICK[0] and self.n["violated"] >= 4:
            raise Enough()

    def held(self, rule, n):
        self.n["held"] += n
        self.rules.setdefault(rule, {"held": 0, "violated": 0, "undecided": 0})["held"] += n

    def absorb(self, E):
        self.functions |= set(E.visited)
        self.unmodelled |= set(E.unmodelled)


# ------------------------------------------------------------------ running entry points
def prog():
    return interp.P


def root(name):
    P = prog()
    i = P.roots.get("witness::" + name)
    if i is None:
        i = P.roots.get(name)
    if i is None:
        raise AnchorMissing(name)
    return i


def has_root(name):
    return ("witness::" + name) in prog().roots


def root_tys(name):
    b = prog().insts[root(name)]["body"]
    return [b["locals"][n + 1] for n in range(b["argc"])], b["locals"][0]


def engine():
    return Engine(prog())


def run(name, args=None, st=None, E=None):
    """Interpret an entry point; returns (E, argument values, [(state, value)])."""
    E = E or engine()
    st = st or St()
    i = root(name)
    b = prog().insts[i]["body"]
    if args is None:
        args = [symval(b["locals"][n + 1], "a%d" % n, (), E, st) for n in range(b["argc"])]
    outs = E.exec_body(st, i, args)
    outs = [(s, v) for s, v in outs if s is not None and s.pc is not False]
    return E, args, outs


def alts(v):
    return list(v.a) if isk(v, "case") else [(True, v)]


def out_alts(outs):
    """[(condition, value, state)] over all outcomes."""
    r = []
    for s, v in outs:
        for c, w in alts(v):
            f = f_and([s.pc, c])
            if f is not False:
                r.append((f, w, s))
    return r


def variant_name(t, n):
    return prog().types[t]["variants"][n]["name"]


def fidx(t, name):
    """Index of a named member of a struct type."""
    for i, f in enumerate(prog().types[t]["variants"][0]["fields"]):
        if f[0] == name:
            return i
    raise AnchorMissing(f"member {name} of {prog().types[t]['str']}")


def member(v, t, name):
    return fld(v, fidx(t, name))


def member_ty(t, name):
    return prog().types[t]["variants"][0]["fields"][fidx(t, name)][1]


def vec_parts(v):
    """(contents, length) of a Vec value."""
    if isk(v, "vec"):
        return v.a[0], v.a[1]
    if isk(v, "case"):
        ps = [(c, vec_parts(w)) for c, w in v.a]
        return mkcase([(c, p[0]) for c, p in ps]), mkcase([(c, p[1]) for c, p in ps])
    return unkv("content", v), unk(0, ISIZE_MAX)


def prim_of(t):
    """(code, size) of a point member type."""
    T = prog().types[t]
    if T["kind"] == "int":
        c = CODES["%s%d" % ("i" if T["signed"] else "u", T["bits"])]
        return c, SIZES[c]
    if T["kind"] == "float":
        return CODES["f%d" % T["bits"]], T["bits"] // 8
    if T["kind"] == "adt" and T["path"].split("::")[-1] == "RGB":
        return 7, 4
    raise AnchorMissing("point member of type " + T["str"])


class PointTy:
    """What the specification knows of a point type: its members, taken from the type itself."""

    def __init__(self, mod):
        self.mod = mod
        self.ty = root_tys(mod + "::default")[1]
        T = prog().types[self.ty]
        self.path = T["path"]
        self.size = T["size"]
        self.repr_c = T["repr_c"]
        ren = RENAMES.get(mod, {})
        self.fields = []
        for i, (name, t, off) in enumerate(T["variants"][0]["fields"]):
            code, size = prim_of(t)
            self.fields.append(dict(idx=i, member=name, name=ren.get(name, name), ty=t, off=off, code=code, size=size))
        self.n = len(self.fields)


class MsgView:
    """Members of a message value."""

    def __init__(self, v, t):
        self.v, self.t = v, t
        d = member(v, t, "dimensions")
        dt = member_ty(t, "dimensions")
        self.W = toint(member(d, dt, "width"))
        self.H = toint(member(d, dt, "height"))
        self.S = toint(member(v, t, "point_step"))
        self.R = toint(member(v, t, "row_step"))
        self.fields, self.nf = vec_parts(member(v, t, "fields"))
        self.data, self.D = vec_parts(member(v, t, "data"))
        self.endian = member(v, t, "endian")
        self.dense = member(v, t, "dense")
        self.endian_ty = member_ty(t, "endian")
        fv = prog().types[member_ty(t, "fields")]
        self.fty = fv["args"][0]

    def fmember(self, i, name):
        return member(seq_get(self.fields, i), self.fty, name)

    def name(self, i):
        return self.fmember(i, "name")

    def offset(self, i):
        return toint(self.fmember(i, "offset"))

    def datatype(self, i):
        return toint(self.fmember(i, "datatype"))

    def count(self, i):
        return toint(self.fmember(i, "count"))

    def byte(self, i):
        return seq_get(self.data, i)

    def endian_tag(self):
        """(tag atom, value for little, value for big) of the symbolic byte order."""
        tags = [a for a in at_of(self.endian) if a.kind in ("var", "fn")]
        if len(tags) != 1:
            raise AnchorMissing("byte order flag")
        out = {}
        for c, w in self.endian.a:
            out[variant_name(self.endian_ty, w.a[0])] = -c.a[0].m.get((), 0)
        return tags[0], out["Little"], out["Big"]


# ------------------------------------------------------------------ decoding specification
class DecodeSpec:
    """The message is arbitrary apart from: the names of its fields are distinct as far as the point
    type's names go, and the fields the point type needs exist at J_f with the right datatype."""

    def __init__(self, pt, msg):
        self.pt, self.m = pt, msg
        self.J = {}
        self.facts = []
        self.fits = []
        i = new_idx()
        for f in pt.fields:
            j = var("J_" + f["name"], 0, ADDR_MAX)
            self.J[f["name"]] = j
            lit = s_lit(f["name"])
            self.facts.append(lt(j, msg.nf))
            self.facts.append(streq(msg.name(j), lit))
            self.facts.append(fnot(exists(msg.nf, f_and([streq(msg.name(A(i)), lit), fnot(eq(A(i), j))]), i)))
            self.facts.append(eq(msg.datatype(j), f["code"]))
            self.fits.append(ge(sub(msg.S, add(msg.offset(j), f["size"]))))
        self.size_ok = eq(mul(mul(msg.W, msg.H), msg.S), msg.D)
        self.accept = self.fits + [self.size_ok]
        # indices found by the usual first-match search are the J_f
        self.sub = {}
        self.true = {}
        for f in pt.fields:
            e = exists(msg.nf, streq(msg.name(A(i)), s_lit(f["name"])), i)
            if isinstance(e, F) and e.k == "ex":
                self.true[e] = True
                a = atom("first", *e.a, lo=0, hi=I64MAX)
                self.sub[a] = self.J[f["name"]]

    def codes(self):
        mp = {}
        for f in self.pt.fields:
            a = is_atom(self.m.datatype(self.J[f["name"]]))
            if a is not None:
                mp[a] = f["code"]
        return mp

    def endian_sub(self, big):
        tag, little, b = self.m.endian_tag()
        return {tag: b if big else little}

    def simp(self, x, big=None, codes=True):
        if isinstance(x, F):
            x = settle(x, self.true)
        x = subst(x, self.sub)
        mp = dict(self.codes()) if codes else {}
        if big is not None:
            mp.update(self.endian_sub(big))
        return subst(x, mp) if mp else x

    def raw(self, big=None):
        """The equations behind the substitutions, for the occurrences they do not reach."""
        out = [eq(A(a), v) for a, v in self.codes().items()]
        if big is not None:
            out += [eq(A(a), v) for a, v in self.endian_sub(big).items()]
        return out

    def field_bytes(self, f, k, big):
        """Specified bytes (in the host's little-endian memory order) of field f of point k."""
        base = add(mul(k, self.m.S), self.m.offset(self.J[f["name"]]))
        bs = [self.m.byte(add(base, j)) for j in range(f["size"])]
        return bs[::-1] if big else bs


# ------------------------------------------------------------------ example messages
_templ = [0]


def templates(pt, nf_atom, fields_name="a0.fields"):
    """Concrete field lists used to look for counterexamples: names and datatypes fixed,
    everything numeric left open."""
    own = [(f["name"], f["code"]) for f in pt.fields]
    outs = [own, own[::-1], [("other", 2)] + own, own + [("other", 7)]]
    if len(own) > 1:
        outs.append(own[1:] + own[:1])
        outs.append([own[0], ("gap", 4)] + own[1:])
        outs.append(own[:-1])
        outs.append(own[:1])
    other = [(n.upper() if n.upper() != n else n.lower(), c) for n, c in own]
    return outs + [[], other + own, own + [("other", 0)], own + other[:1], [(" " + own[0][0], own[0][1])] + own, [(n + "2", c) for n, c in own] + own]


def apply_template(x, tpl, nf_atom, fields_name="a0.fields"):
    _templ[0] += 1
    n = _templ[0]
    TEMPL[n] = {(fields_name + ".name", i): nm for i, (nm, _) in enumerate(tpl)}
    x = subst(x, {nf_atom: len(tpl), NAMES: n})
    mp = {}
    at = [y for y in at_of(x) if y.kind == "fn" and y.args[0] == fields_name + ".datatype"]
    for i, (_, c) in enumerate(tpl):
        for y in at:
            if y.args[1:] == (i,):
                mp[y] = c
    return subst(x, mp) if mp else x


def clean(f):
    """No unknowns, quantifiers or open searches are left."""
    if isinstance(f, bool):
        return True
    if f.taint:
        return False
    seen = set()

    def go(x):
        if isinstance(x, (int, str, bool, float)) or x is None:
            return True
        if isinstance(x, tuple):
            return all(go(y) for y in x)
        if x in seen:
            return True
        seen.add(x)
        if isinstance(x, F):
            if x.k == "ex" or (x.k == "b" and x.a[0] == "fcmp"):
                return False
            return all(go(y) for y in x.a)
        if isinstance(x, Atom):
            if x.kind in ("first", "unk", "sum", "bv", "hole", "holeval", "bits"):
                return False
            return all(go(y) for y in x.args)
        if isinstance(x, Poly):
            return all(go(a) for k in x.m for a in k)
        if isinstance(x, V):
            if x.k in ("unk", "hole") or (x.k == "fl" and x.a[1][0] in ("op", "cvt", "int")):
                return False
            return all(go(y) for y in x.a)
        return True
    return go(f)


PAT32 = [0x3F800000, 0x80000000, 0x7F801234, 0x41424344, 0xFFC00001, 0x00102030, 0x01102030, 0x00000001, 0x7F7FFFFF, 0]
PAT64 = [0x3FF0000000000000, 0x8000000000000000, 0x7FF0000012345678, 0x4041424344454647, 0xFFF8000000000001, 0x0010203040506070, 1, 0x7FEFFFFFFFFFFFFF, 0]


def pattern(bits, n):
    t = PAT32 if bits == 32 else PAT64
    return t[n % len(t)]


def unfolded_floats(f):
    """(floats that are operands of comparisons or arithmetic) in a condition."""
    out, seen = [], set()

    def operand(x):
        if isk(x, "fl") and x.a[1][0] == "bytes" and x not in out:
            out.append(x)
        go(x)

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, Poly):
            if x not in seen:
                seen.add(x)
                for k in x.m:
                    go(k)
        elif isinstance(x, (F, Atom, V)):
            if x in seen:
                return
            seen.add(x)
            if isinstance(x, F) and x.k == "b" and x.a[0] == "fcmp":
                for y in x.a[2:]:
                    operand(y)
            elif isk(x, "fl") and x.a[1][0] in ("op", "cvt", "int"):
                for y in x.a[1][1:]:
                    operand(y)
            elif isinstance(x, Atom):
                go(x.args)
            else:
                go(x.a)
    go(f)
    return out


def float_examples(cond, few=False):
    """The condition with its floats fixed to particular bit patterns: [(condition, note)]."""
    n0 = 3 if few else len(PAT32)
    if FLOATS in at_of(cond):
        out = []
        for mode in (0,) if few else (0, 1):
            for n in range(n0):
                seen, bits_of = {}, {}

                def f(bits, key, n=n, mode=mode, seen=seen, bits_of=bits_of):
                    i = seen.setdefault(key, len(seen))
                    bits_of[key] = bits
                    return pattern(bits, n + mode * i)
                _templ[0] += 1
                FTEMPL[_templ[0]] = f
                c = subst(cond, {FLOATS: _templ[0]})
                out.append((c, "floats with bits " + ", ".join("%s=%#x" % ("".join(map(str, k)), pattern(bits_of[k], n + mode * i)) for k, i in list(seen.items())[:4])))
        return out
    groups = unfolded_floats(cond)
    groups = [g for g in groups if all(isinstance(b, int) or (is_atom(b) is not None and is_atom(b).kind in ("var", "fn")) for b in g.a[1][1:])]
    if not groups or len(groups) > 6:
        return [(cond, "")]
    out = []
    for mode in (0, 1):
        for n in range(n0):
            mp = {}
            for i, g in enumerate(groups):
                p = pattern(g.a[0], n + mode * i)
                for j, b in enumerate(g.a[1][1:]):
                    if not isinstance(b, int):
                        mp.setdefault(is_atom(b), (p >> (8 * j)) & 255)
            out.append((subst(cond, mp), "with " + ", ".join("%s=%d" % (show_atom(a), v) for a, v in list(mp.items())[:12])))
    return out


def show_model(m):
    vals, bools = m
    out = []
    for a, v in sorted(vals.items(), key=lambda x: x[0].id):
        if a.kind in ("var", "fn", "idx"):
            out.append("%s=%s" % (show_atom(a), v))
    return ", ".join(out[:40])


# ------------------------------------------------------------------ deciding
class Decider:
    """Settles one condition: shown, refuted by an example, or left undecided."""

    def __init__(self, rep, E=None, pt=None, nf_atom=None, facts=(), example_facts=None, limit=10):
        self.rep, self.E, self.pt, self.nf = rep, E, pt, nf_atom
        self.facts = list(facts)
        self.most = limit
        self.cache = {}
        self.example_facts = list(facts) if example_facts is None else list(example_facts)

    @property
    def limit(self):
        return budget(self.most)

    def prove(self, facts, goal, ax=()):
        t0 = time.time()
        r = solve.prove(facts, goal, ax, self.limit)
        if not r:
            SPENT[0] += time.time() - t0
        return r

    def refute(self, cond):
        t0 = time.time()
        r = self.example(cond, t0)
        if r is None:
            SPENT[0] += time.time() - t0
        return r

    def example(self, cond, t0):
        """An example satisfying cond, as text, or None."""
        if cond is False:
            return None
        cands = []
        if self.nf is not None and self.pt is not None:
            tpls = templates(self.pt, self.nf)
            turn[0] %= len(tpls)
            for num in list(range(turn[0], len(tpls))) + list(range(turn[0])):
                tpl = tpls[num]
                mp = {}
                for n, j in ((f["name"], is_atom(var("J_" + f["name"], 0, ADDR_MAX))) for f in self.pt.fields):
                    for i, (nm, _) in enumerate(tpl):
                        if nm == n:
                            mp[j] = i
                c = subst(cond, mp)
                cands.append((lambda c=c, tpl=tpl: apply_template(c, tpl, self.nf), "fields " + ", ".join("%s:%d" % x for x in tpl), num))
        else:
            cands.append((lambda: cond, "", 0))
        for make, note0, num in cands:
            if QUICK[0] and time.time() - t0 > 3 * self.limit:
                # the next question begins where this one ended
                turn[0] = num
                return None
            c0 = make()
            for c, note1 in float_examples(c0, len(cands) > 1) if c0 is not False else ():
                note = "; ".join(x for x in (note0, note1) if x)
                if c is False:
                    continue
                if c is True:
                    return note or "any input"
                if not clean(c):
                    continue
                if QUICK[0] and time.time() - t0 > 6 * self.limit:
                    turn[0] = num + 1
                    return None
                r, m = solve.counterexample(lits_of(c), (), self.limit)
                if r == "unknown":
                    for c2, note2 in self.sizes(c):
                        if QUICK[0] and time.time() - t0 > 6 * self.limit:
                            break
                        if c2 is False:
                            continue
                        note3 = "; ".join(x for x in (note, note2) if x)
                        if c2 is True:
                            turn[0] = num
                            return note3
                        r, m = solve.counterexample(lits_of(c2), (), self.limit)
                        if r == "model":
                            note = note3
                            break
                if r == "model":
                    turn[0] = num
                    return (note + "; " if note else "") + show_model(m)
        return None

    def sizes(self, c):
        """The condition for particular message sizes and positions."""
        at = {}
        rest = []
        for a in at_of(c):
            if a.kind in ("var", "idx"):
                n = str(a.args[0]) if a.args else ""
                for key in ("dimensions.width", "dimensions.height", "point_step", "data.len"):
                    if n.endswith(key):
                        at[key] = a
                        break
                else:
                    if a not in (NAMES, FLOATS) and "." not in n and not n.startswith("J_"):
                        rest.append(a)
        if not at or len(rest) > 3:
            return
        size = self.pt.size if self.pt else 16
        for w, h in ((1, 1), (3, 2), (65536, 65537), ((1 << 32) - 1, 1)):
            for s in (size, size + 5, 64):
                for k in (0, w * h - 1, 1 << 32) if w > 3 else range(w * h):
                    mp = {a: k for a in rest}
                    for key, v in (("dimensions.width", w), ("dimensions.height", h), ("point_step", s), ("data.len", w * h * s)):
                        if key in at:
                            mp[at[key]] = v
                    if any((a.lo is not None and v < a.lo) or (a.hi is not None and v > a.hi) for a, v in mp.items()):
                        continue
                    yield subst(c, mp), "%d x %d points of %d bytes%s" % (w, h, s, ", " + ", ".join("%s=%d" % (show_atom(a), k) for a in rest) if rest else "")

    def decide(self, rule, where, pre, goal, detail="", known=()):
        """pre => goal?"""
        facts = self.facts + list(pre)
        key = (frozenset(f for f in facts if f is not True), goal)
        st = self.cache.get(key)
        if st is None:
            ax = self.E.axioms if self.E else ()
            if goal is True or self.prove(facts + list(known), goal, ax):
                st = ("held", "")
            else:
                ex = self.refute(f_and(self.example_facts + list(pre) + list(known) + [fnot(goal)]))
                if ex is not None:
                    st = ("violated", ex)
                else:
                    st = ("undecided", "")
            self.cache[key] = st
        self.rep.add(st[0], rule, where, (detail + " | example: " + st[1]) if st[1] else detail)
        return st[0]

    def impossible(self, rule, where, pre, detail="", known=()):
        return self.decide(rule, where, pre, False, detail, known)

    def equal_bytes(self, rule, where, pre, got, want, detail=""):
        """Byte sequences are equal under pre (got may contain alternatives)."""
        if len(got) != len(want):
            return self.impossible(rule, where, pre, detail + f" {len(got)} bytes instead of {len(want)}")
        todo = [(list(pre), 0)]
        bad = None
        states = []
        groups = {}
        for j, (g, w) in enumerate(zip(got, want)):
            if same(g, w):
                continue
            for c, x in alts(g):
                if same(x, w):
                    continue
                groups.setdefault(c, []).append((j, x, w))
        worst = "held"
        for c, l in groups.items():
            p = list(pre) + ([c] if c is not True else [])
            # the alternative is only relevant where it can occur
            key = ("un", frozenset(f for f in self.facts + p if f is not True))
            if key not in self.cache:
                self.cache[key] = c is not True and self.prove(self.facts + p, False)
            if self.cache[key]:
                continue
            for j, x, w in l:
                r = self.equal_byte(rule, where, p, x, w, f"{detail} byte {j}")
                if r != "held":
                    worst = r if worst != "violated" else worst
            if worst == "violated":
                break
        if worst == "held":
            self.rep.add("held", rule, where)
        return worst

    def equal_byte(self, rule, where, p, x, w, detail):
        d = byte_diff(x, w)
        if d is True:
            return "held"
        if d is None:
            # different sources: equal only if the alternative cannot occur
            ok = is_source(x) and is_source(w)
            fs = frozenset(f for f in self.facts + p if f is not True)
            if ("imp", fs) not in self.cache:
                self.cache["imp", fs] = self.prove(self.facts + p, False)
            key = ("src", fs, x, w)
            if key not in self.cache:
                self.cache[key] = ("undecided", "")
                if self.cache["imp", fs]:
                    self.cache[key] = ("held", "")
                elif ok:
                    # a value that shows the difference
                    differ = fnot(eq(x, w)) if isint(x) and isint(w) else True
                    ex = self.refute(f_and(self.example_facts + p + [differ]))
                    if ex is not None:
                        self.cache[key] = ("violated", ex)
            st = self.cache[key]
            if st[0] != "held":
                self.rep.add(st[0], rule, where, f"{detail}: {showv(x)[:160]} instead of {showv(w)[:160]} | example: {st[1]}")
            return st[0]
        if isint(x) and isint(w):
            differ = f_and([fnot(d), fnot(eq(x, w))])
        else:
            differ = fnot(d)
        key = ("eqb", frozenset(f for f in self.facts + p if f is not True), d)
        if key not in self.cache:
            if self.prove(self.facts + p, d):
                self.cache[key] = ("held", "")
            else:
                ex = self.refute(f_and(self.example_facts + p + [differ]))
                self.cache[key] = ("violated", ex) if ex is not None else ("undecided", "")
        st = self.cache[key]
        if st[0] != "held":
            self.rep.add(st[0], rule, where, f"{detail}: {showv(x)[:200]} instead of {showv(w)[:200]} | example: {st[1]}")
        return st[0]


def is_source(x):
    """A byte whose value is fully understood: a constant, an input byte, or a byte of an input value."""
    if isinstance(x, int):
        return True
    if isk(x, "undef"):
        return True
    a = is_atom(x) if isinstance(x, Poly) else None
    if a is None or a.taint:
        return False
    return a.kind in ("fn", "var", "ext") and clean_value(a)


def clean_value(a):
    return not a.taint


def byte_diff(x, w):
    """Condition under which two bytes come from the same place: True, a formula, or None if they
    come from different places altogether."""
    if same(x, w):
        return True
    if isinstance(x, V) or isinstance(w, V):
        return None
    if isinstance(x, int) and isinstance(w, int):
        return None
    if isinstance(x, int) or isinstance(w, int):
        return None
    a, b = is_atom(x), is_atom(w)
    if a is None or b is None:
        return None
    if a.kind == "fn" and b.kind == "fn" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        c = f_and([eq(p, q) for p, q in zip(a.args[1:], b.args[1:])])
        return None if c is False else c
    if a.kind == "ext" and b.kind == "ext" and a.args[1:] == b.args[1:]:
        s, t = a.args[0], b.args[0]
        if isk(s, "fl") and isk(t, "fl") and s.a[1][0] == "sym" and t.a[1][0] == "sym" and s.a[1][1] == t.a[1][1]:
            c = f_and([eq(p, q) for p, q in zip(s.a[1][2:], t.a[1][2:])])
            return None if c is False else c
        if isint(s) and isint(t):
            return byte_diff(s, t)
    return None


# ------------------------------------------------------------------ obligations
def obligations(E, rep, rule_of, pt=None, nf_atom=None, pre=(), limit=10, example_facts=()):
    """Discharge everything the interpreted code requires (bounds, overflow, panics, allocation)."""
    d = Decider(rep, E, pt, nf_atom, facts=pre, example_facts=list(example_facts) + list(pre), limit=limit)
    for k, n in E.trivial.items():
        rule = rule_of(Obl(k, "", "", "", (), True, True))
        if rule is not None:
            rep.held(rule, n)
    for o in E.obls:
        rule = rule_of(o)
        if rule is None:
            continue
        ls = lits_of(o.pc)
        known_ = E.known_facts(o.pc, o.nk, debug=o.kind != "ub")
        where = f"{short_span(o.span)} in {short_fn(o)}"
        d.decide(rule, where, ls, o.goal, f"{o.kind}: {o.msg}: {show(o.goal)[:200]}", known_)


def short_fn(o):
    for f in reversed(o.stack):
        n = f[0] if isinstance(f, tuple) else f
        if isinstance(n, int):
            n = prog().insts[n]["path"]
        if "ros_pointcloud2" in str(n) or "witness" in str(n):
            return str(n)
    return str(o.fn)


def short_span(sp):
    return re.sub(r"^/repo/", "", str(sp))
