"""C24: what is written under which key against what is read from that key."""
import re
from common import *
from terms import *
from values import *
from p_tables import value_is, string_is, no_panic, is_rgb, member_types

W = "witness::ser::"
TYPES = ["s_msg", "s_dims", "s_header", "s_time", "s_field", "s_endian", "s_dense", "s_rgb",
         "s_xyz", "s_xyzi", "s_xyzl", "s_xyzrgb", "s_xyzrgba", "s_xyzrgbnormal", "s_xyzinormal", "s_xyzrgbl", "s_xyznormal"]


def lit(v):
    return v.a[0][1] if isk(v, "str") and v.a[0][0] == "lit" else None


def tname(t):
    return prog().types[t].get("path") or prog().types[t].get("name") or prog().types[t]["kind"]


class Node:
    """Something written: kind, value, type, the condition, and for structs the entries."""

    def __init__(self, kind, pc, val=None, ty=None):
        self.kind, self.pc, self.val, self.ty, self.entries, self.skipped = kind, pc, val, ty, [], []


HUMAN = [True]
ASKED = [False]


class Format:
    """The data format: takes down what is written and hands out values named after their keys."""

    def __init__(self, E):
        self.E, self.top, self.stack, self.key, self.odd, self.given, self.visitors = E, [], [], [], [], {}, {}
        for n in ("out_open", "out_key", "out_skip", "out_close", "out", "out_str", "out_seq", "out_variant", "out_other"):
            E.leaf_hooks[W + n] = getattr(self, n)
        for n in ("take", "take_seq", "take_struct"):
            E.leaf_hooks[W + n] = self.take
        E.leaf_hooks[W + "take_other"] = self.out_other
        E.leaf_hooks[W + "keys"] = self.keys
        E.leaf_hooks[W + "human"] = self.human
        E.leaf_hooks[W + "name"] = lambda E, st, inst, args: [(st, s_lit(self.names[0]))]
        self.names = []

    def keys(self, E, st, inst, args):
        n = len(self.names)
        t = args[0].a[2]
        o = E.alloc(st, mkv("vec", seq_list([s_lit(k) for k in self.names]), n, n))
        return [(st, mkv("ptr", o, ("buf",), t, ("r", t, False), 0, n))]

    def human(self, E, st, inst, args):
        """Text or binary format: where it is asked, both kinds are analysed one after the other."""
        ASKED[0] = True
        return [(st, HUMAN[0])]

    def place(self, n):
        if self.key and self.key[-1] is not None:
            self.key[-1][1].append(n)
        elif not self.stack:
            self.top.append(n)
        else:
            self.odd.append("a value without a key")

    def out_open(self, E, st, inst, args):
        n = Node("struct", st.pc)
        self.place(n)
        self.stack.append(n)
        self.key.append(None)
        return [(st, UNIT)]

    def out_close(self, E, st, inst, args):
        if self.stack:
            self.stack.pop()
            self.key.pop()
        else:
            self.odd.append("closing what is not open")
        return [(st, UNIT)]

    def out_key(self, E, st, inst, args):
        k = lit(args[0])
        if k is None or not self.stack:
            self.odd.append("a key that is not fixed")
        else:
            self.key[-1] = (k, [], st.pc)
            self.stack[-1].entries.append(self.key[-1])
        return [(st, UNIT)]

    def out_skip(self, E, st, inst, args):
        if self.stack:
            self.stack[-1].skipped.append((lit(args[0]), st.pc))
        return [(st, UNIT)]

    def leaf(self, kind, st, inst, args):
        self.place(Node(kind, st.pc, args[0], inst["args"][0] if inst["args"] else None))
        return [(st, UNIT)]

    def out(self, E, st, inst, args):
        return self.leaf("num", st, inst, args)

    def out_str(self, E, st, inst, args):
        return self.leaf("str", st, inst, args)

    def out_variant(self, E, st, inst, args):
        return self.leaf("variant", st, inst, args)

    def out_seq(self, E, st, inst, args):
        t = inst["args"][0]
        v = args[0]
        if prog().types[t]["kind"] == "ref":
            t = prog().types[t]["to"]
            v = E.read_ptr(st, v)
        self.place(Node("seq", st.pc, v, t))
        return [(st, UNIT)]

    def out_other(self, E, st, inst, args):
        self.odd.append("an unusual call")
        return [(st, UNIT)]

    def take(self, E, st, inst, args):
        k = lit(args[0])
        if k is None:
            self.odd.append("a key that is not fixed")
            k = "?"
        t = inst["args"][-1]
        if k in self.given and self.given[k][1] != t:
            self.odd.append("an entry read twice, in two ways")
        if k not in self.given:
            self.given[k] = (symval(t, "in." + k, (), E, st), t)
            self.visitors[k] = None if inst["method"] == "take" else inst["name"]
        return [(st, self.given[k][0])]


def start():
    E = engine()
    return E, Format(E)


def shape(t):
    T = prog().types[t]
    if T["kind"] != "adt":
        return "num"
    last = T["path"].split("::")[-1]
    if last == "String":
        return "str"
    if last == "Vec":
        return "seq"
    if T["adt"] == "Union":
        return "num"
    if T["adt"] == "Enum":
        return "variant"
    return "struct"


def written(rep, mod, arg=None):
    """(nodes, the value, its type, engine, format)"""
    E, f = start()
    name = W + mod + "::write"
    t = pointee(root_tys(name)[0][0])
    st = St()
    v = symval(t, "v", (), E, st) if arg is None else arg
    p = mkv("ptr", E.alloc(st, v), (), t, "p", 0, None)
    E.exec_body(st, root(name), [p])
    rep.absorb(E)
    return f, v, t, E


VARIANTS = {}


def variants(rep, mod, say=True):
    """{written name: variant number} of an enum, as its own serialisation has it."""
    t = pointee(root_tys(W + mod + "::write")[0][0])
    out = {}
    for i, v in enumerate(prog().types[t]["variants"]):
        f, _, _, E = written(rep, mod, agg(i))
        n = [lit(x.val) for x in f.top if x.kind == "variant"]
        if len(f.top) != 1 or n[:1] in ([], [None]) or f.odd:
            if say:
                rep.add("undecided", "variants are written under distinct names", f"{tname(t)}::{v['name']}", "not written as a plain variant")
            continue
        if n[0] in out and say:
            rep.add("violated", "variants are written under distinct names", f"{tname(t)}::{v['name']}", f"written as {n[0]!r} like another variant")
        elif say:
            rep.add("held", "variants are written under distinct names", f"{tname(t)}::{v['name']}")
        out[n[0]] = i
    return t, out


def enum_names(rep):
    if not VARIANTS:
        for m in ("s_endian", "s_dense"):
            t, d = variants(rep, m, False)
            VARIANTS[t] = d
    return VARIANTS


def check_written(rep, d, E, where, nodes, v, t, keys, path="v", odd=()):
    """The nodes written for a member are the member. Fills keys for structs: (path) -> key."""
    rule = "members are written unchanged"
    k = shape(t)
    if not nodes:
        return rep.add("undecided" if odd else "violated", rule, where, "nothing is written for it")
    for n in nodes:
        if n.kind == "seq" or k == "seq" and n.kind != "seq":
            pass
        if n.kind != k and not (k == "seq" and n.kind == "seq"):
            rep.add("undecided", rule, where, f"written as {n.kind}, expected {k}")
            continue
        pre = lits_of(n.pc)
        if k == "num":
            a, b = bytes_of(n.val, n.ty), bytes_of(v, t)
            d.equal_bytes(rule, where, pre, a, b)
        elif k == "str":
            string_is(d, rule, where, pre, n.val, v)
        elif k == "seq":
            if n.ty != t:
                rep.add("undecided", rule, where, f"written from a {tname(n.ty)}")
            else:
                value_is(d, rule, where, pre, n.val, v, t)
        elif k == "variant":
            names = enum_names(rep).get(t)
            L = lit(n.val)
            if not names or L is None or L not in names:
                rep.add("undecided", rule, where, f"variant {showv(n.val)[:60]}")
                continue
            for c, w in alts(v):
                if not isk(w, "agg"):
                    rep.add("undecided", rule, where, "variant unknown")
                elif w.a[0] != names[L]:
                    d.impossible(rule, where, pre + lits_of(c), f"{prog().types[t]['variants'][w.a[0]]['name']} written as {L}")
        else:
            check_struct(rep, d, E, where, n, v, t, keys, path, odd)
    if k == "variant" and nodes:
        d.decide(rule, where, [], f_or([n.pc for n in nodes]), "not always written")


def check_struct(rep, d, E, where, n, v, t, keys, path, odd):
    rule = "members are written unchanged"
    ms = member_types(prog().types[t], 0)
    src = {}
    # which member an entry carries: the one of the same place in a one-to-one assignment by provenance
    vals = [v.a[1][i] for i in range(len(ms))] if isk(v, "agg") else None
    if vals is None:
        return rep.add("undecided", rule, where, "value not resolved")
    names = [m[0] for m in ms]
    seen = set()
    for k, nodes, pc in n.entries:
        if k in seen:
            rep.add("violated", "every member is written once", f"{where}, entry {k!r}", "written twice")
        seen.add(k)
    order = []
    for pos, (k, nodes, pc) in enumerate(n.entries):
        # provenance
        m = owner(nodes, path, k, names)
        if m is None:
            rep.add("undecided", rule, f"{where}, entry {k!r}", "of no known member")
            odd = list(odd) + [k]
            continue
        w = f"{where}.{names[m]}"
        if m in src:
            # this entry repeats another member: its own is missing
            rep.add("violated", "every member is written once", w, f"written under {src[m]!r} and {k!r}")
            continue
        src[m] = k
        order.append(m)
        d.decide("members are written for every value", w, [], pc, "left out for some values")
        sub_ = {}
        check_written(rep, d, E, w, nodes, vals[m], ms[m][1], sub_, path + "." + names[m], odd)
    for i, nm in enumerate(names):
        if i not in src:
            rep.add("undecided" if odd else "violated", "every member is written once", f"{where}.{nm}", "not written")
        else:
            rep.add("held", "every member is written once", f"{where}.{nm}")
    for k, pc in n.skipped:
        d.decide("members are written for every value", f"{where}, entry {k!r}", lits_of(pc), False, "left out for some values")
    keys["keys"] = {m: k for m, k in src.items()}
    keys["order"] = order


def node_text(nodes):
    out = []
    for n in nodes:
        if n.kind == "struct":
            out += [node_text(x[1]) for x in n.entries]
        elif n.val is not None:
            out.append(str(n.val) if n.kind in ("seq",) else showv(n.val))
        out.append(show(n.pc) if n.pc not in (True, False) else "")
    return " ".join(out)


def owner(nodes, path, key, names):
    """Which member the written nodes are made of."""
    t = node_text(nodes)
    hit = [i for i, nm in enumerate(names) if re.search(r"(?<![A-Za-z0-9_.])" + re.escape(path + "." + nm) + r"(?![A-Za-z0-9_])", t)]
    if len(hit) == 1:
        return hit[0]
    # not made of a member (a constant, or several): the member of that name
    if key in names:
        return names.index(key)
    return hit[0] if hit else None


def own_visitor(name, t):
    T = prog().types[t]
    return name is None or "__Visitor" in name and T["path"] in name or "VecVisitor" in name and "serde" in name.split("<", 1)[1][:12]


def check_read(rep, d, where, f, got, t, m, key, rule):
    """Member m of the value read is what stood under the key."""
    mt, mn = member_types(prog().types[t], 0)[m][1], member_types(prog().types[t], 0)[m][0]
    w = f"{where}.{mn}"
    if key not in f.given:
        if not got:
            return
        sure = not f.odd and all("unk" not in showv(x.a[1][m]) and "havoc" not in showv(x.a[1][m]) for p, x in got)
        return rep.add("violated" if sure else "undecided", rule, w, f"nothing is read from {key!r}, under which it is written")
    val, vt = f.given[key]
    if not own_visitor(f.visitors[key], vt):
        return rep.add("undecided", rule, w, f"read by {f.visitors[key][:150]}")
    for p, x in got:
        v = x.a[1][m]
        if shape(mt) == "num":
            d.equal_bytes(rule, w, p, bytes_of(v, mt), bytes_of(val, vt))
        elif vt != mt:
            rep.add("undecided", rule, w, f"read as {tname(vt)}")
        elif shape(mt) == "str":
            string_is(d, rule, w, p, v, val)
        else:
            value_is(d, rule, w, p, v, val, mt)


def read(rep, name, names):
    E, f = start()
    f.names = list(names)
    st = St()
    outs = E.exec_body(st, root(name), [])
    rep.absorb(E)
    no_panic(E, rep)
    return E, f, [(lits_of(c), w, s) for c, w, s in out_alts([(s, v) for s, v in outs if s is not None and s.pc is not False])]


def symmetric(rep, mod):
    ASKED[0] = False
    for h in (True, False):
        HUMAN[0] = h
        VARIANTS.clear()
        one_format(rep, mod)
        if not ASKED[0]:
            break


def one_format(rep, mod):
    if mod in ("s_endian", "s_dense"):
        return enums(rep, mod)
    f, v, t, E = written(rep, mod)
    no_panic(E, rep)
    d = Decider(rep, E)
    where = tname(t)
    for o in f.odd:
        rep.add("undecided", "written as plain entries", where, o)
    keys = {}
    check_written(rep, d, E, where, f.top, v, t, keys, "v", f.odd)
    if len(f.top) != 1:
        return rep.add("undecided", "written as plain entries", where, f"{len(f.top)} values")
    # reading back
    if shape(t) == "num":
        E2, g, outs = read(rep, W + mod + "::by_key", [])
        d2 = Decider(rep, E2)
        rule = "members are read back unchanged"
        if not outs or "" not in g.given:
            return rep.add("undecided", rule, where, "nothing is read")
        val, vt = g.given[""]
        if vt != f.top[0].ty:
            rep.add("violated" if prog().types[vt]["kind"] != prog().types[f.top[0].ty]["kind"] or prog().types[vt].get("bits") != prog().types[f.top[0].ty].get("bits") else "undecided", "read as the type it is written as", where, f"written as {tname(f.top[0].ty)}, read as {tname(vt)}")
        else:
            rep.add("held", "read as the type it is written as", where)
        for p, x, s in outs:
            if not isk(x, "agg"):
                rep.add("undecided", rule, where, "unresolved")
            elif g.odd or f.odd:
                rep.add("undecided", rule, where, "the stand-in format does not offer what is asked of it")
            elif x.a[0] == 1:
                d2.impossible("what is written is accepted", where, p, "refused")
            else:
                d2.equal_bytes(rule, where, p, bytes_of(x.a[1][0], t), bytes_of(val, vt))
        return
    if "keys" not in keys:
        return
    for op in ("by_key", "by_place"):
        E2, g, outs = read(rep, W + mod + "::" + op, [keys["keys"][m] for m in keys["order"]])
        d2 = Decider(rep, E2)
        w2 = f"{where} ({'by name' if op == 'by_key' else 'by position'})"
        for o in g.odd:
            rep.add("undecided", "read as plain entries", w2, o)
        good = []
        for p, x, s in outs:
            if not isk(x, "agg"):
                rep.add("undecided", "what is written is accepted", w2, "unresolved")
            elif x.a[0] == 1 and (g.odd or f.odd):
                rep.add("undecided", "what is written is accepted", w2, "the stand-in format does not offer what is asked of it")
            elif x.a[0] == 1:
                d2.impossible("what is written is accepted", w2, p, "refused")
            else:
                for c, y in alts(x.a[1][0]):
                    if isk(y, "agg"):
                        good.append((p + lits_of(c), y))
                    else:
                        rep.add("undecided", "what is written is accepted", w2, "unresolved value")
        if not outs:
            rep.add("undecided", "what is written is accepted", w2, "no outcome")
        for pos, m in enumerate(keys["order"]):
            check_read(rep, d2, w2, g, good, t, m, keys["keys"][m] if op == "by_key" else f"#{pos}", "members are read back from where they are written")
    # an entry that is missing is missing
    for i, m in enumerate(keys["order"]):
        k = keys["keys"][m]
        try:
            root(W + mod + f"::w{i}")
        except AnchorMissing:
            rep.add("undecided", "a missing entry is not made up", f"{where}, entry {k!r}", "no entry point")
            continue
        E2, g, outs = read(rep, W + mod + f"::w{i}", [keys["keys"][m] for m in keys["order"]])
        d2 = Decider(rep, E2)
        for p, x, s in outs:
            w = f"{where}, entry {k!r} missing"
            if not isk(x, "agg"):
                rep.add("undecided", "a missing entry is not made up", w, "unresolved")
            elif x.a[0] == 0:
                d2.impossible("a missing entry is not made up", w, p, "accepted with a made-up value")
            else:
                rep.add("held", "a missing entry is not made up", w)


def enums(rep, mod):
    t, names = variants(rep, mod)
    T = prog().types[t]
    rule = "variants are read back from their names"
    for L, want in names.items():
        E, f, outs = read(rep, W + mod + "::by_key", [L])
        d = Decider(rep, E)
        w = f"{tname(t)}, {L!r}"
        for o in f.odd:
            rep.add("undecided", rule, w, o)
        if not outs:
            rep.add("undecided", rule, w, "no outcome")
        for p, x, s in outs:
            if not isk(x, "agg"):
                rep.add("undecided", rule, w, "unresolved")
            elif x.a[0] == 1 and f.odd:
                rep.add("undecided", rule, w, "the stand-in format does not offer what is asked of it")
            elif x.a[0] == 1:
                d.impossible(rule, w, p, "refused")
            else:
                for c, y in alts(x.a[1][0]):
                    if not isk(y, "agg"):
                        rep.add("undecided", rule, w, "unresolved variant")
                    elif y.a[0] != want:
                        d.impossible(rule, w, p + lits_of(c), f"read as {T['variants'][y.a[0]]['name']}, written for {T['variants'][want]['name']}")
                    else:
                        rep.add("held", rule, w)
