"""Abstract interpretation of compiler IR: one pass over each control-flow graph, states merged at
joins into gated values, loops summarised by closed forms of their updates."""
import json
import re
import sys
from terms import *
from values import *
import solve

sys.setrecursionlimit(20000)
ISIZE_MAX = I64MAX
ADDR_MAX = 1 << 47  # no allocation exceeds the user address space
P = None  # the loaded program
DEBUG = False


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.insts = d["insts"]
        self.roots = dict(d["roots"])
        self.allocs = d["allocs"]
        self.impls = d["impls"]
        self.scc_cache = {}

    def root(self, name):
        return self.roots.get(name)


def load(path):
    global P
    P = Program(path)
    return P


def ty(t):
    return P.types[t]


def tsize(t):
    return P.types[t].get("size")


def field_ty(t, variant, i):
    T = P.types[t]
    k = T["kind"]
    if k == "adt":
        return T["variants"][variant or 0]["fields"][i][1]
    if k == "tuple":
        return T["fields"][i]
    if k == "closure":
        return P.types[T["upvars"]]["fields"][i]
    if k == "array":
        return T["elem"]
    return None


def is_path(t, *suffixes):
    T = P.types[t]
    return T["kind"] == "adt" and T["path"].split("::")[-1] in suffixes


def pointee(t):
    return P.types[t].get("to")


def int_range(T):
    b = T["bits"]
    if T.get("signed"):
        return -(1 << (b - 1)), (1 << (b - 1)) - 1
    return 0, (1 << b) - 1


# ------------------------------------------------------------------ strings
def s_lit(s):
    return mkv("str", ("lit", s))


NAMES = atom("var", "$names", lo=0, hi=1 << 20)
TEMPL = {}


def sym_str(name, idx):
    """An arbitrary string. The marker lets a substitution fix the strings of an example input."""
    return mkv("str", ("sym", name) + tuple(idx) + (A(NAMES),))


def _str(key):
    if key[0] == "sym" and isinstance(key[-1], int):
        t = TEMPL.get(key[-1], {}).get(key[1:-1])
        if t is not None:
            return mkv("str", ("lit", t))
    if key[0] == "fn" and len(key) >= 3 and key[1] in STRFN:
        return str_fn(key[1], *key[2:])
    return mkv("str", key)


def cut_start(s, p):
    while p and s.startswith(p):
        s = s[len(p):]
    return s


def cut_end(s, p):
    while p and s.endswith(p):
        s = s[:len(s) - len(p)]
    return s


STRFN = {"to_lowercase": str.lower, "to_uppercase": str.upper, "trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip,
         "trim_start_matches": cut_start, "trim_end_matches": cut_end, "trim_matches": lambda s, p: cut_end(cut_start(s, p), p),
         "replace": str.replace}


def str_fn(m, v, *par):
    """A function of a string, computed where the string is known."""
    if isk(v, "str") and v.a[0][0] == "lit":
        return s_lit(STRFN[m](v.a[0][1], *par))
    return mkv("str", ("fn", m, v) + par)


VREBUILD["str"] = _str


def streq(x, y):
    if isk(x, "case"):
        return f_or([f_and([c, streq(w, y)]) for c, w in x.a])
    if isk(y, "case"):
        return f_or([f_and([c, streq(x, w)]) for c, w in y.a])
    if x is y:
        return True
    if isk(x, "str") and isk(y, "str"):
        if x.a[0][0] == "lit" and y.a[0][0] == "lit":
            return x.a[0][1] == y.a[0][1]
    if isk(x, "unk") or isk(y, "unk") or not isinstance(x, V) or not isinstance(y, V):
        return form("b", "unk", "streq", x, y)
    if y.id < x.id:
        x, y = y, x
    return form("b", "streq", x, y)


BREBUILD["streq"] = streq
BREBUILD["veq"] = lambda x, y: veq(x, y)


def veq(a, b):
    """Structural equality."""
    if isk(a, "case"):
        return f_or([f_and([c, veq(w, b)]) for c, w in a.a])
    if isk(b, "case"):
        return f_or([f_and([c, veq(a, w)]) for c, w in b.a])
    if isint(a) and isint(b):
        return eq(a, b)
    if isbool(a) and isbool(b):
        return f_or([f_and([a, b]), f_and([fnot(a), fnot(b)])])
    if isk(a, "str") or isk(b, "str"):
        return streq(a, b)
    if isk(a, "agg") and isk(b, "agg"):
        if a.a[0] != b.a[0]:
            return False
        return f_and([veq(x, y) for x, y in zip(a.a[1], b.a[1])])
    if isk(a, "list") and isk(b, "list"):
        if len(a.a[0]) != len(b.a[0]):
            return False
        return f_and([veq(x, y) for x, y in zip(a.a[0], b.a[0])])
    if isk(a, "fl") and isk(b, "fl"):
        return fcmp("Eq", a, b)
    if a is b and isinstance(a, V):
        return form("b", "veq", a, b)
    return form("b", "unk", "veq", a, b)


def int_eq(v, c):
    if isk(v, "case"):
        return f_or([f_and([d, int_eq(w, c)]) for d, w in v.a])
    if isbool(v):
        return v if c else fnot(v)
    if not isint(v):
        v = toint(v)
    return eq(v, c)


# ------------------------------------------------------------------ typed bytes
def from_bytes(bs, t):
    """The value of type t whose memory is bs."""
    T = P.types[t]
    k = T["kind"]
    if k == "int":
        return int_from_bytes(list(bs), T["signed"])
    if k == "bool":
        b = int_from_bytes(list(bs), False)
        return b if isk(b, "undef") else fnot(int_eq(b, 0))
    if k == "char":
        return int_from_bytes(list(bs), False)
    if k == "float":
        return fl_from_bytes(list(bs))
    if k == "array":
        n, e = T["len"], T["elem"]
        s = tsize(e)
        return seq_list([from_bytes(bs[i * s:(i + 1) * s], e) for i in range(n)])
    if k == "tuple":
        return mkv("agg", 0, tuple(from_bytes(bs[o:o + tsize(f)], f) for f, o in zip(T["fields"], T["offsets"])))
    if k == "adt":
        if T["adt"] == "Union":
            return mkv("un", tuple(bs))
        if T["adt"] == "Struct":
            fs = T["variants"][0]["fields"]
            return mkv("agg", 0, tuple(from_bytes(bs[o:o + tsize(f)], f) for _, f, o in fs))
        if T["adt"] == "Enum":
            return enum_from_bytes(bs, T)
    if k in ("fndef", "closure") or T.get("size") == 0:
        return UNIT
    return unkv("bytes", t, tuple(bs))


def enum_from_bytes(bs, T):
    def variant(i):
        return mkv("agg", i, tuple(from_bytes(bs[o:o + tsize(f)], f) for _, f, o in T["variants"][i]["fields"]))
    if "tag" not in T:
        return variant(T.get("single", 0))
    tag = T["tag"]
    n = tag["size"] // 8 if tag["size"] >= 8 and tag["size"] % 8 == 0 else tag["size"]
    n = min(n, T["size"])
    v = int_from_bytes(list(bs[tag["off"]:tag["off"] + n]), False)
    if isk(v, "undef"):
        return UNDEF
    if tag["enc"]["kind"] == "direct":
        return mkcase([(int_eq(v, x["discr"] & ((1 << (8 * n)) - 1)), variant(i)) for i, x in enumerate(T["variants"])])
    e = tag["enc"]
    if isinstance(v, int):
        rel = (v - e["start"]) % (1 << (8 * n))
        if rel <= e["hi"] - e["lo"]:
            return variant(e["lo"] + rel)
        return variant(e["untagged"])
    return unkv("enum", tuple(bs))


def bytes_of(v, t):
    """Memory of the value v of type t; padding is undefined."""
    T = P.types[t]
    k = T["kind"]
    n = tsize(t)
    if n == 0:
        return []
    if isk(v, "undef"):
        return [UNDEF] * n
    if isk(v, "case") and k in ("adt", "tuple", "array"):
        per = [(c, bytes_of(w, t)) for c, w in v.a]
        return [mkcase([(c, b[i]) for c, b in per]) for i in range(n)]
    if k in ("int", "float", "char"):
        return [byte_of(v, i, n) for i in range(n)]
    if k == "bool":
        return [ind(tobool(v))]
    if k == "array":
        e = T["elem"]
        out = []
        for i in range(T["len"]):
            out += bytes_of(seq_get(v, i), e)
        return out
    if k == "tuple" and isk(v, "agg"):
        out = [UNDEF] * n
        for x, f, o in zip(v.a[1], T["fields"], T["offsets"]):
            out[o:o + tsize(f)] = bytes_of(x, f)
        return out
    if k == "adt":
        if T["adt"] == "Union" and isk(v, "un"):
            return list(v.a[0])
        if T["adt"] == "Struct" and isk(v, "agg"):
            out = [UNDEF] * n
            for x, (_, f, o) in zip(v.a[1], T["variants"][0]["fields"]):
                out[o:o + tsize(f)] = bytes_of(x, f)
            return out
        if T["adt"] == "Enum" and isk(v, "agg") and "tag" in T and T["tag"]["enc"]["kind"] == "direct":
            var = T["variants"][v.a[0]]
            out = [UNDEF] * n
            m = T["tag"]["size"] // 8
            for i in range(m):
                out[T["tag"]["off"] + i] = (var["discr"] >> (8 * i)) & 255
            for x, (_, f, o) in zip(v.a[1], var["fields"]):
                out[o:o + tsize(f)] = bytes_of(x, f)
            return out
    return [A(atom("unk", mkv("byte", v, t, i), lo=0, hi=255)) for i in range(n)]


# ------------------------------------------------------------------ sequences
def split_div(p, s):
    """p = s*q + r with a constant r in 0..s if possible, else (q, polynomial)."""
    if isinstance(p, int):
        return p // s, p % s
    q, r = {}, {}
    for k, v in p.m.items():
        if k:
            if v % s == 0:
                q[k] = v // s
            else:
                r[k] = v
        else:
            q[k] = q.get(k, 0) + v // s
            if v % s:
                r[k] = v % s
    return mk(q), mk(r)


def seq_get(s, i):
    """Element i of a sequence value."""
    if not isinstance(s, V):
        return unkv("elem", s, i)
    k = s.k
    if k == "list":
        xs = s.a[0]
        if isinstance(i, int):
            return xs[i] if 0 <= i < len(xs) else UNDEF
        if len(xs) > 80:
            return unkv("elem", s, i)
        return mkcase([(eq(i, n), x) for n, x in enumerate(xs)])
    if k == "comp":
        return open_at(s.a[1], s.a[2], i)
    if k == "rep":
        return s.a[1]
    if k == "flat":
        m = len(s.a[1])
        q, r = split_div(i, m)
        if isinstance(r, int):
            return open_at(s.a[1][r], s.a[2], q)
        return unkv("elem", s, i)
    if k == "vec":
        return seq_get(s.a[0], i)
    if k == "cat":
        alts = []
        rest = True
        base = i
        ps = s.a[0]
        for n, p in enumerate(ps):
            ln = seqlen(p)
            if ln is None:
                alts.append((rest, unkv("elem", s, i)))
                break
            inside = lt(toint(base), toint(ln)) if n < len(ps) - 1 else True
            if isk(p, "opt"):
                alts.append((f_and([rest, inside]), p.a[1]))
            else:
                c = f_and([rest, inside])
                if c is not False:
                    alts.append((c, seq_get(p, base)))
            rest = f_and([rest, fnot(inside)])
            if rest is False:
                break
            base = sub(base, toint(ln))
        return mkcase(alts)
    if k == "opt":
        return s.a[1]
    if k == "uninit":
        return UNDEF
    if k == "upd":
        base, j, x = s.a
        return mkcase([(eq(i, j), x), (fnot(eq(i, j)), seq_get(base, i))]) if not same(i, j) else x
    if k == "over":
        base, et, off, n, src = s.a
        sz = tsize(et)
        lo = scale(i, sz)
        inside = f_and([ge(sub(lo, off)), ge(sub(add(off, n), add(lo, sz)))])
        o = sub(lo, off)
        alts = []
        if inside is not False:
            alts.append((inside, from_bytes([seq_get(src, add(o, j)) for j in range(sz)], et)))
        if inside is not True:
            outside = f_or([ge(sub(off, add(lo, sz))), ge(sub(lo, add(off, n)))])
            alts.append((outside, seq_get(base, i)))
        return mkcase(alts)
    if k == "sub":
        return seq_get(s.a[0], add(s.a[1], i))
    if k == "bytes":
        # bytes of the elements of a typed sequence from byte offset off
        base, et, off = s.a
        return region_bytes(base, et, add(off, i), 1)[0]
    if k == "case":
        return mkcase([(c, seq_get(w, i)) for c, w in s.a])
    if k == "undef":
        return UNDEF
    if k in ("hole", "get", "fld"):
        return mkv("get", s, i)
    return unkv("elem", s, i)


def fld(v, i):
    if isk(v, "agg"):
        return v.a[1][i] if i < len(v.a[1]) else UNDEF
    if isk(v, "case"):
        return mkcase([(c, fld(w, i)) for c, w in v.a])
    if isk(v, "undef"):
        return UNDEF
    return mkv("fld", v, i)


VREBUILD["get"] = seq_get
VREBUILD["fld"] = fld
HOLE = {}


def _hole(t):
    a = is_atom(t)
    if a is not None and a.kind == "holeval":
        return HOLE[a.args[0]]
    return mkv("hole", t)


def _bhole(t):
    a = is_atom(t)
    if a is not None and a.kind == "holeval":
        return HOLE[a.args[0]]
    return form("b", "hole", t)


VREBUILD["hole"] = _hole
VREBUILD["over"] = lambda *a: mkv("over", *a)
VREBUILD["upd"] = lambda s, i, x: seq_set(s, i, x)
VREBUILD["vec"] = lambda *a: mkv("vec", *a)
BREBUILD["hole"] = _bhole


def region_bytes(cont, et, off, n):
    """n bytes from byte offset off of a sequence of elements of type et."""
    sz = tsize(et)
    if sz == 1:
        out = []
        for j in range(n):
            out += bytes_of(seq_get(cont, add(off, j)), et)
        return out
    q, r = split_div(off, sz)
    if isinstance(r, int):
        out = []
        cache = {}
        for j in range(n):
            e, o = divmod(r + j, sz)
            if e not in cache:
                cache[e] = bytes_of(seq_get(cont, add(q, e)), et)
            out.append(cache[e][o])
        return out
    return [A(atom("unk", mkv("rbyte", cont, et, add(off, j)), lo=0, hi=255)) for j in range(n)]


def seq_set(s, i, x):
    """The sequence with element i replaced."""
    if isk(s, "case"):
        return mkcase([(c, seq_set(w, i, x)) for c, w in s.a])
    if isk(s, "list") and isinstance(i, int):
        xs = s.a[0]
        if 0 <= i < len(xs):
            return seq_list(xs[:i] + (x,) + xs[i + 1:])
        return s
    if isk(s, "list") and len(s.a[0]) <= 32:
        return seq_list([mkcase([(eq(i, n), x), (fnot(eq(i, n)), y)]) for n, y in enumerate(s.a[0])])
    if isk(s, "cat") and isinstance(i, int) and isk(s.a[0][0], "list") and i < len(s.a[0][0].a[0]):
        return cat([seq_set(s.a[0][0], i, x)] + list(s.a[0][1:]))
    if isk(s, "rep") and isinstance(i, int) and isinstance(s.a[0], int):
        return seq_set(seq_list([s.a[1]] * s.a[0]), i, x)
    return mkv("upd", s, i, x)


def _upd_rebuild():
    pass


def seq_sub(s, off, n):
    """Subsequence of n elements from off."""
    if same(off, 0) and same(seqlen(s), n):
        return s
    if isk(s, "list") and isinstance(off, int) and isinstance(n, int):
        return seq_list(s.a[0][off:off + n])
    if isinstance(n, int) and n <= 64:
        return seq_list([seq_get(s, add(off, j)) for j in range(n)])
    if isk(s, "comp") or isk(s, "rep"):
        i = new_idx()
        return comp(n, seq_get(s, add(off, A(i))), i)
    i = new_idx()
    return comp(n, seq_get(s, add(off, A(i))), i)


def truncate(s, n):
    """First n elements of a content sequence."""
    if isk(s, "uninit"):
        return s
    m = seqlen(s)
    if m is not None and same(m, n):
        return s
    if isk(s, "over") or m is None:
        return s
    return seq_sub(s, 0, n)


def vec(s, n=None, cap=None):
    if n is None:
        n = seqlen(s)
        if n is None:
            n = unk(0, ISIZE_MAX)
    return mkv("vec", s, n, n if cap is None else cap)


def vec_of(v):
    """(content, length) of anything that holds a sequence."""
    if isk(v, "vec"):
        return v.a[0], v.a[1]
    if isk(v, "list") or isk(v, "comp") or isk(v, "rep") or isk(v, "cat") or isk(v, "flat") or isk(v, "filt"):
        return v, seqlen(v)
    return None, None


# ------------------------------------------------------------------ symbolic inputs
MAXELEM = {}


def symval(t, name, idx=(), E=None, st=None):
    """An arbitrary value of type t."""
    T = P.types[t]
    k = T["kind"]
    if k == "int":
        lo, hi = int_range(T)
        return fn(name, idx, lo, hi) if idx else var(name, lo, hi)
    if k == "char":
        return fn(name, idx, 0, 0x10FFFF) if idx else var(name, 0, 0x10FFFF)
    if k == "bool":
        return bat("in", name, *idx)
    if k == "float":
        return fl_sym(T["bits"], name, idx)
    if k == "array":
        e = T["elem"]
        if T["len"] <= 64:
            return seq_list([symval(e, f"{name}[{i}]", idx, E, st) for i in range(T["len"])])
        i = new_idx()
        return comp(T["len"], symval(e, name, idx + (A(i),), E, st), i)
    if k == "tuple":
        return mkv("agg", 0, tuple(symval(f, f"{name}.{i}", idx, E, st) for i, f in enumerate(T["fields"])))
    if k == "closure":
        return mkv("agg", 0, tuple(symval(f, f"{name}.{i}", idx, E, st) for i, f in enumerate(ty(T["upvars"])["fields"])))
    if k == "ref" or k == "ptr":
        to = ty(T["to"])
        if to["kind"] == "str":
            return sym_str(name, idx)
        if to["kind"] == "slice" and E is not None:
            v = symvec(to["elem"], name, idx, E, st)
            o = E.alloc(st, v)
            return mkv("ptr", o, ("buf",), to["elem"], ("r", to["elem"], False), 0, v.a[1])
        if E is not None and T["to"] is not None and to.get("kind") in ("adt", "tuple", "array", "int", "float", "bool", "char", "ref") and not idx:
            o = E.alloc(st, symval(T["to"], name, idx, E, st))
            return mkv("ptr", o, (), T["to"], "p", 0, None)
        return mkv("opq", name, *idx)
    if k == "adt":
        last = T["path"].split("::")[-1]
        if last == "String":
            return sym_str(name, idx)
        if last == "Vec":
            v = symvec(T["args"][0], name, idx, E, st)
            if not idx:
                # allocated but unused room
                v = mkv("vec", v.a[0], v.a[1], add(toint(v.a[1]), var(name + ".spare", 0, ADDR_MAX)))
            return v
        if last == "Cow" and ty(T["args"][0])["kind"] == "str":
            return agg(0, sym_str(name, idx))
        if last == "Arc" and ty(T["args"][0])["kind"] == "slice":
            v = symvec(ty(T["args"][0])["elem"], name, idx, E, st)
            return mkv("arc", E.alloc(st, v, "arc"))
        if T["adt"] == "Union":
            return mkv("un", tuple(fn(f"{name}#{j}", idx, 0, 255) if idx else var(f"{name}#{j}", 0, 255) for j in range(T["size"])))
        if T["crate"] in ("core", "alloc", "std") and last not in ("Option", "Result", "Range", "PhantomData", "Duration") and T["adt"] == "Struct" and last not in ("Wrapping",):
            return mkv("opq", name, *idx)
        vs = T["variants"]
        if T["adt"] == "Struct":
            return mkv("agg", 0, tuple(symval(f[1], f"{name}.{f[0]}", idx, E, st) for f in vs[0]["fields"]))
        if not vs:
            return UNDEF
        n = len(vs)
        tag = fn(name + "?", idx, 0, n - 1) if idx else var(name + "?", 0, n - 1)
        return mkcase([(eq(tag, i), mkv("agg", i, tuple(symval(f[1], f"{name}.{x['name']}.{f[0]}", idx, E, st) for f in x["fields"]))) for i, x in enumerate(vs)])
    if T.get("size") == 0:
        return UNIT
    return mkv("opq", name, *idx)


def symvec(e, name, idx, E, st):
    s = max(1, tsize(e) or 1)
    n = fn(name + ".len", idx, 0, ADDR_MAX // s) if idx else var(name + ".len", 0, ADDR_MAX // s)
    i = new_idx()
    return vec(comp(n, symval(e, name, idx + (A(i),), E, st), i), n)


# ------------------------------------------------------------------ states
LIM = ("lim", 0)
_dbg = {}


def in_debug_assert(span):
    """Does the span lie in the expansion of debug_assert!, debug_assert_eq! or debug_assert_ne!?"""
    r = _dbg.get(span)
    if r is None:
        r = False
        f, _, n = str(span).rpartition(":")
        if f.endswith("macros/mod.rs") and n.isdigit():
            try:
                lines = open(f).read().splitlines()[:int(n)]
            except OSError:
                lines = []
            for x in reversed(lines):
                m = re.search(r"\bmacro(?:_rules!)?\s+(\w+)", x)
                if m:
                    r = m.group(1).startswith("debug_assert")
                    break
        _dbg[span] = r
    return r


class St:
    __slots__ = ("pc", "mem")

    def __init__(self, pc=True, mem=None):
        self.pc = pc
        self.mem = mem if mem is not None else {}

    def copy(self):
        return St(self.pc, dict(self.mem))

    def assume(self, c):
        """A copy under condition c, or None if impossible."""
        if c is True:
            return self
        p = f_and([self.pc, c])
        if p is False:
            return None
        return St(p, dict(self.mem))


def lits_of(pc):
    if pc is True:
        return []
    if pc is False:
        return [False]
    return list(pc.a[0]) if pc.k == "and" else [pc]


def merge(states):
    states = [s for s in states if s is not None and s.pc is not False]
    if not states:
        return None
    if len(states) == 1:
        return states[0]
    ls = [lits_of(s.pc) for s in states]
    common = set(ls[0])
    for l in ls[1:]:
        common &= set(l)
    rels = [f_and([f for f in l if f not in common]) for l in ls]
    pc = f_and([f for f in ls[0] if f in common] + [f_or(rels)])
    mem = {}
    keys = dict.fromkeys(k for s in states for k in s.mem)
    for k in keys:
        if k is LIM or k == LIM:
            mem[k] = min(s.mem[k] for s in states if k in s.mem)
            continue
        # a cell that exists on one side only keeps its content: nothing on the other side reads it
        vs = [(r, s.mem[k]) for r, s in zip(rels, states) if k in s.mem]
        v = vs[0][1]
        mem[k] = v if all(same(w, v) for _, w in vs) else mkcase(vs)
    return St(pc, mem)


class Obl:
    """A condition that has to hold whenever control reaches the place."""
    __slots__ = ("kind", "msg", "fn", "span", "stack", "pc", "goal", "root", "status", "nk")

    def __init__(self, kind, msg, fn, span, stack, pc, goal):
        self.kind, self.msg, self.fn, self.span, self.stack, self.pc, self.goal = kind, msg, fn, span, stack, pc, goal
        self.root = None
        self.status = None


class Unsupported(Exception):
    pass


class Flags:
    """How the progress of a loop is decided in one step: by a concrete or symbolic iterator bound,
    or by a concretely decided exit test."""
    __slots__ = ("conc", "sym", "test")

    def __init__(self):
        self.conc = False
        self.sym = False
        self.test = False


MINE = ("ros_pointcloud2", "witness")


class Engine:
    def __init__(self, prog, budget=None):
        self.P = prog
        self.obls = []
        self.trivial = {}
        self.events = []
        self.frames = 0
        self.objs = 0
        self.stack = []
        self.quiet = 0
        self.flags = [Flags()]
        self.visited = {}
        self.unmodelled = {}
        self.statics = {}
        self.leaf_hooks = {}
        self.facts = True
        self.axioms = ()
        self.known = []

    # -- objects -----------------------------------------------------------------
    def alloc(self, st, v, kind="H"):
        self.objs += 1
        k = (kind, self.objs)
        st.mem[k] = v
        return k

    def getobj(self, st, o):
        v = st.mem.get(o)
        if v is None and o not in st.mem:
            if o in self.statics:
                return self.statics[o]
            return UNDEF
        return v

    def oblige(self, st, kind, msg, goal, span=None):
        if goal is True or self.quiet:
            if not self.quiet:
                self.trivial[kind] = self.trivial.get(kind, 0) + 1
            return
        f = self.stack[-1] if self.stack else ("?", "?")
        o = Obl(kind, msg, f[0], span or f[1], list(self.stack), st.pc, goal)
        o.nk = self.usable(st)
        self.obls.append(o)

    def event(self, st, kind, **kw):
        if not self.quiet:
            kw["nk"] = self.usable(st)
            self.events.append((kind, st.pc, kw, list(self.stack)))

    def usable(self, st):
        """How many of the learned facts hold here: a side that never returns may only use those
        learned before it was entered."""
        lim = st.mem.get(LIM)
        return len(self.known) if lim is None else min(lim, len(self.known))

    def require(self, st, kind, msg, goal, span=None):
        """Record an obligation and continue where it holds."""
        g = goal
        if g is not True and g is not False:
            k = known(g, set(lits_of(st.pc)))
            if k is True:
                self.oblige(st, kind, msg, True)
                return st
        self.oblige(st, kind, msg, goal, span)
        if g is False:
            return None
        self.learn(st, g)
        return st

    def learn(self, st, g, debug=False):
        """g holds wherever control passes this point in state st (it is checked there or the
        program stops): available to later proofs without becoming a branch condition."""
        if not self.quiet and g is not True:
            self.known.append((frozenset(lits_of(st.pc)), g, debug))

    def known_facts(self, pc, upto=None, debug=True):
        """Learned facts that hold under pc; debug=False leaves out what only a debug assertion
        checks, which a release build does not contain."""
        ls = set(lits_of(pc))
        return [g for l, g, d in self.known[:upto] if l <= ls and (debug or not d)]

    # -- locations ---------------------------------------------------------------
    # ('p', obj, path, ty) | ('r', ptr) | ('v', value, ty)
    def deref(self, st, v, to, raw=False, span=None):
        """Places a pointer value denotes: [(cond, loc)]."""
        if isk(v, "case"):
            out = []
            for c, w in v.a:
                for d, l in self.deref(st, w, to, raw, span):
                    out.append((f_and([c, d]), l))
            return out
        if isk(v, "ptr"):
            obj, path, pty, kind, off, meta = v.a
            if kind == "p":
                return [(True, ("p", obj, path, pty))]
            return [(True, self.norm(("r", v)))]
        if isk(v, "str") or isk(v, "opq"):
            return [(True, ("v", v, to))]
        if isk(v, "box"):
            return [(True, ("p", v.a[0], (), to))]
        if isk(v, "arc"):
            return [(True, ("p", v.a[0], (), to))]
        if isk(v, "refval"):
            return [(True, ("v", v.a[0], to))]
        return [(True, ("v", unkv("deref", v), to))]

    def norm(self, loc):
        """A thin region pointer at an element boundary is an ordinary place."""
        v = loc[1]
        obj, path, pty, kind, off, meta = v.a
        if meta is not None:
            return loc
        _, et, single = kind
        if pty == et or self.same_layout(pty, et):
            if single:
                if same(off, 0):
                    return ("p", obj, path, et)
                return loc
            s = tsize(et)
            if s == 0:
                return ("p", obj, path + (("ix", 0),), et)
            q, r = split_div(off, s)
            if isinstance(r, int) and r == 0:
                return ("p", obj, path + (("ix", q),), et)
        return loc

    def same_layout(self, a, b):
        return a == b

    def project(self, st, loc, p, frame, cty):
        """One projection step; returns (loc, type)."""
        k = p[0]
        if loc[0] == "p":
            _, obj, path, t = loc
            if k == "f":
                T = P.types[t] if t is not None else None
                if T is not None and T["kind"] == "adt" and T["adt"] == "Union":
                    return ("p", obj, path + (("u", T["variants"][0]["fields"][p[1]][2], p[2]),), p[2])
                return ("p", obj, path + (p[1],), p[2])
            if k == "d":
                return ("p", obj, path + (("v", p[1]),), t)
            if k == "i":
                idx = self.local(st, frame, p[1])
                e = P.types[t].get("elem")
                return ("p", obj, path + (("ix", toint(idx, 0, U64MAX)),), e)
            if k == "c":
                e = P.types[t].get("elem")
                n = P.types[t].get("len")
                i = n - p[1] if p[3] else p[1]
                return ("p", obj, path + (("ix", i),), e)
            if k == "s":
                e = P.types[t].get("elem")
                n = P.types[t].get("len")
                hi = n - p[2] if p[3] else p[2]
                ptr = mkv("ptr", obj, path, e, ("r", e, False), p[1] * tsize(e), hi - p[1])
                return ("r", ptr)
            if k == "o":
                return loc
        if loc[0] == "r":
            obj, path, pty, kind, off, meta = loc[1].a
            if k in ("i", "c"):
                s = tsize(pty)
                if k == "i":
                    idx = toint(self.local(st, frame, p[1]), 0, U64MAX)
                elif p[3]:
                    idx = sub(meta, p[1])
                else:
                    idx = p[1]
                return self.norm(("r", mkv("ptr", obj, path, pty, kind, add(off, scale(idx, s)), None)))
            if k == "s":
                s = tsize(pty)
                hi = sub(meta, p[2]) if p[3] else p[2]
                return ("r", mkv("ptr", obj, path, pty, kind, add(off, p[1] * s), sub(hi, p[1])))
            if k == "f":
                T = P.types[pty]
                o = T["variants"][0]["fields"][p[1]][2] if T["kind"] == "adt" else T["offsets"][p[1]]
                return self.norm(("r", mkv("ptr", obj, path, p[2], kind, add(off, o), None)))
            if k == "d":
                return loc
        if loc[0] == "v":
            if k == "f":
                return ("v", self.step(loc[1], p[1]), p[2])
            if k == "d":
                return ("v", self.step(loc[1], ("v", p[1])), loc[2])
            if k == "i":
                return ("v", seq_get(loc[1], toint(self.local(st, frame, p[1]))), None)
        return ("v", unkv("proj", str(p), fresh_id()), None)

    def resolve(self, st, frame, place, span=None):
        """[(cond, loc)] for a place."""
        local, proj = place
        body = frame.body
        locs = [(True, ("p", ("L", frame.id, local), (), body["locals"][local]))]
        for p in proj:
            out = []
            for c, loc in locs:
                if p == "*":
                    t = loc[3] if loc[0] == "p" else (loc[2] if loc[0] == "v" else None)
                    v = self.read_loc(st, loc)
                    v = self.narrow(st, v)
                    raw = t is not None and P.types[t]["kind"] == "ptr"
                    to = pointee(t) if t is not None else None
                    if raw:
                        self.check_access(st, v, tsize(to) if to is not None else None, "read", span)
                    for d, l in self.deref(st, v, to, raw, span):
                        out.append((f_and([c, d]), l))
                else:
                    out.append((c, self.project(st, loc, p, frame, None)))
            locs = out
        return locs

    def narrow(self, st, v):
        """Drop alternatives the path condition rules out."""
        if isk(v, "case"):
            ls = set(lits_of(st.pc))
            keep = []
            for c, w in v.a:
                k = known(c, ls)
                if k is True:
                    return w
                if k is None:
                    keep.append((c, w))
            if len(keep) < len(v.a) and keep:
                return mkcase(keep) if len(keep) > 1 else keep[0][1]
        return v

    def narrow_mem(self, st):
        """Drop alternatives the path condition rules out, throughout memory."""
        ls = set(lits_of(st.pc))
        if not ls:
            return st
        memo = {}

        def go(v, d):
            if not isinstance(v, V):
                if isinstance(v, Poly) and any(a.kind == "gate" for k in v.m for a in k):
                    mp = {}
                    for k in v.m:
                        for a in k:
                            if a.kind == "gate":
                                w = go(a.args[0], d)
                                if w is not a.args[0]:
                                    mp[a] = toint(w)
                    return subst_top(v, mp) if mp else v
                return v
            if v.k not in ("case", "agg", "iter", "vec", "ptr", "list") or d > 8:
                return v
            r = memo.get(v)
            if r is not None:
                return r
            if v.k == "case":
                keep = []
                r = None
                for c, w in v.a:
                    k = known(c, ls)
                    if k is True:
                        r = go(w, d + 1)
                        break
                    if k is None:
                        keep.append((c, w))
                if r is None:
                    if keep:
                        new = [(c, go(w, d + 1)) for c, w in keep]
                        r = mkcase(new) if len(keep) < len(v.a) or any(x[1] is not y[1] for x, y in zip(new, keep)) else v
                    else:
                        r = v
            elif v.k == "agg":
                fs = tuple(go(x, d + 1) for x in v.a[1])
                r = v if all(same(x, y) for x, y in zip(fs, v.a[1])) else mkv("agg", v.a[0], fs)
            elif v.k == "iter":
                fs = tuple(go(x, d + 1) for x in v.a[1])
                r = v if all(same(x, y) for x, y in zip(fs, v.a[1])) else mkv("iter", v.a[0], fs)
            elif v.k == "list":
                if len(v.a[0]) > 40:
                    return v
                fs = tuple(go(x, d + 1) for x in v.a[0])
                r = v if all(same(x, y) for x, y in zip(fs, v.a[0])) else seq_list(fs)
            else:
                fs = tuple(go(x, d + 1) if isinstance(x, (V, Poly)) else x for x in v.a)
                r = v if all(same(x, y) or x is y for x, y in zip(fs, v.a)) else mkv(v.k, *fs)
            memo[v] = r
            return r
        mem = None
        for k, v in st.mem.items():
            w = go(v, 0)
            if w is not v and not same(w, v):
                if mem is None:
                    mem = dict(st.mem)
                mem[k] = w
        return st if mem is None else St(st.pc, mem)

    def local(self, st, frame, n):
        return st.mem.get(("L", frame.id, n), UNDEF)

    def step(self, v, p):
        """One path step into a value."""
        if isk(v, "case"):
            if isinstance(p, tuple) and p[0] == "v":
                alts = [(c, w) for c, w in v.a if not (isk(w, "agg") and w.a[0] != p[1])]
                if len(alts) == 1:
                    return alts[0][1]
                return mkcase(alts)
            return mkcase([(c, self.step(w, p)) for c, w in v.a])
        if isk(v, "undef"):
            return UNDEF
        if isinstance(p, int):
            if isk(v, "agg"):
                return v.a[1][p] if p < len(v.a[1]) else UNDEF
            if isk(v, "opq"):
                return mkv("opq", v, p)
            if isk(v, "ptr") or isk(v, "box"):
                return v  # the pointer inside a pointer wrapper
            return mkv("fld", v, p)
        if p == "buf":
            return v.a[0] if isk(v, "vec") else (v if vec_of(v)[0] is not None else unkv("buf", v))
        if p[0] == "v":
            return v
        if p[0] == "ix":
            if isk(v, "vec"):
                v = v.a[0]
            return seq_get(v, p[1])
        if p[0] == "u":
            if isk(v, "un"):
                return from_bytes(list(v.a[0][p[1]:p[1] + tsize(p[2])]), p[2])
            return unkv("u", v, p[1])
        if p[0] == "it":
            return v.a[1][p[1]] if isk(v, "iter") else unkv("it", v, p[1])
        if p[0] in ("vs", "pf"):
            return v.a[p[1]] if v.k in ("vec", "ptr") else unkv("vs", v, p[1])
        raise Unsupported(str(p))

    def put(self, v, path, x, t=None):
        """Functional update of a value along a path."""
        if not path:
            return x
        p = path[0]
        if isk(v, "case"):
            if isinstance(p, tuple) and p[0] == "v":
                return mkcase([(c, self.put(w, path, x) if isk(w, "agg") and w.a[0] == p[1] else w) for c, w in v.a])
            return mkcase([(c, self.put(w, path, x)) for c, w in v.a])
        if isinstance(p, int):
            if isk(v, "agg"):
                fs = list(v.a[1])
                while len(fs) <= p:
                    fs.append(UNDEF)
                fs[p] = self.put(fs[p], path[1:], x)
                return mkv("agg", v.a[0], tuple(fs))
            if isk(v, "undef"):
                fs = [UNDEF] * (p + 1)
                fs[p] = self.put(UNDEF, path[1:], x)
                return mkv("agg", 0, tuple(fs))
            return unkv("put", v, x)
        if p == "buf":
            if isk(v, "vec"):
                return mkv("vec", self.put(v.a[0], path[1:], x), v.a[1], v.a[2])
            return self.put(v, path[1:], x)
        if p[0] == "v":
            if isk(v, "agg") and v.a[0] != p[1]:
                return v
            return self.put(v, path[1:], x)
        if p[0] == "ix":
            if isk(v, "vec"):
                return mkv("vec", self.put(v.a[0], path, x), v.a[1], v.a[2])
            return seq_set(v, p[1], self.put(seq_get(v, p[1]), path[1:], x) if len(path) > 1 else x)
        if p[0] == "u":
            bs = list(v.a[0]) if isk(v, "un") else None
            if bs is None:
                if not isk(v, "undef"):
                    return unkv("put", v, x)
                return UNDEF
            old = from_bytes(bs[p[1]:p[1] + tsize(p[2])], p[2])
            bs[p[1]:p[1] + tsize(p[2])] = bytes_of(self.put(old, path[1:], x), p[2])
            return mkv("un", tuple(bs))
        if p[0] == "it":
            fs = list(v.a[1])
            fs[p[1]] = self.put(fs[p[1]], path[1:], x)
            return mkv("iter", v.a[0], tuple(fs))
        if p[0] in ("vs", "pf"):
            fs = list(v.a)
            fs[p[1]] = self.put(fs[p[1]], path[1:], x)
            return mkv(v.k, *fs)
        raise Unsupported(str(p))

    def read_loc(self, st, loc):
        if loc[0] == "p":
            v = self.getobj(st, loc[1])
            for p in loc[2]:
                v = self.step(v, p)
            return v
        if loc[0] == "v":
            return loc[1]
        obj, path, pty, kind, off, meta = loc[1].a
        cont = self.read_loc(st, ("p", obj, path, None))
        if meta is not None:
            # a whole slice
            s = tsize(pty)
            if kind[1] == pty and not kind[2]:
                q, r = split_div(off, max(s, 1))
                return seq_sub(cont, q, meta)
            return mkv("sub", mkv("bytes", cont, kind[1], 0), off) if s == 1 else unkv("slice", loc[1])
        n = tsize(pty)
        if kind[2]:
            bs = bytes_of(cont, kind[1])
            if isinstance(off, int) and 0 <= off and off + n <= len(bs):
                return from_bytes(bs[off:off + n], pty)
            if pty == P_u8() or n == 1:
                return from_bytes([seq_get(seq_list(bs), off)], pty)
            return unkv("read", loc[1])
        return from_bytes(region_bytes(cont, kind[1], off, n), pty)

    def read(self, st, frame, place, span=None):
        locs = self.resolve(st, frame, place, span)
        if len(locs) == 1:
            return self.read_loc(st, locs[0][1])
        return mkcase([(c, self.read_loc(st, l)) for c, l in locs])

    def write_loc(self, st, loc, v, cond=True):
        if loc[0] == "p":
            _, obj, path, t = loc
            old = self.getobj(st, obj)
            if isinstance(obj, tuple) and obj[0] == "arc" and path:
                self.event(st, "shared_write", obj=obj)
            if isinstance(obj, tuple) and obj[0] == "S":
                self.event(st, "static_write", obj=obj)
                return
            if cond is True:
                st.mem[obj] = self.put(old, path, v) if path else v
            else:
                new = self.put(old, path, v) if path else v
                st.mem[obj] = mkcase([(cond, new), (fnot(cond), old)])
            return
        if loc[0] == "r":
            obj, path, pty, kind, off, meta = loc[1].a
            n = tsize(pty)
            bs = bytes_of(v, pty)
            self.write_bytes(st, loc[1], seq_list(bs), n, cond)
            return
        self.event(st, "lost_write", loc=str(loc)[:80])

    def write_bytes(self, st, ptr, src, n, cond=True):
        """Store n bytes of the byte sequence src through a region pointer."""
        obj, path, pty, kind, off, meta = ptr.a
        if isinstance(obj, tuple) and obj[0] == "arc":
            self.event(st, "shared_write", obj=obj)
        loc = ("p", obj, path, None)
        cont = self.read_loc(st, loc)
        et = kind[1]
        if kind[2]:
            bs = bytes_of(cont, et)
            if isinstance(n, int) and isinstance(off, int):
                for j in range(n):
                    if 0 <= off + j < len(bs):
                        bs[off + j] = seq_get(src, j)
                new = from_bytes(bs, et)
            else:
                new = from_bytes([mkcase([(f_and([le(off, j), lt(j, add(off, n))]), seq_get(src, sub(j, off))),
                                          (fnot(f_and([le(off, j), lt(j, add(off, n))])), b)]) for j, b in enumerate(bs)], et)
        else:
            sz = tsize(et)
            if isk(cont, "list") and len(cont.a[0]) * sz <= 256 and isinstance(off, int) and ge(sub(len(cont.a[0]) * sz - off, n)) is True:
                total = len(cont.a[0]) * sz
                bs = []
                for x in cont.a[0]:
                    bs += bytes_of(x, et)
                for j in range(total):
                    d = j - off
                    if d < 0:
                        continue
                    inside = lt(d, n) if not isinstance(n, int) else d < n
                    if inside is False:
                        continue
                    x = seq_get(src, d)
                    bs[j] = x if inside is True else mkcase([(inside, x), (fnot(inside), bs[j])])
                new = seq_list([from_bytes(bs[i * sz:(i + 1) * sz], et) for i in range(len(cont.a[0]))])
            else:
                if isk(cont, "undef"):
                    cont = mkv("uninit")
                new = mkv("over", cont, et, off, n, src)
        self.write_loc(st, loc, new, cond)

    def write(self, st, frame, place, v, span=None):
        locs = self.resolve(st, frame, place, span)
        for c, l in locs:
            self.write_loc(st, l, v, c if len(locs) > 1 else True)

    # -- pointers ----------------------------------------------------------------
    def region(self, p):
        """View a pointer to a place as a pointer into the bytes of its container."""
        if isk(p, "case"):
            return mkcase([(c, self.region(w)) for c, w in p.a])
        if not isk(p, "ptr") or p.a[3] != "p":
            return p
        obj, path, t, _, _, meta = p.a
        T = P.types[t] if t is not None else None
        if path and isinstance(path[-1], tuple) and path[-1][0] == "ix":
            return mkv("ptr", obj, path[:-1], t, ("r", t, False), scale(path[-1][1], tsize(t)), None)
        if T is not None and T["kind"] == "array":
            return mkv("ptr", obj, path, T["elem"], ("r", T["elem"], False), 0, T["len"] if meta else None)
        return mkv("ptr", obj, path, t, ("r", t, True), 0, None)

    def retype(self, p, t):
        """Pointer cast to pointee type t."""
        if isk(p, "case"):
            return mkcase([(c, self.retype(w, t)) for c, w in p.a])
        if not isk(p, "ptr"):
            return p
        if p.a[3] == "p" and p.a[2] == t:
            return p
        T = P.types[t]
        q = self.region(p)
        obj, path, _, kind, off, meta = q.a
        if T["kind"] in ("slice", "str"):
            return q
        r = mkv("ptr", obj, path, t, kind, off, None)
        l = self.norm(("r", r))
        if l[0] == "p":
            return mkv("ptr", l[1], l[2], l[3], "p", 0, None)
        return r

    def container_len(self, st, p):
        """(bytes available, initialised elements condition) behind a region pointer."""
        obj, path, pty, kind, off, meta = p.a
        if kind[2]:
            return tsize(kind[1]), tsize(kind[1])
        base = self.read_loc(st, ("p", obj, path[:-1] if path and path[-1] == "buf" else path, None))
        s = tsize(kind[1])
        base = self.narrow(st, base)
        if isk(base, "vec"):
            return scale(toint(base.a[1]), s), scale(toint(base.a[2]), s)
        n = seqlen(base)
        if n is None:
            if DEBUG:
                print('UNKLEN', p, showv(base)[:300], showv(self.getobj(st, obj))[:400])
            u = unk(0, ISIZE_MAX)
            return u, u
        return scale(toint(n), s), scale(toint(n), s)

    def check_access(self, st, v, n, mode, span=None):
        """Obligation: n bytes behind raw pointer v are inside its allocation."""
        if self.quiet:
            return
        if isk(v, "case"):
            for c, w in v.a:
                s2 = st.assume(c)
                if s2 is not None:
                    self.check_access(s2, w, n, mode, span)
            return
        if not isk(v, "ptr"):
            if not (isk(v, "str") or isk(v, "refval") or isk(v, "opq") or isk(v, "box")):
                self.oblige(st, "ub", f"{mode} through an untracked pointer", form("b", "unk", "ptr", v), span)
            return
        if v.a[3] == "p" and not (v.a[1] and isinstance(v.a[1][-1], tuple) and v.a[1][-1][0] == "ix"):
            return
        r = self.region(v)
        if r.a[3] == "p":
            return
        ln, cap = self.container_len(st, r)
        off = r.a[4]
        lim = cap if mode == "write" else ln
        if n is None:
            return
        self.oblige(st, "ub", f"{mode} of {show(n)} bytes at byte offset {show(off)} of {show(lim)} bytes stays inside", f_and([ge(off), ge(sub(lim, add(off, n)))]), span)

    # -- operands and rvalues ----------------------------------------------------
    def operand(self, st, frame, op, span=None):
        k = op[0]
        if k in ("C", "M"):
            return self.read(st, frame, op[1], span)
        if k == "K":
            return self.const(op[1])
        if k == "R":
            return "Overflow" in op[1]
        return unkv("op", str(op))

    def const(self, c):
        t, val = c["ty"], c["val"]
        return self.const_val(t, val)

    def const_val(self, t, val):
        T = P.types[t]
        if val == "zst" or not isinstance(val, dict):
            if T["kind"] == "adt" and T["adt"] == "Struct":
                return mkv("agg", 0, tuple(self.const_val(f[1], "zst") for f in T["variants"][0]["fields"]))
            if T["kind"] == "fndef":
                return mkv("fnv", t)
            return UNIT
        if "param" in val:
            return unkv("const", t)
        return self.decode(t, val["hex"], {o: a for o, a in val.get("ptrs", [])}, 0)

    def decode(self, t, hexs, ptrs, off):
        """Typed value from constant memory."""
        T = P.types[t]
        k = T["kind"]
        n = T.get("size") or 0

        def raw(o, m):
            out = []
            for j in range(o, o + m):
                b = hexs[2 * j:2 * j + 2]
                if b == "__" or b == "":
                    return None
                out.append(int(b, 16))
            return out
        if k in ("ref", "ptr"):
            to = ty(T["to"])
            if off not in ptrs:
                b = raw(off, 8)
                return mkv("opq", "addr", int_from_bytes(b, False) if b else 0)
            al = ptrs[off]
            base = int_from_bytes(raw(off, 8), False)
            if to["kind"] == "str":
                ln = int_from_bytes(raw(off + 8, 8), False)
                h = P.allocs[al].get("hex", "")
                try:
                    return s_lit(bytes.fromhex(h[2 * base:2 * (base + ln)]).decode("utf8", "replace"))
                except ValueError:
                    return unkv("strconst", al)
            if "hex" not in P.allocs[al]:
                return mkv("opq", "alloc", al)
            if to["kind"] == "slice":
                ln = int_from_bytes(raw(off + 8, 8), False)
                e = to["elem"]
                o = ("S", al, e, ln, base)
                if o not in self.statics:
                    A_ = P.allocs[al]
                    self.statics[o] = seq_list([self.decode(e, A_["hex"], {x: y for x, y in A_["ptrs"]}, base + j * tsize(e)) for j in range(ln)])
                return mkv("ptr", o, (), e, ("r", e, False), 0, ln)
            o = ("S", al, T["to"], base)
            if o not in self.statics:
                A_ = P.allocs[al]
                self.statics[o] = self.decode(T["to"], A_["hex"], {x: y for x, y in A_["ptrs"]}, base)
            return mkv("ptr", o, (), T["to"], "p", 0, None)
        if k in ("int", "float", "bool", "char"):
            b = raw(off, n)
            if b is None:
                return UNDEF
            return from_bytes(b, t)
        if k == "array":
            s = tsize(T["elem"])
            return seq_list([self.decode(T["elem"], hexs, ptrs, off + i * s) for i in range(T["len"])])
        if k == "tuple":
            return mkv("agg", 0, tuple(self.decode(f, hexs, ptrs, off + o) for f, o in zip(T["fields"], T["offsets"])))
        if k == "adt":
            last = T["path"].split("::")[-1]
            if last == "Vec" and T["crate"] == "alloc":
                return vec(seq_list([]))
            if last == "String" and T["crate"] == "alloc":
                return s_lit("")
            if T["adt"] == "Union":
                b = [raw(off + j, 1) for j in range(n)]
                return mkv("un", tuple(UNDEF if x is None else x[0] for x in b))
            if T["adt"] == "Struct":
                return mkv("agg", 0, tuple(self.decode(f[1], hexs, ptrs, off + f[2]) for f in T["variants"][0]["fields"]))
            vi = self.decode_variant(T, raw, ptrs, off)
            if vi is None:
                return unkv("constenum", t)
            return mkv("agg", vi, tuple(self.decode(f[1], hexs, ptrs, off + f[2]) for f in T["variants"][vi]["fields"]))
        return UNIT

    def decode_variant(self, T, raw, ptrs, off):
        if "tag" not in T:
            return T.get("single", 0)
        tag = T["tag"]
        n = max(1, tag["size"] // 8)
        o = off + tag["off"]
        e = tag["enc"]
        if o in ptrs:
            return e.get("untagged") if e["kind"] == "niche" else None
        b = raw(o, n)
        if b is None:
            return None
        v = int_from_bytes(b, False)
        if e["kind"] == "direct":
            for i, x in enumerate(T["variants"]):
                if x["discr"] & ((1 << (8 * n)) - 1) == v:
                    return i
            return None
        rel = (v - e["start"]) % (1 << (8 * n))
        return e["lo"] + rel if rel <= e["hi"] - e["lo"] else e["untagged"]

    def op_type(self, frame, op):
        if op[0] == "K":
            return op[1]["ty"]
        if op[0] in ("C", "M"):
            return self.place_type(frame, op[1])
        return None

    def place_type(self, frame, place):
        t = frame.body["locals"][place[0]]
        for p in place[1]:
            if p == "*":
                t = P.types[t].get("to")
                if t is None:
                    return None
            elif p[0] == "f":
                t = p[2]
            elif p[0] in ("i", "c"):
                t = P.types[t].get("elem")
            elif p[0] == "o":
                t = p[1]
        return t

    def ref(self, st, frame, place, mut, rawp=False, span=None):
        locs = self.resolve(st, frame, place, span)
        out = []
        for c, l in locs:
            if l[0] == "p":
                T = P.types[l[3]] if l[3] is not None else None
                if T is not None and T["kind"] == "slice":
                    v = self.read_loc(st, l)
                    n = v.a[1] if isk(v, "vec") else seqlen(v)
                    pth = l[2] + (("buf",) if isk(v, "vec") else ())
                    out.append((c, mkv("ptr", l[1], pth, T["elem"], ("r", T["elem"], False), 0, n)))
                elif T is not None and T["kind"] == "str":
                    out.append((c, self.read_loc(st, l)))
                else:
                    out.append((c, mkv("ptr", l[1], l[2], l[3], "p", 0, None)))
            elif l[0] == "r":
                out.append((c, l[1]))
            else:
                v = l[1]
                if isk(v, "str") and (l[2] is None or P.types[l[2]]["kind"] == "str"):
                    out.append((c, v))
                elif isk(v, "opq"):
                    out.append((c, v))
                else:
                    out.append((c, mkv("refval", v)))
        return out[0][1] if len(out) == 1 else mkcase(out)

    def rvalue(self, st, frame, rv, dty, span):
        k = rv[0]
        if k == "use":
            return self.operand(st, frame, rv[1], span)
        if k in ("ref", "addr"):
            return self.ref(st, frame, rv[2], rv[1], k == "addr", span)
        if k == "reborrow":
            return self.ref(st, frame, rv[-1], False, False, span)
        if k == "agg":
            ak = rv[1]
            ops = [self.operand(st, frame, o, span) for o in rv[2]]
            if ak[0] == "array":
                return seq_list(ops)
            if ak[0] == "adt":
                T = P.types[ak[1]]
                if T["adt"] == "Union":
                    i = ak[3]
                    f = T["variants"][0]["fields"][i]
                    bs = [UNDEF] * T["size"]
                    bs[f[2]:f[2] + tsize(f[1])] = bytes_of(ops[0], f[1])
                    return mkv("un", tuple(bs))
                return mkv("agg", ak[2] or 0, tuple(ops))
            if ak[0] == "rawptr":
                return self.fat(ops[0], ops[1])
            return mkv("agg", 0, tuple(ops))
        if k == "repeat":
            v = self.operand(st, frame, rv[1], span)
            n = rv[2]
            if isinstance(n, dict):
                n = n.get("const")
            if n is None:
                n = P.types[dty].get("len")
            return seq_list([v] * n) if n <= 256 else mkv("rep", n, v)
        if k in ("bin", "cbin"):
            a = self.operand(st, frame, rv[2], span)
            b = self.operand(st, frame, rv[3], span)
            at = self.op_type(frame, rv[2])
            return self.binop(st, rv[1], a, b, at, dty, k == "cbin", span)
        if k == "un":
            a = self.operand(st, frame, rv[2], span)
            return self.unop(st, rv[1], a, dty)
        if k == "cast":
            v = self.operand(st, frame, rv[2], span)
            return self.cast(st, rv[1], v, self.op_type(frame, rv[2]), rv[3], span)
        if k == "discr":
            v = self.read(st, frame, rv[1], span)
            t = self.place_type(frame, rv[1])
            return self.discriminant(v, t)
        if k == "len":
            locs = self.resolve(st, frame, rv[1], span)
            out = []
            for c, l in locs:
                if l[0] == "r":
                    out.append((c, l[1].a[5]))
                else:
                    v = self.read_loc(st, l)
                    n = seqlen(v)
                    out.append((c, n if n is not None else unk(0, ISIZE_MAX)))
            return mkcase(out)
        return unkv("rv", k, fresh_id())

    def fat(self, p, meta):
        if isk(p, "case"):
            return mkcase([(c, self.fat(w, meta)) for c, w in p.a])
        if isk(p, "ptr"):
            q = self.region(p)
            if isk(meta, "agg"):
                return p
            return mkv("ptr", *q.a[:5], meta)
        return p

    def discriminant(self, v, t):
        T = P.types[t] if t is not None else None

        def one(w):
            if isk(w, "agg"):
                if T is not None and T["kind"] == "adt" and T["adt"] == "Enum":
                    d = T["variants"][w.a[0]]["discr"]
                    return d if d is not None else w.a[0]
                return w.a[0]
            if isk(w, "undef"):
                return UNDEF
            n = len(T["variants"]) if T is not None and T["kind"] == "adt" else 2
            return A(atom("unk", mkv("discr", w), lo=0, hi=max(0, n - 1)))
        if isk(v, "case"):
            return mkcase([(c, one(w)) for c, w in v.a])
        return one(v)

    def unop(self, st, op, a, dty):
        T = P.types[dty]
        if op == "Not":
            if T["kind"] == "bool":
                return fnot(tobool(a))
            b = T["bits"]

            def f(x):
                if isinstance(x, int):
                    return wrap_int(~x, b, T["signed"])
                x = toint(x)
                return sub(-1, x) if T["signed"] else sub((1 << b) - 1, x)
            return lift(f, a)
        if op == "Neg":
            if T["kind"] == "float":
                return lift(lambda x: mkfl(T["bits"], ("op", "Neg", x)), a)
            return wrap_int(neg(toint(a)), T["bits"], True)
        if op == "PtrMetadata":
            def g(p):
                if isk(p, "ptr"):
                    if p.a[5] is not None:
                        return p.a[5]
                    return UNIT
                if isk(p, "str"):
                    return strlen(p)
                return unk(0, ISIZE_MAX)
            return lift(g, a)
        return unkv("un", op, a)

    CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}

    def binop(self, st, op, a, b, at, dty, checked, span):
        a = self.narrow(st, a)
        b = self.narrow(st, b)
        T = P.types[at]
        if op in self.CMP:
            return self.compare(op, a, b, T)
        if op == "Cmp":
            if T["kind"] in ("int", "char"):
                x, y = toint(a), toint(b)
                return mkcase([(lt(x, y), agg(0)), (eq(x, y), agg(1)), (lt(y, x), agg(2))])
            return unkv("cmp", a, b)
        if op == "Offset":
            return self.ptr_add(a, toint(b), 1)
        if T["kind"] == "bool":
            x, y = tobool(a), tobool(b)
            if op == "BitAnd":
                return f_and([x, y])
            if op == "BitOr":
                return f_or([x, y])
            if op == "BitXor":
                return f_or([f_and([x, fnot(y)]), f_and([fnot(x), y])])
        if T["kind"] == "float":
            return mkfl(T["bits"], ("op", op, a, b))
        if T["kind"] != "int":
            return unkv("bin", op, a, b)
        if isk(a, "undef") or isk(b, "undef"):
            return UNDEF
        bits, signed = T["bits"], T["signed"]
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            x, y = toint(a), toint(b)
            r = add(x, y) if base == "Add" else sub(x, y) if base == "Sub" else mul(x, y)
            lo, hi = int_range(T)
            ok = f_and([ge(sub(r, lo)), ge(sub(hi, r))])
            if checked or op.endswith("WithOverflow"):
                # the flag is tested by an assertion right behind; keep the exact value
                return agg(0, r, fnot(ok))
            if op.endswith("Unchecked"):
                self.oblige(st, "ub", "unchecked arithmetic stays in range", ok, span)
                return r
            if ok is True:
                return r
            k = known(ok, set(lits_of(st.pc)))
            if k is True or (not self.quiet and solve.prove(lits_of(st.pc), ok, self.axioms, 3)):
                return r
            return wrap_int(r, bits, signed)
        if base in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(base, a, b, bits, signed)
        if base in ("Shl", "Shr"):
            return self.shift(base, a, b, bits, signed)
        if base in ("Div", "Rem"):
            x, y = toint(a), toint(b)
            if isinstance(x, int) and isinstance(y, int):
                if y == 0:
                    return UNDEF
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return q if base == "Div" else x - q * y
            if signed:
                return A(atom("unk", mkv("sdiv", base, x, y), lo=int_range(T)[0], hi=int_range(T)[1]))
            return udiv(x, y) if base == "Div" else urem(x, y)
        return unkv("bin", op, a, b)

    def compare(self, op, a, b, T):
        if op in ("Gt", "Ge"):
            return self.compare("Lt" if op == "Gt" else "Le", b, a, T)
        if T["kind"] == "bool":
            x, y = tobool(a), tobool(b)
            e = f_or([f_and([x, y]), f_and([fnot(x), fnot(y)])])
            return {"Eq": e, "Ne": fnot(e), "Lt": f_and([fnot(x), y]), "Le": f_or([fnot(x), y])}[op]
        if T["kind"] in ("int", "char"):
            if op in ("Eq", "Ne"):
                if isk(a, "case") or isk(b, "case"):
                    e = lift2(lambda x, y: eq(toint(x), toint(y)), a, b) if nalts(a) * nalts(b) <= 32 else eq(toint(a), toint(b))
                    e = tobool(e)
                else:
                    e = eq(toint(a), toint(b))
                return e if op == "Eq" else fnot(e)
            if (isk(a, "case") or isk(b, "case")) and nalts(a) * nalts(b) <= 24:
                return tobool(lift2(lambda x, y: lt(toint(x), toint(y)) if op == "Lt" else le(toint(x), toint(y)), a, b))
            return lt(toint(a), toint(b)) if op == "Lt" else le(toint(a), toint(b))
        if T["kind"] == "float":
            if op == "Ne":
                return fnot(self.compare("Eq", a, b, T))
            return fcmp(op, a, b)
        if T["kind"] in ("ptr", "ref") and isk(a, "ptr") and isk(b, "ptr") and a.a[:2] == b.a[:2]:
            x, y = a.a[4], b.a[4]
            if op in ("Eq", "Ne"):
                return eq(x, y) if op == "Eq" else fnot(eq(x, y))
            return lt(x, y) if op == "Lt" else le(x, y)
        return form("b", "unk", "cmp" + op, a, b)

    def bitop(self, op, a, b, bits, signed):
        n = bits // 8

        def byte(x, y):
            if isk(x, "undef") or isk(y, "undef"):
                return UNDEF
            if isinstance(x, int) and isinstance(y, int):
                return x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y
            for p, q in ((x, y), (y, x)):
                if p == 0 and isinstance(p, int):
                    return 0 if op == "BitAnd" else q
                if p == 255 and isinstance(p, int):
                    if op == "BitAnd":
                        return q
                    if op == "BitOr":
                        return 255
                    return sub(255, toint(q))
            if same(x, y):
                return 0 if op == "BitXor" else x
            x, y = toint(x, 0, 255), toint(y, 0, 255)
            if op == "BitAnd":
                for p, q in ((x, y), (y, x)):
                    if isinstance(p, int) and p & (p + 1) == 0:
                        return urem(q, p + 1)
            ks = sorted([x, y], key=lambda z: (isinstance(z, int), z if isinstance(z, int) else z.id))
            return A(atom("bit", op, ks[0], ks[1], lo=0, hi=255))
        xs = [byte_of(a, i, n) for i in range(n)]
        ys = [byte_of(b, i, n) for i in range(n)]
        out = [byte(x, y) for x, y in zip(xs, ys)]
        return int_from_bytes(out, signed)

    def shift(self, op, a, b, bits, signed):
        n = bits // 8
        b = self_int(b)
        if isinstance(b, int):
            b %= bits
            if isinstance(a, int):
                if op == "Shl":
                    return wrap_int(a << b, bits, signed)
                return a >> b
            if b % 8 == 0 and not (signed and op == "Shr"):
                m = b // 8
                bs = [byte_of(a, i, n) for i in range(n)]
                if op == "Shl":
                    return int_from_bytes([0] * m + bs[:n - m], signed)
                return int_from_bytes(bs[m:] + [0] * m, signed)
            if op == "Shl":
                return wrap_int(scale(toint(a), 1 << b), bits, signed)
            if not signed:
                return udiv(toint(a), 1 << b)
        return A(atom("unk", mkv("shift", op, a, b), lo=-(1 << (bits - 1)) if signed else 0, hi=(1 << (bits - 1 if signed else bits)) - 1))

    def cast(self, st, kind, v, ft, t, span):
        F_ = P.types[ft] if ft is not None else None
        T = P.types[t]
        v = self.narrow(st, v)
        if kind == "IntToInt":
            def f(x):
                if isbool(x):
                    x = ind(x) if not isinstance(x, bool) else int(x)
                if isk(x, "undef"):
                    return UNDEF
                if T["kind"] == "char":
                    return toint(x)
                return wrap_int(toint(x), T["bits"], T["signed"])
            return lift(f, v)
        if kind == "FloatToFloat":
            def g(x):
                if F_["bits"] == T["bits"]:
                    return x
                if isk(x, "fl") and x.a[1][0] == "cvt" and F_["bits"] > T["bits"] and x.a[1][1].a[0] == T["bits"]:
                    return x.a[1][1]
                return mkfl(T["bits"], ("cvt", x))
            return lift(g, v)
        if kind == "IntToFloat":
            return lift(lambda x: mkfl(T["bits"], ("int", x)), v)
        if kind == "FloatToInt":
            lo, hi = int_range(T)
            return A(atom("fti", v, T["bits"], T["signed"], lo=lo, hi=hi))
        if kind in ("PtrToPtr",):
            to = T["to"]
            return self.retype(v, to)
        if kind == "Transmute":
            return self.transmute(st, v, ft, t)
        if kind.startswith("PointerCoercion") or "Unsize" in kind:
            if "Unsize" in kind:
                return self.unsize(st, v, ft, t)
            if T["kind"] in ("ptr", "ref") and F_["kind"] in ("ptr", "ref"):
                if "ArrayToPointer" in kind:
                    return self.retype(v, T["to"])
                return v
            return v
        if "Unsize" in str(kind):
            return self.unsize(st, v, ft, t)
        if T["kind"] in ("ptr", "ref") and isinstance(v, V):
            return v
        return unkv("cast", str(kind), v)

    def unsize(self, st, v, ft, t):
        F_, T = P.types[ft], P.types[t]
        if F_["kind"] in ("ref", "ptr") and P.types[F_["to"]]["kind"] == "array" and P.types[T["to"]]["kind"] == "slice":
            n = P.types[F_["to"]]["len"]
            e = P.types[F_["to"]]["elem"]

            def f(p):
                if isk(p, "ptr"):
                    if p.a[3] == "p":
                        return mkv("ptr", p.a[0], p.a[1], e, ("r", e, False), 0, n)
                    return mkv("ptr", p.a[0], p.a[1], e, p.a[3], p.a[4], n)
                if isk(p, "refval"):
                    o = self.alloc(st, p.a[0])
                    return mkv("ptr", o, (), e, ("r", e, False), 0, n)
                return p
            return lift(f, v)
        return v

    def transmute(self, st, v, ft, t):
        F_, T = P.types[ft], P.types[t]
        if ft == t:
            return v
        if F_["kind"] in ("ptr", "ref") or T["kind"] in ("ptr", "ref"):
            if T["kind"] in ("ptr", "ref") and isk(v, "ptr"):
                return v
            if T["kind"] in ("ptr", "ref") and isk(v, "agg") and len(v.a[1]) >= 1:
                return self.transmute(st, v.a[1][0], field_ty(ft, 0, 0), t)
            if T["kind"] == "adt" and isk(v, "ptr"):
                return v
            return unkv("transmute", v)
        if tsize(ft) == tsize(t) and tsize(t) is not None and tsize(t) <= 4096:
            bs = bytes_of(v, ft)
            return from_bytes(bs, t)
        return unkv("transmute", v)

    def ptr_add(self, p, n, sizemul):
        if isk(p, "case"):
            return mkcase([(c, self.ptr_add(w, n, sizemul)) for c, w in p.a])
        if not isk(p, "ptr"):
            return p if isk(p, "unk") else unkv("ptradd", p, n)
        t = p.a[2]
        q = self.region(p)
        obj, path, pty, kind, off, meta = q.a
        if p.a[3] == "p":
            pty = t
        return self.renorm(mkv("ptr", obj, path, pty, kind, add(off, scale(n, tsize(pty)) if not isinstance(n, int) else n * tsize(pty)), None))

    def renorm(self, p):
        l = self.norm(("r", p))
        if l[0] == "p":
            return mkv("ptr", l[1], l[2], l[3], "p", 0, None)
        return p

    # -- control flow ------------------------------------------------------------
    def call_inst(self, st, i, args, span=None, argtys=None, destty=None):
        """Outcomes [(state, value)] of calling instance i."""
        import models
        inst = P.insts[i]
        self.visited[i] = self.visited.get(i, 0) + 1
        hook = self.leaf_hooks.get(inst["path"])
        if hook:
            return hook(self, st, inst, args)
        m = None
        if inst["crate"] not in MINE:
            m = models.lookup(inst)
        if m is not None:
            r = m(self, st, inst, args, argtys, destty, span)
            if r is not None:
                return [(s, v) for s, v in r if s is not None and s.pc is not False]
        if "body" in inst:
            return self.exec_body(st, i, args, span, argtys)
        return self.unknown_call(st, inst["name"], args, span, argtys, destty)

    def unknown_call(self, st, name, args, span, argtys, destty):
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        self.event(st, "unmodelled", name=name, span=span)
        st = st.copy()
        for n, a in enumerate(args):
            self.havoc(st, a)
        v = unkv("call", name, fresh_id())
        if destty is not None:
            v = self.unk_of(destty)
        return [(st, v)]

    def unk_of(self, t):
        T = P.types[t]
        if T["kind"] == "int":
            lo, hi = int_range(T)
            return unk(lo, hi)
        if T["kind"] == "bool":
            return unkb()
        if T["kind"] == "tuple" and not T["fields"]:
            return UNIT
        return unkv()

    def havoc(self, st, a):
        """Forget what a mutable argument may have been changed to."""
        if isk(a, "ptr"):
            obj = a.a[0]
            if obj in st.mem and not (isinstance(obj, tuple) and obj[0] == "S"):
                for c, l in self.deref(st, a, None):
                    if l[0] == "p":
                        try:
                            self.write_loc(st, l, unkv("havoc", fresh_id()))
                        except Unsupported:
                            st.mem[obj] = unkv("havoc", fresh_id())
                    else:
                        st.mem[obj] = unkv("havoc", fresh_id())
        elif isk(a, "agg") or isk(a, "iter"):
            for x in a.a[1]:
                self.havoc(st, x)
        elif isk(a, "case"):
            for c, w in a.a:
                self.havoc(st, w)

    def exec_body(self, st, i, args, span=None, argtys=None):
        inst = P.insts[i]
        body = inst["body"]
        if len(self.stack) > 80:
            raise Unsupported("recursion")
        if sum(1 for f in self.stack if f[2] == i) > 3:
            return self.unknown_call(st, inst["name"], args, span, None, body["locals"][0])
        fr = Frame(self, i, body)
        argc = body["argc"]
        if len(args) != argc:
            if len(args) >= 1 and isk(args[-1], "agg"):
                args = list(args[:-1]) + list(args[-1].a[1])
            if len(args) != argc:
                raise Unsupported("arity of " + inst["name"])
        st = st.copy()
        for n, a in enumerate(args):
            st.mem[("L", fr.id, n + 1)] = a
        self.stack.append((inst["path"], inst.get("span"), i, span))
        try:
            exits = self.region_run(fr, fr.all, 0, [st], loop=False)
        finally:
            self.stack.pop()
        outs = []
        for s in exits.get("ret", []):
            v = s.mem.get(("L", fr.id, 0), UNIT if tsize(body["locals"][0]) == 0 else UNDEF)
            m = {k: x for k, x in s.mem.items() if not (k[0] == "L" and k[1] == fr.id)}
            outs.append((St(s.pc, m), v))
        return self.group(outs, body["locals"][0])

    def group(self, outs, t):
        """Merge return states, keeping different variants of small enums apart."""
        if len(outs) <= 1:
            return outs
        groups = {}
        T = P.types[t] if t is not None else None
        split = T is not None and T["kind"] == "adt" and T["adt"] == "Enum" and len(T["variants"]) <= 3
        flat = []
        for s, v in outs:
            if split and isk(v, "case"):
                v = self.narrow(s, v)
            if split and isk(v, "case") and all(isk(w, "agg") for _, w in v.a):
                for c, w in v.a:
                    s2 = s.assume(c)
                    if s2 is not None:
                        flat.append((self.narrow_mem(s2) if s2 is not s else s2, w))
            else:
                flat.append((s, v))
        for s, v in flat:
            key = v.a[0] if split and isk(v, "agg") else None
            groups.setdefault(key, []).append((s, v))
        out = []
        for key, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            R = ("R", fresh_id())
            ss = []
            for s, v in g:
                s = s.copy()
                s.mem[R] = v
                ss.append(s)
            m = merge(ss)
            v = m.mem.pop(R)
            out.append((m, v))
        return out

    def region_run(self, fr, blocks, entry, states, loop):
        """Run the sub-graph from entry; returns exits {target or 'ret': [states]}."""
        order = fr.sccs(blocks, entry, loop)
        pending = {entry: list(states)}
        exits = {}

        def dispatch(target, s):
            if target == "ret" or target not in blocks or (loop and target == entry):
                exits.setdefault(target, []).append(s)
            else:
                pending.setdefault(target, []).append(s)

        for comp_, is_loop in order:
            if not is_loop:
                b, = comp_
                ss = pending.pop(b, None)
                if not ss:
                    continue
                if len(ss) > 1 and (len(fr.preds[b]) > 1 or len(ss) > 6):
                    ss = [merge(ss)]
                for s in ss:
                    if s is None:
                        continue
                    for target, s2 in self.exec_block(fr, b, s):
                        dispatch(target, s2)
            else:
                heads = [b for b in comp_ if pending.get(b)]
                if not heads:
                    continue
                h = heads[0]
                st0 = merge([s for b in heads for s in pending.pop(b)])
                cs = frozenset(comp_)

                def stepf(s, cs=cs, h=h):
                    fr.loops.append((cs, len(self.flags)))
                    try:
                        ex = self.region_run(fr, cs, h, [s], loop=True)
                    finally:
                        fr.loops.pop()
                    out = []
                    for tgt, l in ex.items():
                        m = [merge(l)] if tgt == h else l
                        for x in m:
                            if x is not None:
                                out.append(("cont" if tgt == h else tgt, x))
                    return out
                for tgt, s in self.loop(st0, stepf):
                    dispatch(tgt, s)
        return exits

    def exec_block(self, fr, b, st):
        stmts, term = fr.body["blocks"][b]
        st = st.copy()
        f = self.stack[-1]
        for s in stmts:
            k = s[0]
            span = s[3] if k == "=" else (s[-1] if isinstance(s[-1], str) else None)
            if k == "=":
                v = self.rvalue(st, fr, s[2], s[4], span)
                self.write(st, fr, s[1], v, span)
            elif k == "sd":
                v = self.read(st, fr, s[1])
                fs = v.a[1] if isk(v, "agg") else ()
                self.write(st, fr, s[1], mkv("agg", s[2], fs))
            elif k == "cno":
                src = self.operand(st, fr, s[1])
                dst = self.operand(st, fr, s[2])
                n = self.operand(st, fr, s[3])
                self.copy_nonoverlapping(st, src, dst, toint(n), s[4] if len(s) > 4 else None)
            elif k == "assume":
                c = tobool(self.operand(st, fr, s[1]))
                st2 = st.assume(c)
                if st2 is None:
                    return []
                st = st2.copy() if st2 is st else st2
        return self.terminator(fr, b, st, term)

    def terminator(self, fr, b, st, t):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k == "drop":
            # ["drop", place, target, ...]
            tgt = [x for x in t[1:] if isinstance(x, int)]
            return [(tgt[0], st)] if tgt else []
        if k in ("resume", "abort"):
            return []
        if k == "unreachable":
            return []
        if k == "switch":
            v = self.narrow(st, self.operand(st, fr, t[1], t[5] if len(t) > 5 else None))
            out = []
            neg_ = []
            decided = True
            if isbool(v) and not isinstance(v, bool) and P.types[t[4]]["kind"] == "bool":
                live = self.live_side(fr, t)
                if live is not None:
                    c, tgt, dead = live
                    c = v if c else fnot(v)
                    s2 = st.assume(fnot(c))
                    out = [(tgt, st)]
                    if s2 is not None:
                        s2 = s2.copy()
                        s2.mem.setdefault(LIM, len(self.known))
                        out.append((dead, s2))
                    self.learn(st, c, self.debug_only(fr, b))
                    self.note_switch(fr, b, {tgt, dead}, {x for x, _ in out}, False)
                    return out
            for val, tgt in t[2]:
                c = int_eq(v, val) if not isk(v, "undef") else unkb()
                if P.types[t[4]]["kind"] == "int" and P.types[t[4]].get("signed"):
                    pass
                s2 = st.assume(f_and([c] + []))
                if c is not False and c is not True:
                    decided = False
                if s2 is not None and c is not False:
                    out.append((tgt, s2))
                neg_.append(fnot(c))
                if c is True:
                    break
            if t[3] is not None and not any(n is False for n in neg_):
                s2 = st.assume(f_and(neg_))
                if s2 is not None:
                    out.append((t[3], s2))
            tgts = {x for x, _ in out}
            allt = {x for _, x in t[2]} | {t[3]}
            self.note_switch(fr, b, allt, tgts, decided)
            return out
        if k == "assert":
            c = tobool(self.operand(st, fr, t[1], t[5]))
            want = c if t[2] else fnot(c)
            kind = t[3] if isinstance(t[3], str) else str(t[3])
            cat_ = "bounds" if kind == "bounds" else "overflow" if "verflow" in kind else "panic"
            st2 = self.require(st, cat_, f"assertion ({kind})", want, t[6] if len(t) > 6 else None)
            if st2 is None:
                return []
            st2 = self.settle(st2, fr)
            tgt = t[5]
            return [(tgt, st2)]
        if k == "call":
            callee, args, dest, target, span = t[1], t[2], t[3], t[4], t[5]
            argtys = t[6] if len(t) > 6 else None
            destty = t[7] if len(t) > 7 else None
            vals = [self.narrow(st, self.operand(st, fr, a, span)) for a in args]
            outs = self.do_call(st, fr, callee, vals, span, argtys, destty)
            res = []
            for s, v in outs:
                if s is None or s.pc is False or target is None:
                    continue
                s = s.copy()
                self.write(s, fr, dest, v, span)
                res.append((target, s))
            return res
        raise Unsupported("terminator " + k)

    def live_side(self, fr, t):
        """(value, target, other) for a two-way test one side of which never returns."""
        if len(t[2]) != 1 or t[3] is None:
            return None
        val, a = t[2][0]
        b = t[3]
        dead = P.scc_cache[fr.inst][4]
        if (a in dead) == (b in dead):
            return None
        if b in dead:
            return bool(val), a, b
        return not bool(val), b, a

    def debug_only(self, fr, b):
        """Is block b inside a debug_assert?"""
        for _ in range(16):
            t = fr.body["blocks"][b][1]
            if t[0] == "switch" and len(t) > 5 and in_debug_assert(t[5]):
                return True
            ps = set(fr.preds[b])
            if len(ps) != 1:
                return False
            b = next(iter(ps))
        return False

    def settle(self, st, fr):
        return st

    def note_switch(self, fr, b, allt, tgts, decided):
        """Progress information for the loop around block b."""
        if not fr.loops:
            return
        lp, depth = fr.loops[-1]
        if decided and depth == len(self.flags) and any(x not in lp for x in allt) and any(x in lp for x in allt):
            self.flags[-1].test = True

    def do_call(self, st, fr, callee, vals, span, argtys, destty):
        if "inst" in callee:
            return self.call_inst(st, callee["inst"], vals, span, argtys, destty)
        if "indirect" in callee:
            f = self.operand(st, fr, callee["indirect"])
            if isk(f, "fnv"):
                T = P.types[f.a[0]]
                if "inst" in T:
                    return self.call_inst(st, T["inst"], vals, span, argtys, destty)
            return self.unknown_call(st, "indirect", vals, span, argtys, destty)
        import models
        m = models.lookup_path(callee.get("path", ""))
        if m is not None:
            r = m(self, st, {"path": callee["path"], "args": callee.get("args", []), "name": callee["path"]}, vals, argtys, destty, span)
            if r is not None:
                return r
        return self.unknown_call(st, callee.get("path", "?"), vals, span, argtys, destty)

    # -- closures ----------------------------------------------------------------
    def call_value(self, st, f, fty, args, span=None):
        """Call a function item or closure value; [(state, result, closure')]."""
        T = P.types[fty] if fty is not None else None
        while T is not None and T["kind"] == "ref":
            # calling through a reference
            to = T["to"]
            tt = P.types[to]
            if tt["kind"] == "closure":
                body = P.insts[tt["inst"]].get("body") if tt.get("inst") is not None else None
                if body is None:
                    break
                if P.types[body["locals"][1]]["kind"] == "ref":
                    return [(s, r, f) for s, r in self.call_inst(st, tt["inst"], [f] + list(args), span)]
                v = self.read_ptr(st, f, to)
                return [(s, r, f) for s, r in self.call_inst(st, tt["inst"], [v] + list(args), span)]
            f2 = self.read_ptr(st, f, to)
            return [(s, r, f) for s, r, _ in self.call_value(st, f2, to, args, span)]
        if T is not None and T["kind"] == "fndef":
            if T.get("inst") is None:
                return [(s, r, f) for s, r in self.unknown_call(st, T["path"], args, span, None, None)]
            return [(s, r, f) for s, r in self.call_inst(st, T["inst"], list(args), span)]
        if T is not None and T["kind"] == "closure":
            inst = T.get("inst")
            if inst is None or "body" not in P.insts[inst]:
                return [(s, r, f) for s, r in self.unknown_call(st, "closure", args, span, None, None)]
            body = P.insts[inst]["body"]
            if P.types[body["locals"][1]]["kind"] == "ref":
                st = st.copy()
                o = self.alloc(st, f)
                p = mkv("ptr", o, (), fty, "p", 0, None)
                out = []
                for s, r in self.call_inst(st, inst, [p] + list(args), span):
                    f2 = s.mem.pop(o, f)
                    out.append((s, r, f2))
                return out
            return [(s, r, f) for s, r in self.call_inst(st, inst, [f] + list(args), span)]
        if isk(f, "fnv"):
            T2 = P.types[f.a[0]]
            if T2.get("inst") is not None:
                return [(s, r, f) for s, r in self.call_inst(st, T2["inst"], list(args), span)]
        return [(s, r, f) for s, r in self.unknown_call(st, "fn value", args, span, None, None)]

    def read_ptr(self, st, p, to=None):
        p = self.narrow(st, p)
        ls = self.deref(st, p, to)
        return mkcase([(c, self.read_loc(st, l)) for c, l in ls])

    def write_ptr(self, st, p, v):
        ls = self.deref(st, p, None)
        for c, l in ls:
            self.write_loc(st, l, v, c if len(ls) > 1 else True)

    def copy_nonoverlapping(self, st, src, dst, n, span=None):
        """n elements of the pointee type."""
        src = self.narrow(st, src)
        dst = self.narrow(st, dst)
        if isk(src, "case") or isk(dst, "case") or not isk(src, "ptr") or not isk(dst, "ptr"):
            self.oblige(st, "ub", "copy through an untracked pointer", form("b", "unk", "copy", src, dst), span)
            self.havoc(st, dst)
            return
        sz = tsize(src.a[2])
        nb = scale(n, sz)
        self.check_access(st, src, nb, "read", span)
        self.check_access(st, dst, nb, "write", span)
        rs, rd = self.region(src), self.region(dst)
        cont = self.read_loc(st, ("p", rs.a[0], rs.a[1], None))
        if rs.a[3][2]:
            seq = mkv("sub", seq_list(bytes_of(cont, rs.a[3][1])), rs.a[4]) if not same(rs.a[4], 0) else seq_list(bytes_of(cont, rs.a[3][1]))
        elif tsize(rs.a[3][1]) == 1 and P.types[rs.a[3][1]]["kind"] == "int" and not P.types[rs.a[3][1]]["signed"]:
            seq = mkv("sub", cont, rs.a[4]) if not same(rs.a[4], 0) else cont
        else:
            seq = mkv("bytes", cont, rs.a[3][1], rs.a[4])
        self.event(st, "copy", src=rs, dst=rd, n=nb, span=span)
        self.write_bytes(st, rd, seq, nb)

    # -- loops -------------------------------------------------------------------
    def loop(self, st0, step, limit=300):
        """Outcomes of repeating step until no state continues: [(tag, state)]."""
        self.flags.append(Flags())
        try:
            return self._loop(st0, step, limit)
        finally:
            self.flags.pop()

    def _loop(self, st0, step, limit):
        exits = []
        st = st0
        n = 0
        mark_o, mark_e, mark_k = len(self.obls), len(self.events), len(self.known)
        while True:
            fl = self.flags[-1]
            fl.conc = fl.sym = fl.test = False
            outs = step(st)
            cont = merge([s for t, s in outs if t == "cont"])
            if cont is None:
                exits += [(t, s) for t, s in outs if t != "cont"]
                return exits
            if n == 0 and not fl.conc and (fl.sym or not fl.test):
                # symbolic progress: summarise from the start
                del self.obls[mark_o:]
                del self.events[mark_e:]
                del self.known[mark_k:]
                r = self.summarise(st0, step)
                if r is not None:
                    return r
                raise Unsupported("loop")
            exits += [(t, s) for t, s in outs if t != "cont"]
            st = cont
            n += 1
            if n > limit:
                raise Unsupported("unrolling limit")

    def summarise(self, st0, step):
        import loops
        return loops.summarise(self, st0, step)


class Frame:
    __slots__ = ("id", "inst", "body", "all", "preds", "loops")

    def __init__(self, E, inst, body):
        E.frames += 1
        self.id = E.frames
        self.inst = inst
        self.body = body
        info = P.scc_cache.get(inst)
        if info is None:
            info = cfg_info(body)
            P.scc_cache[inst] = info
        self.all, self.preds = info[0], info[1]
        self.loops = []

    def sccs(self, blocks, entry, loop):
        key = (blocks, entry, loop)
        info = P.scc_cache[self.inst]
        r = info[3].get(key)
        if r is None:
            r = tarjan(blocks, entry, info[2], loop)
            info[3][key] = r
        return r


def succs(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "switch":
        return [t for _, t in term[2]] + ([term[3]] if term[3] is not None else [])
    if k == "drop":
        return [x for x in term[1:] if isinstance(x, int)][:1]
    if k == "call":
        return [term[4]] if term[4] is not None else []
    if k == "assert":
        return [term[5]]
    return []


def cfg_info(body):
    bl = body["blocks"]
    sc = {b: succs(t) for b, (_, t) in enumerate(bl)}
    seen = {0}
    work = [0]
    while work:
        b = work.pop()
        for s in sc[b]:
            if s not in seen:
                seen.add(s)
                work.append(s)
    preds = {b: [] for b in seen}
    for b in seen:
        for s in sc[b]:
            preds[s].append(b)
    ok = {b for b in seen if bl[b][1][0] == "return"}
    work = list(ok)
    while work:
        for p in preds[work.pop()]:
            if p not in ok:
                ok.add(p)
                work.append(p)
    return (frozenset(seen), preds, sc, {}, frozenset(seen - ok))


def tarjan(blocks, entry, sc, loop):
    """Strongly connected components in topological order (edges into a loop's entry removed)."""
    index = {}
    low = {}
    on = set()
    stack = []
    out = []
    n = [0]

    def edges(b):
        return [s for s in sc[b] if s in blocks and not (loop and s == entry)]

    def visit(v):
        work = [(v, iter(edges(v)))]
        index[v] = low[v] = n[0]
        n[0] += 1
        stack.append(v)
        on.add(v)
        while work:
            u, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = n[0]
                    n[0] += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(edges(w))))
                    adv = True
                    break
                elif w in on:
                    low[u] = min(low[u], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[u])
            if low[u] == index[u]:
                c = []
                while True:
                    w = stack.pop()
                    on.discard(w)
                    c.append(w)
                    if w == u:
                        break
                is_loop = len(c) > 1 or u in edges(u)
                out.append((c, is_loop))
    visit(entry)
    out.reverse()
    return out


def subst_top(p, mp):
    """Replace top-level atoms of a polynomial."""
    r = 0
    for k, c in p.m.items():
        t = c
        for a in k:
            t = mul(t, mp.get(a, A(a)))
        r = add(r, t)
    return r


def self_int(b):
    return b if isint(b) else toint(b)


def udiv(x, y):
    if isinstance(x, int) and isinstance(y, int) and y:
        return x // y
    if isinstance(y, int) and y == 1:
        return x
    if isinstance(y, int) and y > 0:
        q, r = split_div(x, y)
        lo, hi = interval(r)
        if lo is not None and hi is not None and lo >= 0 and hi < y:
            return q
        b = byte_shift(y)
        a = is_atom(x)
        if b and a is not None and a.kind == "le" and not a.args[0]:
            return int_from_bytes(list(a.args[1 + b:]) + [0] * b, False)
    if not isinstance(y, int) and isinstance(x, Poly):
        # exact multiples
        ya = is_atom(y)
        if ya is not None and all(ya in k for k in x.m):
            q = {}
            for k, v in x.m.items():
                l = list(k)
                l.remove(ya)
                q[tuple(l)] = v
            if ya.lo is not None and ya.lo > 0:
                return mk(q)
    lo, hi = interval(x)
    return A(atom("div", x, y, lo=0, hi=hi if hi is not None else U64MAX))


def byte_shift(y):
    n = 0
    while y > 1 and y % 256 == 0:
        y //= 256
        n += 1
    return n if y == 1 else 0


def urem(x, y):
    if isinstance(x, int) and isinstance(y, int) and y:
        return x % y
    if isinstance(y, int) and y > 0:
        lo, hi = interval(x)
        if lo is not None and hi is not None and lo >= 0 and hi < y:
            return x
        q, r = split_div(x, y)
        lo, hi = interval(r)
        if lo is not None and hi is not None and lo >= 0 and hi < y:
            return r
        b = byte_shift(y)
        a = is_atom(x)
        if b and a is not None and a.kind == "le" and not a.args[0]:
            return int_from_bytes(list(a.args[1:1 + b]) + [0] * (len(a.args) - 1 - b), False)
    hi = y - 1 if isinstance(y, int) and y > 0 else None
    if hi is None:
        yl, yh = interval(y)
        hi = yh - 1 if yh is not None and yh > 0 else U64MAX
    return A(atom("rem", x, y, lo=0, hi=hi))


REBUILD["div"] = lambda a, args: udiv(*args)
REBUILD["rem"] = lambda a, args: urem(*args)


def strlen(v):
    if isk(v, "case"):
        return mkcase([(c, strlen(w)) for c, w in v.a])
    if isk(v, "str") and v.a[0][0] == "lit":
        return len(v.a[0][1].encode())
    return A(atom("slen", v, lo=0, hi=ISIZE_MAX))


REBUILD["slen"] = lambda a, args: toint(strlen(args[0]))


def P_u8():
    for i, t in enumerate(P.types):
        if t["kind"] == "int" and t["bits"] == 8 and not t["signed"]:
            return i
