"""Histories of a point iterator: conversion of a message, any number of steps from either end,
splits, again steps. The state after a symbolic number of steps is the closed form of a loop over
the step function, so every statement holds for all step counts at once."""
from common import *
from models import mark, refto


class Iter:
    """An iterator in memory."""

    def __init__(self, mod, E, st, key, ty):
        self.mod, self.E, self.st, self.key, self.ty = mod, E, st, key, ty

    def ptr(self):
        return mkv("ptr", self.key, (), self.ty, "p", 0, None)

    def value(self):
        return self.st.mem[self.key]

    def at(self, st):
        return Iter(self.mod, self.E, st, self.key, self.ty)

    def put(self, v, st=None):
        st = (st or self.st).copy()
        key = ("T", fresh_id())
        st.mem[key] = v
        return Iter(self.mod, self.E, st, key, self.ty)

    def call(self, op, st=None, args=(), value=False):
        st = st or self.st
        i = root(f"{self.mod}::{op}")
        outs = self.E.exec_body(st, i, [st.mem[self.key] if value else self.ptr(), *args])
        return group(self.E, outs, prog().insts[i]["body"]["locals"][0])

    def step(self, op, *args):
        """[(kind, state, item)] of one step."""
        out = []
        for s, v in self.call(op, args=args):
            for c, w in alts(v):
                s2 = s.assume(c)
                if s2 is None:
                    continue
                s2 = self.E.narrow_mem(s2)
                if isk(w, "agg") and w.a[0] == 0:
                    out.append(("none", s2, None))
                elif isk(w, "agg"):
                    out.append(("item", s2, w.a[1][0]))
                else:
                    out.append(("?", s2, w))
        return out

    def steps(self, op, count):
        """The iterator after exactly count successful steps, and states in which it ended early.
        Returns ([iterators], [states])."""
        E = self.E
        C = ("T", fresh_id())
        st = self.st.copy()
        st.mem[C] = 0
        me = self

        def one(s):
            out = []
            mark(E, 0, count)
            j = toint(s.mem[C])
            done = s.assume(ge(j, count) if not isinstance(count, int) else ge(sub(j, count))) if False else s.assume(ge(sub(j, count)))
            go = s.assume(lt(j, count))
            if done is not None:
                out.append(("done", done))
            if go is not None:
                for k, s2, x in me.at(go).step(op):
                    if k == "item":
                        s2 = s2.copy()
                        s2.mem[C] = add(j, 1)
                        out.append(("cont", s2))
                    else:
                        out.append(("none", s2))
            return out
        done, ended = [], []
        for t, s in E.loop(st, one):
            s = E.narrow_mem(s)
            if t == "done":
                done.append(self.at(s))
            else:
                ended.append(s)
        return done, ended

    def split(self, at, via="it_split"):
        """[(state, left, right)]"""
        E = self.E
        i = root(f"{self.mod}::{via}")
        out = []
        for s, v in E.exec_body(self.st, i, [self.value(), at]):
            v = E.narrow(s, v)
            l = self.put(fld(v, 0), s)
            r = self.put(fld(v, 1), l.st)
            out.append((s, l.at(r.st), r))
        return out


def group(E, outs, t):
    outs = [(s, v) for s, v in outs if s is not None and s.pc is not False]
    return E.group([(s, v) for s, v in outs], t) if len(outs) > 1 or any(isk(v, "case") for _, v in outs) else outs


def start(mod, E=None):
    """(engine, message value, message type, [(state, iterator)], [(state, error)])"""
    E = E or engine()
    st = St()
    name = mod + "::into_iter"
    tys, rt = root_tys(name)
    m = symval(tys[0], "a0", (), E, st)
    outs = E.exec_body(st, root(name), [m])
    good, bad = [], []
    it_ty = prog().types[rt]["variants"][0]["fields"][0][1]
    for s, v in E.group(list(outs), rt) if len(outs) > 1 else [x for s, v in outs for x in split_result(E, s, v)]:
        v = E.narrow(s, v)
        if isk(v, "agg") and v.a[0] == 0:
            s = E.narrow_mem(s).copy()
            key = ("T", fresh_id())
            s.mem[key] = v.a[1][0]
            s = E.narrow_mem(s)
            good.append(Iter(mod, E, s, key, it_ty))
        else:
            bad.append((s, v))
    return E, m, tys[0], good, bad


def split_result(E, s, v):
    v = E.narrow(s, v)
    if not isk(v, "case"):
        return [(s, v)]
    out = []
    for c, w in v.a:
        s2 = s.assume(c)
        if s2 is not None:
            out.append((E.narrow_mem(s2), w))
    return out
