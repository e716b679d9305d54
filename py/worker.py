"""One worker process of the C28 monitor: runs call histories on the real Python package and compares every
observation with the model. Usage: worker.py OUT SEED FIRST COUNT SECONDS"""
import copy as copymod
import collections
import gc
import json
import math
import os
import random
import sys
import tempfile
import time

from model import *
import rustfst
from rustfst import Tr, Trs, SymbolTable, VectorFst, ConstFst, DrawingConfig
from rustfst.algorithms.compose import ComposeConfig, ComposeFilter, MatcherConfig, MatcherRewriteMode, compose, compose_with_config
from rustfst.algorithms.concat import concat, concat_list
from rustfst.algorithms.connect import connect
from rustfst.algorithms.determinize import DeterminizeConfig, DeterminizeType, determinize, determinize_with_config
from rustfst.algorithms.isomorphic import isomorphic
from rustfst.algorithms.minimize import MinimizeConfig, minimize, minimize_with_config
from rustfst.algorithms.project import ProjectType, project
from rustfst.algorithms.randgen import randgen
from rustfst.algorithms.replace import replace
from rustfst.algorithms.reverse import reverse
from rustfst.algorithms.rm_epsilon import rm_epsilon
from rustfst.algorithms.shortest_path import ShortestPathConfig, shortestpath, shortestpath_with_config
from rustfst.algorithms.top_sort import top_sort
from rustfst.algorithms.tr_sort import tr_sort
from rustfst.algorithms.tr_unique import tr_unique
from rustfst.algorithms.union import union, union_list
from rustfst.weight import weight_one, weight_zero

SYMS = ["a", "b", "c", "d", "é", "日本", "x y", "<u>", "Ω", "longer-symbol-name"]
EXTREME = [-0.25, -1.5, -1048576.0, 1048576.5, 2.0 ** -20, 2.0 ** 100, -0.0, 16777215.0]
EXTREME_LABELS = [0, 1, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2]
WEIGHTS = [0.0, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.75, 7.0]


class Violation(Exception):
    pass


class World:
    def __init__(self, rng, counts, tmp):
        self.r = rng
        self.c = counts
        self.tmp = tmp
        self.fsts = []    # [obj, model]
        self.consts = []
        self.tabs = []    # [obj, list of symbols, frozen]
        self.trss = []    # [obj, list of (i,o,w,n)]
        self.iters = []   # [kind, obj, expected sequence, position, source model key]
        self.log = []
        self.hold = []

    # ---------- helpers
    def fail(self, what, msg):
        raise Violation(f"{what}: {msg}")

    def ck(self, cond, what, msg=""):
        if not cond:
            self.fail(what, msg() if callable(msg) else msg)

    def path(self, name):
        return os.path.join(self.tmp, name)

    def raises(self, what, f):
        """f must raise ValueError (how the package reports library errors)."""
        try:
            v = f()
        except ValueError:
            self.c["errors_as_exceptions"] += 1
            return
        self.fail(what, f"no exception, returned {v!r}")

    # ---------- observation
    def read_table(self, t):
        if t is None:
            return None
        return [s for _, s in sorted(t_iter(t))]

    def observe(self, f):
        m = Model()
        m.start = f.start()
        if isinstance(f, ConstFst):
            n = 0
            try:
                while True:
                    f.num_trs(n)
                    n += 1
            except ValueError:
                pass
        else:
            n = f.num_states()
        for q in range(n):
            m.fin.append(f.final(q))
            m.arcs.append([(t.ilabel, t.olabel, t.weight, t.next_state) for t in f.trs(q)])
        m.isym = self.read_table(f.input_symbols())
        m.osym = self.read_table(f.output_symbols())
        self.c["machines_observed"] += 1
        return m

    def check_fst(self, f, m, what, deep=False):
        g = self.observe(f)
        self.ck(g.key() == m.key(), what, lambda: f"machine is {g.key()} instead of {m.key()}")
        self.ck(g.isym == m.isym, what, lambda: f"input table {g.isym} instead of {m.isym}")
        self.ck(g.osym == m.osym, what, lambda: f"output table {g.osym} instead of {m.osym}")
        for q in range(m.n()):
            self.ck(f.num_trs(q) == len(m.arcs[q]), what, f"num_trs({q})")
            self.ck(f.is_final(q) == (m.fin[q] is not None and m.fin[q] != INF), what, f"is_final({q})")
            self.ck(f.is_start(q) == (m.start == q), what, f"is_start({q})")
        if isinstance(f, VectorFst):
            self.ck(list(f.states()) == list(range(m.n())), what, "states()")
        if deep:
            str(f)
            repr(f)
            g2 = f.copy()
            g3 = self.observe(g2)
            self.ck(g3.key() == m.key() and g3.isym == m.isym and g3.osym == m.osym, what,
                    lambda: f"copy differs: {g3.key()} {g3.isym} {g3.osym} instead of {m.key()} {m.isym} {m.osym}")
            self.ck(f == g2 and g2 == f, what, "copy not equal")

    def check_all(self, what):
        for f, m in self.fsts:
            self.check_fst(f, m, what + " (another machine)")
        for f, m in self.consts:
            self.check_fst(f, m, what + " (another constant machine)")
        for t, l, _ in self.tabs:
            self.ck(self.read_table(t) == l, what + " (another table)", lambda: f"{self.read_table(t)} instead of {l}")
        for t, l in self.trss:
            self.ck(t.len() == len(l), what + " (another Trs)", "length")
        self.c["global_checks"] += 1

    # ---------- generation
    def label(self, k, eps):
        return 0 if self.r.random() < eps else self.r.randint(1, k)

    def gen_model(self, acyclic=True, nmax=6, k=3, eps=0.25, acceptor=None, det=False):
        r = self.r
        m = Model()
        n = r.randint(1, nmax)
        acc = r.random() < 0.4 if acceptor is None else acceptor
        m.fin = [None] * n
        m.arcs = [[] for _ in range(n)]
        order = list(range(n))
        if r.random() < 0.3:
            r.shuffle(order)
        for q in range(n):
            if r.random() < 0.35:
                m.fin[order[q]] = r.choice(WEIGHTS)
        if m.n() and all(x is None for x in m.fin) and r.random() < 0.9:
            m.fin[order[-1]] = r.choice(WEIGHTS)
        for _ in range(r.randint(0, 2 * n)):
            a, b = r.randrange(n), r.randrange(n)
            if acyclic:
                if a == b:
                    continue
                a, b = min(a, b), max(a, b)
            i = self.label(k, eps)
            o = i if acc else self.label(k, eps)
            if det and any(x[0] == i for x in m.arcs[order[a]]):
                continue
            m.arcs[order[a]].append((i, o, r.choice(WEIGHTS), order[b]))
        if r.random() < 0.97:
            m.start = order[0]
        return m

    def build(self, m):
        """The machine of a model, through one of the public construction routes."""
        r = self.r
        route = r.choice(["api", "api", "bytes", "file"])
        self.c["built:" + route] += 1
        if route == "api":
            f = VectorFst()
            for q in range(m.n()):
                self.ck(f.add_state() == q, "add_state", "wrong id")
            for q in range(m.n()):
                for (i, o, w, t) in m.arcs[q]:
                    tr = Tr(i, o, w, t)
                    self.ck(f.add_tr(q, tr) is f, "add_tr", "does not return self")
                    if r.random() < 0.1:
                        del tr
                if m.fin[q] is not None:
                    if m.fin[q] == 0.0 and r.random() < 0.5:
                        f.set_final(q)
                    else:
                        f.set_final(q, m.fin[q])
            if m.start is not None:
                f.set_start(m.start)
            if m.isym is not None:
                f.set_input_symbols(SymbolTable.from_symbols(m.isym))
            if m.osym is not None:
                f.set_output_symbols(SymbolTable.from_symbols(m.osym))
            return f
        data = enc(m, "vector")
        if route == "bytes":
            return VectorFst.from_bytes(data)
        p = self.path("in.fst")
        with open(p, "wb") as h:
            h.write(data)
        f = VectorFst.read(p)
        os.unlink(p)
        return f

    def with_tables(self, m, prob=0.35):
        r = self.r
        if r.random() < prob:
            m.isym = ["<eps>"] + r.sample(SYMS, r.randint(3, 6))
        if r.random() < prob:
            m.osym = ["<eps>"] + r.sample(SYMS, r.randint(3, 6))
        return m

    def new_fst(self, **kw):
        m = self.with_tables(self.gen_model(**kw))
        f = self.build(m)
        self.check_fst(f, m, "construction")
        return f, m

    def pick(self):
        if not self.fsts or self.r.random() < 0.15:
            self.add(*self.new_fst(acyclic=self.r.random() < 0.85))
        return self.r.choice(self.fsts)

    def pick_acyclic(self, **kw):
        c = [x for x in self.fsts if x[1].acyclic()] if not kw else []
        if not c or self.r.random() < 0.3:
            e = list(self.new_fst(**kw))
            self.fsts.append(e)
            self.trim()
            return e
        return self.r.choice(c)

    def add(self, f, m):
        self.fsts.append([f, m])
        self.trim()

    def trim(self):
        while len(self.fsts) > 7:
            i = self.r.randrange(len(self.fsts) - 1)
            f = self.fsts.pop(i)
            if self.r.random() < 0.5:
                del f

    # ---------- operations (each returns its name for the log)
    def op_edit(self):
        r = self.r
        e = self.pick()
        f, m = e
        k = r.choice(["state", "arc", "arc", "final", "unfinal", "start", "mut", "mutstep", "delete", "bad", "extreme"])
        if k == "state" or m.n() == 0:
            q = f.add_state()
            self.ck(q == m.n(), "add_state", f"{q} instead of {m.n()}")
            m.fin.append(None)
            m.arcs.append([])
            k = "state"
        elif k == "arc":
            a = (self.label(3, 0.25), self.label(3, 0.25), r.choice(WEIGHTS), r.randrange(m.n()))
            q = r.randrange(m.n())
            tr = Tr(*a)
            f.add_tr(q, tr)
            m.arcs[q].append(a)
            self.ck((tr.ilabel, tr.olabel, tr.weight, tr.next_state) == a, "tr-after-add", repr(tr))
        elif k == "final":
            q = r.randrange(m.n())
            w = r.choice(WEIGHTS)
            f.set_final(q, w)
            m.fin[q] = w
        elif k == "unfinal":
            q = r.randrange(m.n())
            f.unset_final(q)
            m.fin[q] = None
        elif k == "start":
            q = r.randrange(m.n())
            f.set_start(q)
            m.start = q
        elif k in ("mut", "mutstep"):
            q = r.randrange(m.n())
            it = f.mutable_trs(q)
            for rnd in range(r.choice([1, 1, 2])):
                for p in range(len(m.arcs[q])):
                    self.ck(not it.done(), "mutable_trs", "done too early")
                    v = it.value()
                    self.ck((v.ilabel, v.olabel, v.weight, v.next_state) == m.arcs[q][p], "mutable_trs-value", f"{v!r} instead of {m.arcs[q][p]}")
                    if r.random() < 0.4:
                        a = (self.label(3, 0.25), self.label(3, 0.25), r.choice(WEIGHTS), r.randrange(m.n()))
                        it.set_value(Tr(*a))
                        m.arcs[q][p] = a
                        v2 = it.value()
                        self.ck((v2.ilabel, v2.olabel, v2.weight, v2.next_state) == a, "mutable_trs-set", f"{v2!r} instead of {a}")
                    next(it)
                self.ck(it.done(), "mutable_trs", "not done at the end")
                self.ck(it.value() is None, "mutable_trs", "a value past the end")
                it.reset()
            self.c["mutable_iterations"] += 1
            del it
        elif k == "extreme":
            # values at the edge of what a machine can hold, on a copy that is then dropped
            f, m = f.copy(), copymod.deepcopy(m)
            for _ in range(r.randrange(1, 5)):
                q = r.randrange(m.n())
                w = r.choice(EXTREME)
                if r.random() < 0.5:
                    f.set_final(q, w)
                    m.fin[q] = w
                else:
                    a = (r.choice(EXTREME_LABELS), r.choice(EXTREME_LABELS), w, r.randrange(m.n()))
                    f.add_tr(q, Tr(*a))
                    m.arcs[q].append(a)
                    self.ck(f.num_trs(q) == len(m.arcs[q]), "num_trs", f"{f.num_trs(q)} instead of {len(m.arcs[q])}")
            self.c["extreme_values"] += 1
        elif k == "delete":
            if r.random() < 0.2:
                f.delete_states()
                m.start, m.fin, m.arcs = None, [], []
        else:
            q = m.n() + r.choice([0, 1, 5, 1000])
            what = r.choice(["final", "unfinal", "start", "arc", "getfinal", "numtrs", "trs", "mut", "isfinal"])
            g = {
                "final": lambda: f.set_final(q, 1.0), "unfinal": lambda: f.unset_final(q), "start": lambda: f.set_start(q),
                "arc": lambda: f.add_tr(q, Tr(1, 1, 0.5, 0)), "getfinal": lambda: f.final(q), "numtrs": lambda: f.num_trs(q),
                "trs": lambda: f.trs(q), "mut": lambda: f.mutable_trs(q), "isfinal": lambda: f.is_final(q),
            }[what]
            self.raises("bad-state-" + what, g)
            self.ck(not f.is_start(q), "is_start-bad", "true for a missing state")
        self.check_fst(f, m, "edit-" + k, deep=r.random() < 0.3)
        return "edit-" + k

    def op_iterate(self):
        r = self.r
        f, m = self.pick()
        if not m.n():
            return "iterate-empty"
        if r.random() < 0.7:
            q = r.randrange(m.n())
            self.iters.append(["trs", f.trs(q), list(m.arcs[q]), 0])
        else:
            self.iters.append(["states", f.states(), list(range(m.n())), 0])
        if len(self.iters) > 4:
            self.iters.pop(r.randrange(len(self.iters)))
        return "iterate-open"

    def op_step(self):
        """Open iterators go on while their machine (or its Python variable) changes or disappears."""
        if not self.iters:
            return self.op_iterate()
        e = self.r.choice(self.iters)
        kind, it, exp, pos = e
        if kind == "trs" and self.r.random() < 0.15:
            it.reset()
            e[3] = 0
            return "iterate-reset"
        self.ck(iter(it) is it, "iter", "not its own iterator")
        if kind == "states":
            # the machine may have grown or shrunk since: only the order is fixed
            try:
                v = next(it)
                self.ck(v == pos, "state-iterator", f"{v} instead of {pos}")
                e[3] += 1
            except StopIteration:
                self.iters = [x for x in self.iters if x is not e]
            return "iterate-states"
        self.ck(it.done() == (pos >= len(exp)), "trs-iterator-done", f"at {pos} of {len(exp)}")
        try:
            v = next(it)
        except StopIteration:
            self.ck(pos == len(exp), "trs-iterator", "ended early")
            self.iters = [x for x in self.iters if x is not e]
            return "iterate-end"
        self.ck(pos < len(exp), "trs-iterator", "goes past the end")
        self.ck((v.ilabel, v.olabel, v.weight, v.next_state) == exp[pos], "trs-iterator", f"{v!r} instead of {exp[pos]}")
        e[3] += 1
        self.hold.append(v)
        if len(self.hold) > 5:
            self.hold.pop(0)
        return "iterate-trs"

    def op_tr(self):
        r = self.r
        a = [r.randint(0, 2 ** 32 - 2), r.randint(0, 2 ** 32 - 2), r.choice(WEIGHTS), r.randint(0, 2 ** 32 - 2)]
        if a == [0, 0, 0.0, 0]:
            return "tr"
        default = r.random() < 0.2
        t = Tr(a[0], a[1], None, a[3]) if default else Tr(*a)
        if default:
            a[2] = 0.0
        for _ in range(3):
            w = r.randrange(4)
            if w == 0:
                a[0] = r.randint(0, 2 ** 32 - 2)
                t.ilabel = a[0]
            elif w == 1:
                a[1] = r.randint(0, 2 ** 32 - 2)
                t.olabel = a[1]
            elif w == 2:
                a[2] = r.choice(WEIGHTS + [math.inf, -2.5])
                t.weight = a[2]
            else:
                a[3] = r.randint(0, 2 ** 32 - 2)
                t.next_state = a[3]
            self.ck([t.ilabel, t.olabel, t.weight, t.next_state] == a, "tr", f"{t!r} instead of {a}")
        u = Tr(*a)
        self.ck(t == u, "tr-equal", f"{t!r} {u!r}")
        u.olabel = (a[1] + 1) % 7 + (0 if a[1] > 7 else 100)
        self.ck((t == u) == (t.olabel == u.olabel), "tr-unequal", f"{t!r} {u!r}")
        self.ck([t.ilabel, t.olabel, t.weight, t.next_state] == a, "tr-shared", f"{t!r} instead of {a}")
        return "tr"

    def op_trs(self):
        r = self.r
        if not self.trss or r.random() < 0.2:
            self.trss.append([Trs(), []])
            if len(self.trss) > 4:
                self.trss.pop(r.randrange(4))
        e = r.choice(self.trss)
        t, l = e
        k = r.choice(["push", "push", "remove", "clone", "bad", "repr"])
        if k == "push":
            a = (self.label(9, 0.2), self.label(9, 0.2), r.choice(WEIGHTS), r.randrange(9))
            tr = Tr(*a)
            t.push(tr)
            l.append(a)
        elif k == "remove" and l:
            i = r.randrange(len(l))
            v = t.remove(i)
            a = l.pop(i)
            self.ck((v.ilabel, v.olabel, v.weight, v.next_state) == a, "trs-remove", f"{v!r} instead of {a}")
        elif k == "clone":
            self.trss.append([t.shallow_clone(), list(l)])
            if len(self.trss) > 4:
                self.trss.pop(r.randrange(4))
        elif k == "bad":
            self.raises("trs-remove-bad", lambda: t.remove(len(l) + r.choice([0, 3])))
        else:
            repr(t)
        self.ck(t.len() == len(l), "trs-len", f"{t.len()} instead of {len(l)}")
        return "trs-" + k

    def op_table(self):
        r = self.r
        if not self.tabs or r.random() < 0.15:
            l = r.sample(SYMS, r.randint(0, 5))
            t = SymbolTable.from_symbols(l)
            self.tabs.append([t, ["<eps>"] + l, False])
            if len(self.tabs) > 5:
                self.tabs.pop(r.randrange(5))
        e = r.choice(self.tabs)
        t, l, frozen = e
        k = r.choice(["add", "add", "copy", "merge", "find", "missing", "bin", "text", "equal", "attach", "detach", "iter", "badfile"])
        if k == "add":
            s = r.choice(SYMS) if r.random() < 0.7 else "s%d" % r.randrange(1000)
            if frozen:
                try:
                    t.add_symbol(s)
                    self.fail("table-frozen", "an attached table was changed")
                except ValueError:
                    pass
            else:
                i = t.add_symbol(s)
                exp = l.index(s) if s in l else len(l)
                if s not in l:
                    l.append(s)
                self.ck(i == exp, "add_symbol", f"{i} instead of {exp}")
        elif k == "copy":
            c = t.copy()
            self.ck(c == t, "table-copy", "not equal")
            self.tabs.append([c, list(l), frozen and None])
            # a copy may share its storage: whether it can be changed is not fixed, only that nobody else sees it
            self.tabs[-1][2] = False
            s = "new%d" % r.randrange(10 ** 6)
            try:
                self.ck(c.add_symbol(s) == len(l), "table-copy-add", "wrong index")
                self.tabs[-1][1].append(s)
            except ValueError:
                self.fail("table-copy", "a copy cannot be changed")
            if len(self.tabs) > 5:
                self.tabs.pop(r.randrange(5))
        elif k == "merge" and not frozen:
            o = r.choice(self.tabs)
            if o is not e:
                t.add_table(o[0])
                for s in o[1]:
                    if s not in l:
                        l.append(s)
        elif k == "find":
            i = r.randrange(len(l))
            self.ck(t.find(i) == l[i], "find-index", f"{t.find(i)!r} instead of {l[i]!r}")
            self.ck(t.find(l[i]) == i, "find-symbol", f"{t.find(l[i])} instead of {i}")
            self.ck(t.member(i) and t.member(l[i]), "member", l[i])
        elif k == "missing":
            i = len(l) + r.choice([0, 1, 100])
            self.raises("find-missing-index", lambda: t.find(i))
            self.raises("find-missing-symbol", lambda: t.find("not there"))
            self.ck(not t.member(i) and not t.member("not there"), "member-missing", "")
        elif k in ("bin", "text"):
            p = self.path("t.syms")
            if k == "bin":
                t.write(p)
                u = SymbolTable.read(p)
            elif any(c.isspace() for s in l for c in s):
                u = t.copy()
            else:
                t.write_text(p)
                u = SymbolTable.read_text(p)
            self.ck(self.read_table(u) == l, "table-file", lambda: f"{self.read_table(u)} instead of {l}")
            self.ck(u == t, "table-file", "not equal after the round trip")
            if os.path.exists(p):
                os.unlink(p)
        elif k == "equal":
            o = r.choice(self.tabs)
            self.ck((t == o[0]) == (l == o[1]), "table-equal", f"{l} {o[1]}")
            self.ck(t.num_symbols() == len(l), "num_symbols", "")
        elif k == "attach":
            x = self.pick()
            f, m = x
            if r.random() < 0.5:
                self.ck(f.set_input_symbols(t) is f, "set_input_symbols", "does not return self")
                m.isym = list(l)
            else:
                self.ck(f.set_output_symbols(t) is f, "set_output_symbols", "does not return self")
                m.osym = list(l)
            # from here on this object is shared with a machine
            self.tabs = [x for x in self.tabs if x is not e]
            if r.random() < 0.5:
                gc.collect()
            s = "late%d" % r.randrange(100)
            try:
                t.add_symbol(s)
                changed = True
            except ValueError:
                changed = False
                self.c["attached_tables_refuse_change"] += 1
            self.check_fst(f.copy(), m, "attach (seen through a copy)")
            if changed:
                f.set_input_symbols(None)
                m.isym = None
                f.set_output_symbols(None)
                m.osym = None
            del t
            self.check_fst(f, m, "attach", deep=True)
        elif k == "detach":
            f, m = self.pick()
            if r.random() < 0.5:
                f.set_input_symbols(None)
                m.isym = None
            else:
                f.set_output_symbols(None)
                m.osym = None
            self.check_fst(f, m, "detach", deep=True)
        elif k == "iter":
            self.ck(list(t_iter(t)) == list(enumerate(l)), "table-iter", "")
        else:
            p = self.path("garbage")
            self.raises("table-missing-file", lambda: SymbolTable.read(self.path("does-not-exist")))
            self.raises("table-missing-file", lambda: SymbolTable.read_text(self.path("does-not-exist")))
            with open(p, "wb") as h:
                h.write(bytes(r.randrange(256) for _ in range(20)))
            self.raises("table-garbage", lambda: SymbolTable.read(p))
            self.raises("table-unwritable", lambda: t.write(self.path("no/such/dir/t")))
            os.unlink(p)
        if k not in ("attach", "badfile"):
            self.ck(self.read_table(t) == l, "table-" + k, lambda: f"{self.read_table(t)} instead of {l}")
        return "table-" + k

    def op_copies(self):
        r = self.r
        f, m = self.pick()
        k = r.choice(["copy", "bytes", "file", "equals", "truncated", "missing", "unwritable", "pathlib"])
        if k == "copy":
            self.add(f.copy(), m.clone())
        elif k == "bytes":
            b = f.to_bytes()
            g = VectorFst.from_bytes(b)
            self.check_fst(g, m, "bytes")
            self.ck(g == f, "bytes", "not equal")
            self.add(g, m.clone())
            self.c["bytes_round_trips"] += 1
        elif k in ("file", "pathlib"):
            p = self.path("o.fst")
            if k == "pathlib":
                import pathlib
                p = pathlib.Path(p)
            f.write(p)
            g = VectorFst.read(p)
            os.unlink(p)
            self.check_fst(g, m, "file")
            self.add(g, m.clone())
        elif k == "equals":
            g, n = self.pick()
            self.ck((f == g) == (m.key() == n.key()), "equals",
                    lambda: f"{f == g} for {m.key()} {m.isym} {m.osym} and {n.key()} {n.isym} {n.osym}")
        elif k == "truncated":
            b = f.to_bytes()
            cut = r.randrange(len(b))
            try:
                VectorFst.from_bytes(b[:cut])
                self.c["truncated_accepted"] += 1
            except ValueError:
                self.c["errors_as_exceptions"] += 1
        elif k == "missing":
            self.raises("read-missing", lambda: VectorFst.read(self.path("nothing")))
            self.raises("read-missing", lambda: ConstFst.read(self.path("nothing")))
            self.raises("read-empty", lambda: VectorFst.from_bytes(b""))
        else:
            self.raises("write-unwritable", lambda: f.write(self.path("no/such/dir/f")))
        return "copies-" + k

    def op_const(self):
        r = self.r
        f, m = self.pick()
        p = self.path("c.fst")
        with open(p, "wb") as h:
            h.write(enc(m, "const"))
        g = ConstFst.read(p)
        self.check_fst(g, m, "const-read", deep=r.random() < 0.4)
        g.write(p)
        g2 = ConstFst.read(p)
        self.check_fst(g2, m, "const-file")
        self.ck(g2 == g, "const-equals", "not equal after the round trip")
        os.unlink(p)
        self.consts.append([g, m.clone()])
        if len(self.consts) > 3:
            self.consts.pop(r.randrange(3))
        o = r.choice(self.consts)
        self.ck((o[0] == g) == (o[1].key() == m.key()), "const-equals", lambda: f"{o[0] == g} for {o[1].key()} {o[1].isym} {o[1].osym} and {m.key()} {m.isym} {m.osym}")
        self.raises("const-as-vector", lambda: union(f, g))
        self.raises("const-as-vector", lambda: compose(g, f))
        self.raises("vector-as-const", lambda: ConstFst.equals(f, g))
        self.raises("const-edit", lambda: VectorFst.set_start(g, 0))
        self.check_fst(f, m, "const")
        return "const"

    def op_draw(self):
        r = self.r
        f, m = r.choice(self.consts) if self.consts and r.random() < 0.3 else self.pick()
        p = self.path("d.dot")
        if m.isym is not None and any(a[0] >= len(m.isym) for l in m.arcs for a in l):
            return "draw-skipped"
        if m.osym is not None and any(a[1] >= len(m.osym) for l in m.arcs for a in l):
            return "draw-skipped"
        cfg = DrawingConfig(
            acceptor=r.random() < 0.3, title=r.choice(["", "title", "日本"]), width=r.choice([None, 8.5]), height=r.choice([None, 11.0]),
            portrait=r.random() < 0.5, vertical=r.random() < 0.5, ranksep=r.choice([None, 0.4]), nodesep=r.choice([None, 0.25]),
            fontsize=r.choice([14, 9]), show_weight_one=r.random() < 0.5, print_weight=r.random() < 0.5)
        t = SymbolTable.from_symbols(r.sample(SYMS, len(SYMS)))
        a = r.random()
        if a < 0.3:
            f.draw(p, t, None, cfg)
        elif a < 0.6:
            f.draw(p, None, t, cfg)
        else:
            f.draw(p, drawing_config=cfg)
        self.check_fst(f, m, "draw", deep=True)
        if m.start is not None:
            s = open(p, encoding="utf8").read()
            self.ck(s.count(" -> ") == sum(len(l) for l in m.arcs), "draw", "number of transitions in the drawing")
        os.unlink(p)
        self.raises("draw-unwritable", lambda: f.draw(self.path("no/such/d")))
        return "draw"

    # ---------- algorithms
    def result(self, what, g, expect, tabs=None, tol=0.0):
        """Reads a result back, checks its relation and tables; returns its model (None if the paths are too many)."""
        n = self.observe(g)
        if tabs is not None:
            self.ck(n.isym == tabs[0], what, lambda: f"input table {n.isym} instead of {tabs[0]}")
            self.ck(n.osym == tabs[1], what, lambda: f"output table {n.osym} instead of {tabs[1]}")
        self.ck(n.acyclic(), what, "the result has a cycle")
        ps = n.paths(20000)
        if ps is None:
            return n
        got = relation(ps)
        self.ck(same_rel(expect, got, tol), what, lambda: diff_rel(expect, got))
        self.c["relations_compared"] += 1
        self.c["string_pairs_compared"] += len(expect)
        if expect:
            self.c["nonempty_relations"] += 1
        return n

    def keep(self, g, n):
        if n.n() <= 12 and sum(len(l) for l in n.arcs) <= 20:
            self.add(g, n)

    def small(self, limit=400, **kw):
        for _ in range(20):
            e = self.pick_acyclic(**kw)
            ps = e[1].paths(limit)
            if ps is not None:
                return e, relation(ps), ps
        e = list(self.new_fst(nmax=2))
        ps = e[1].paths()
        while ps is None:
            e = list(self.new_fst(nmax=2))
            ps = e[1].paths()
        return e, relation(ps), ps

    def op_inplace(self):
        r = self.r
        e, rel, ps = self.small()
        f, m = e
        old = m.clone()
        k = r.choice(["connect", "top_sort", "rm_epsilon", "tr_sort_i", "tr_sort_o", "tr_unique", "project_i", "project_o",
                      "optimize", "optimize_in_log", "minimize"])
        fn = r.random() < 0.5
        tabs = (m.isym, m.osym)
        if k == "connect":
            v = connect(f) if fn else f.connect()
            self.ck(v is f, k, "does not return the machine")
            n = self.result(k, f, rel, tabs)
            keep = n.accessible() & n.coaccessible()
            self.ck(len(keep) == n.n(), k, "useless states left")
        elif k == "top_sort":
            v = top_sort(f) if fn else f.top_sort()
            n = self.result(k, f, rel, tabs)
            self.ck(self.observe(v).key() == n.key(), k, lambda: f"returned {self.observe(v).key()} for {n.key()}")
            self.ck(all(q < a[3] for q, l in enumerate(n.arcs) for a in l), k, "not sorted")
            self.ck(n.n() == old.n(), k, "number of states changed")
        elif k == "rm_epsilon":
            if fn:
                v = rm_epsilon(f)
                n = self.result(k, f, rel, tabs)
                self.ck(self.observe(v).key() == n.key(), k, lambda: f"returned {self.observe(v).key()} for {n.key()}")
            else:
                f.rm_epsilon()
                n = self.result(k, f, rel, tabs)
            if n.start is not None:
                self.ck(not any(a[0] == 0 and a[1] == 0 for l in n.arcs for a in l), k, "an epsilon transition left")
        elif k in ("tr_sort_i", "tr_sort_o"):
            s = 0 if k == "tr_sort_i" else 1
            tr_sort(f, s == 0) if fn else (f.tr_sort() if s == 0 and r.random() < 0.5 else f.tr_sort(s == 0))
            n = self.result(k, f, rel, tabs)
            for q in range(n.n()):
                x = [a[s] for a in n.arcs[q]]
                self.ck(x == sorted(x), k, "not sorted")
                self.ck(sorted(n.arcs[q]) == sorted(old.arcs[q]), k, "transitions changed")
            self.ck((n.start, n.fin) == (old.start, old.fin), k, "start or finals changed")
        elif k == "tr_unique":
            tr_unique(f) if fn else f.tr_unique()
            n = self.result(k, f, rel, tabs)
            for q in range(n.n()):
                self.ck(sorted(n.arcs[q]) == sorted(set(old.arcs[q])), k, f"{n.arcs[q]} from {old.arcs[q]}")
        elif k in ("project_i", "project_o"):
            s = 0 if k == "project_i" else 1
            ty = ProjectType.PROJECT_INPUT if s == 0 else ProjectType.PROJECT_OUTPUT
            v = project(f, ty) if fn else (f.project() if s == 0 and r.random() < 0.5 else f.project(ty))
            self.ck(v is f, k, "does not return the machine")
            t = tabs[s]
            n = self.result(k, f, rel_project(rel, s), (t, t))
            x = [[(a[s], a[s], a[2], a[3]) for a in l] for l in old.arcs]
            self.ck((n.start, n.fin, n.arcs) == (old.start, old.fin, x), k, "structure changed")
        elif k == "optimize":
            self.ck(f.optimize() is f, k, "does not return the machine")
            n = self.result(k, f, rel, tabs)
        elif k == "optimize_in_log":
            self.ck(f.optimize_in_log() is f, k, "does not return the machine")
            n = self.observe(f)
            self.ck((n.isym, n.osym) == tabs, k, "tables changed")
            lo = {}
            for p, w in ps:
                key = (istr(p), ostr(p))
                lo.setdefault(key, []).append(w)
            np = n.paths(20000)
            if np is not None:
                hi = {}
                for p, w in np:
                    hi.setdefault((istr(p), ostr(p)), []).append(w)
                self.ck(lo.keys() == hi.keys(), k, lambda: f"{sorted(lo)} became {sorted(hi)}")
                for key in lo:
                    a, b = logsum(lo[key]), logsum(hi[key])
                    self.ck(abs(a - b) < 0.02, k, f"{key}: {a} became {b}")
            # its weights are rounded sums: not used further, so that all other comparisons stay exact
            self.fsts = [x for x in self.fsts if x is not e]
            return "alg-" + k
        else:
            det = m.acceptor() and all(len({a[0] for a in l}) == len(l) for l in m.arcs) and not any(a[0] == 0 for l in m.arcs for a in l)
            try:
                v = f.minimize() if r.random() < 0.5 else (f.minimize(MinimizeConfig(allow_nondet=True)) if r.random() < 0.5 else minimize(f))
                self.ck(v is f, k, "does not return the machine")
                n = self.result(k, f, rel, tabs)
            except ValueError:
                self.ck(not det, k, "refuses a deterministic acceptor")
                self.fsts = [x for x in self.fsts if x is not e]
                return "minimize-refused"
        e[1] = n
        if n.n() > 12 or sum(len(l) for l in n.arcs) > 24:
            self.fsts = [x for x in self.fsts if x is not e]
        return "alg-" + k

    def op_binary(self):
        r = self.r
        (f, m), ra, _ = self.small(60)
        alias = r.random() < 0.15
        ((g, n), rb, _) = ((f, m), ra, None) if alias else self.small(60)
        k = r.choice(["union", "concat", "or", "plus", "union_list", "concat_list", "compose", "mul", "compose_cfg"])
        tabs = (m.isym, m.osym)
        if k in ("union", "concat"):
            h = f.copy()
            if alias:
                g = h
            v = (union if k == "union" else concat)(h, g) if r.random() < 0.5 else getattr(h, k)(g)
            self.ck(v is h, k, "does not return the machine")
            if alias:
                self.c["same_machine_twice"] += 1
                rb = ra
        elif k == "or":
            h = f | g
        elif k == "plus":
            h = f + g
        elif k in ("union_list", "concat_list"):
            (x, y), rc, _ = self.small(20)
            h = (union_list if k == "union_list" else concat_list)([f, g, x])
            exp = (rel_union if k == "union_list" else rel_concat)((rel_union if k == "union_list" else rel_concat)(ra, rb), rc)
            z = self.result(k, h, exp, tabs)
            self.check_fst(x, y, k + " (operand)")
            self.raises(k + "-empty", lambda: (union_list if k == "union_list" else concat_list)([]))
        else:
            a, b = f.copy(), g.copy()
            a.tr_sort(False)
            b.tr_sort(True)
            am, bm = self.observe(a), self.observe(b)
            if k == "compose":
                h = compose(a, b) if r.random() < 0.5 else a.compose(b)
            elif k == "mul":
                h = a * b
            else:
                flt = r.choice([ComposeFilter.AUTOFILTER, ComposeFilter.SEQUENCEFILTER, ComposeFilter.ALTSEQUENCEFILTER, ComposeFilter.MATCHFILTER])
                con = r.random() < 0.5
                m1 = MatcherConfig(999, r.choice(list(MatcherRewriteMode)), r.choice([None, [1, 2]])) if r.random() < 0.3 else None
                m2 = MatcherConfig(999, r.choice(list(MatcherRewriteMode)), r.choice([None, [1, 2]])) if r.random() < 0.3 else None
                cfg = ComposeConfig(flt, con, m1, m2)
                if flt == ComposeFilter.AUTOFILTER and (m1 or m2):
                    self.raises("matcher-config-with-auto-filter", lambda: compose_with_config(a, b, cfg))
                    return "alg-compose-refused"
                if r.random() < 0.5:
                    m1 = m2 = None
                    gc.collect()
                h = compose_with_config(a, b, cfg) if r.random() < 0.5 else a.compose(b, cfg)
                self.c["compose_filter:" + flt.name] += 1
            z = self.result(k, h, rel_compose(ra, rb), (m.isym, n.osym))
            self.check_fst(a, am, k + " (operand)")
            self.check_fst(b, bm, k + " (operand)")
        if k in ("union", "or"):
            z = self.result(k, h, rel_union(ra, rb), tabs)
        elif k in ("concat", "plus"):
            z = self.result(k, h, rel_concat(ra, rb), tabs)
        self.check_fst(f, m, k + " (operand)")
        if not alias:
            self.check_fst(g, n, k + " (operand)")
        self.keep(h, z)
        return "alg-" + k

    def op_unary(self):
        r = self.r
        k = r.choice(["reverse", "determinize", "shortest", "shortest_n", "shortest_u", "randgen", "isomorphic", "string_paths"])
        if k == "determinize":
            acc = r.random() < 0.6
            (f, m), ra, _ = self.small(200, acceptor=acc, eps=0.25 if acc else 0.0)
            ty = DeterminizeType.DETERMINIZE_NON_FUNCTIONAL if not m.acceptor() else r.choice(list(DeterminizeType))
            if m.acceptor() and r.random() < 0.5:
                g = determinize(f) if r.random() < 0.5 else f.determinize()
            else:
                cfg = DeterminizeConfig(ty, r.choice([None, 1e-6]))
                g = f.determinize(cfg) if r.random() < 0.5 else determinize_with_config(f, cfg)
            n = self.result(k, g, ra, (m.isym, m.osym))
            if m.acceptor():
                self.ck(all(len({a[0] for a in l}) == len(l) for l in n.arcs), k, "not deterministic")
        else:
            if k == "shortest_u":
                (f, m), ra, ps = self.small(200, acceptor=True, eps=0.0)
                if not m.acceptor() or any(a[0] == 0 for l in m.arcs for a in l):
                    return "alg-skip"
            elif k == "isomorphic":
                return self.iso()
            else:
                (f, m), ra, ps = self.small(200)
            tabs = (m.isym, m.osym)
            if k == "reverse":
                g = reverse(f) if r.random() < 0.5 else f.reverse()
                n = self.result(k, g, rel_reverse(ra), tabs)
            elif k in ("shortest", "shortest_n"):
                c = 1 if k == "shortest" else r.choice([1, 2, 3, 7])
                if k == "shortest" and r.random() < 0.7:
                    g = shortestpath(f) if r.random() < 0.5 else f.shortest_path()
                else:
                    cfg = ShortestPathConfig(c, False, r.choice([None, 1e-6]))
                    g = shortestpath_with_config(f, cfg) if r.random() < 0.5 else f.shortest_path(cfg)
                n = self.observe(g)
                got = n.paths()
                self.ck(got is not None and n.acyclic(), k, "too many paths")
                exp = sorted(w for _, w in ps)[:c]
                self.ck(sorted(w for _, w in got) == exp, k, lambda: f"weights {sorted(w for _, w in got)} instead of {exp}")
                have = collections.Counter((istr(p), ostr(p), w) for p, w in ps)
                for x, cnt in collections.Counter((istr(p), ostr(p), w) for p, w in got).items():
                    self.ck(have[x] >= cnt, k, lambda: f"path {x} is not there {cnt} times")
                self.ck((n.isym, n.osym) == tabs, k, "tables changed")
            elif k == "shortest_u":
                c = r.choice([1, 2, 3, 7])
                g = f.shortest_path(ShortestPathConfig(c, True))
                n = self.observe(g)
                got = n.paths()
                self.ck(got is not None, k, "too many paths")
                exp = sorted(ra.values())[:c]
                self.ck(sorted(w for _, w in got) == exp, k, lambda: f"weights {sorted(w for _, w in got)} instead of {exp}")
                keys = [(istr(p), ostr(p)) for p, _ in got]
                self.ck(len(set(keys)) == len(keys), k, "a string twice")
                for p, w in got:
                    self.ck(ra.get((istr(p), ostr(p))) == w, k, f"{p} {w}")
            elif k == "randgen":
                c = r.choice([1, 2, 5])
                wtd = r.random() < 0.3
                g = randgen(f, c, r.randrange(1000), "uniform", r.choice([2147483647, 20]), wtd, r.random() < 0.3)
                n = self.observe(g)
                got = n.paths() or []
                for p, _ in got:
                    self.ck((istr(p), ostr(p)) in ra, k, f"{p} is not a path of the machine")
                if ps and m.coaccessible() >= m.accessible():
                    self.ck(got, k, "no path generated")
                self.raises("randgen-select", lambda: randgen(f, 1, 1, "log_prob"))
            else:
                big = ["<eps>"] + SYMS
                h = f.copy()
                it_t, ot_t = SymbolTable.from_symbols(SYMS), SymbolTable.from_symbols(SYMS)
                if r.random() < 0.15:
                    h.set_input_symbols(None)
                    self.raises("string-paths-without-tables", lambda: h.string_paths())
                    return "alg-string_paths-refused"
                h.set_input_symbols(it_t)
                h.set_output_symbols(ot_t)
                del it_t, ot_t
                it = h.string_paths()
                if r.random() < 0.5:
                    del h
                    gc.collect()
                got, held = [], []
                while True:
                    d = it.done()
                    try:
                        x = next(it)
                    except StopIteration:
                        self.ck(d, k, "not done at the end")
                        break
                    self.ck(not d, k, "done before the end")
                    held.append(x)
                del it
                r.shuffle(held)
                for x in held:
                    got.append((x.istring(), x.ostring(), x.weight()))
                exp = [(" ".join(big[i] for i in istr(p)), " ".join(big[o] for o in ostr(p)), w) for p, w in ps]
                self.ck(sorted(got) == sorted(exp), k, lambda: f"{sorted(got)} instead of {sorted(exp)}")
                self.c["string_paths"] += len(got)
                n = None
            if n is None or (k == "randgen" and wtd):
                self.check_fst(f, m, k + " (operand)")
                return "alg-" + k
            self.check_fst(f, m, k + " (operand)")
            self.keep(g, n)
            return "alg-" + k
        self.check_fst(f, m, k + " (operand)")
        self.keep(g, n)
        return "alg-" + k

    def iso(self):
        r = self.r
        m = self.gen_model(acyclic=False, eps=0.1)
        for q in range(m.n()):
            seen = set()
            l = []
            for a in m.arcs[q]:
                if (a[0], a[1]) not in seen:
                    seen.add((a[0], a[1]))
                    l.append(a)
            m.arcs[q] = l
        acc = m.accessible()
        if len(acc) != m.n():
            return "alg-skip"
        perm = list(range(m.n()))
        r.shuffle(perm)
        n = Model()
        n.fin = [None] * m.n()
        n.arcs = [[] for _ in perm]
        n.start = perm[m.start]
        for q in range(m.n()):
            n.fin[perm[q]] = m.fin[q]
            l = [(a[0], a[1], a[2], perm[a[3]]) for a in m.arcs[q]]
            r.shuffle(l)
            n.arcs[perm[q]] = l
        exp = True
        if r.random() < 0.5:
            q = r.randrange(m.n())
            if n.arcs[q] and r.random() < 0.6:
                a = n.arcs[q][0]
                n.arcs[q][0] = (a[0], a[1], a[2] + 1.0, a[3])
            elif n.fin[q] is None:
                n.fin[q] = 0.5
            else:
                n.fin[q] += 1.0
            exp = iso_model(m, n)
        f, g = self.build(m), self.build(n)
        for _ in range(2):
            x = f.isomorphic(g) if r.random() < 0.5 else isomorphic(f, g)
            self.ck(x == exp, "isomorphic", f"{x} for {m.key()} and {n.key()}")
            f, g = g, f
            m, n = n, m
        self.check_fst(f, m, "isomorphic (operand)")
        self.c["isomorphic_%s" % exp] += 1
        return "alg-isomorphic"

    def op_replace(self):
        r = self.r
        root = self.gen_model(nmax=4)
        subs = {}
        labels = [900, 901][: r.randint(1, 2)]
        for i, l in enumerate(labels):
            s = self.gen_model(nmax=3)
            subs[l] = s
        def inject(m, ls):
            for q in range(m.n()):
                for j, a in enumerate(m.arcs[q]):
                    if r.random() < 0.4:
                        m.arcs[q][j] = (a[0], r.choice(ls), a[2], a[3])
        inject(root, labels)
        if len(labels) == 2:
            inject(subs[900], [901])
        if root.start is None or any(s.start is None for s in subs.values()):
            return "alg-skip"
        eps = r.random() < 0.5
        self.with_tables(root)
        exp = expand(root, subs, not eps)
        f = self.build(root)
        built = {l: self.build(s) for l, s in subs.items()}
        if r.random() < 0.5:
            g = f.replace(899, list(built.items()), eps) if (eps or r.random() < 0.5) else f.replace(899, list(built.items()))
        else:
            lst = [(899, f)] + list(built.items())
            r.shuffle(lst)
            g = replace(899, lst, eps)
        self.result("replace", g, exp)
        self.check_fst(f, root, "replace (operand)")
        for l in built:
            self.check_fst(built[l], subs[l], "replace (operand)")
        return "alg-replace"

    def op_relabel(self):
        r = self.r
        m = self.gen_model(acyclic=r.random() < 0.6)
        m.isym = ["<eps>"] + r.sample(SYMS, 4)
        m.osym = ["<eps>"] + r.sample(SYMS, 4)
        f = self.build(m)
        ni = ["<eps>"] + r.sample(SYMS, len(SYMS))
        no = ["<eps>"] + r.sample(SYMS, len(SYMS))
        ti, to = SymbolTable.from_symbols(ni), SymbolTable.from_symbols(no)
        ai, ao = r.random() < 0.6, r.random() < 0.6
        kw = {}
        oi, oo = m.isym, m.osym
        if r.random() < 0.4:
            oi = ["<eps>"] + r.sample(SYMS, 5)
            kw["old_isymbols"] = SymbolTable.from_symbols(oi)
        if r.random() < 0.4:
            oo = ["<eps>"] + r.sample(SYMS, 5)
            kw["old_osymbols"] = SymbolTable.from_symbols(oo)
        v = f.relabel_tables(new_isymbols=ti, attach_new_isymbols=ai, new_osymbols=to, attach_new_osymbols=ao, **kw)
        self.ck(v is f, "relabel_tables", "does not return the machine")
        n = m.clone()
        n.arcs = [[(ni.index(oi[a[0]]), no.index(oo[a[1]]), a[2], a[3]) for a in l] for l in m.arcs]
        n.isym = ni if ai else None
        n.osym = no if ao else None
        self.check_fst(f, n, "relabel_tables", deep=True)
        self.add(f, n)
        return "relabel_tables"

    def op_gc(self):
        r = self.r
        k = r.choice(["collect", "drop", "drop_table", "weights"])
        if k == "collect":
            gc.collect()
        elif k == "drop" and self.fsts:
            self.fsts.pop(r.randrange(len(self.fsts)))
        elif k == "drop_table" and self.tabs:
            self.tabs.pop(r.randrange(len(self.tabs)))
        else:
            self.ck(weight_one() == 0.0 and weight_zero() == INF, "weights", "")
        return "gc-" + k

    def run(self, steps):
        ops = [(self.op_edit, 6), (self.op_iterate, 2), (self.op_step, 5), (self.op_tr, 1), (self.op_trs, 2), (self.op_table, 5),
               (self.op_copies, 4), (self.op_const, 1), (self.op_draw, 1), (self.op_inplace, 6), (self.op_binary, 4),
               (self.op_unary, 5), (self.op_replace, 2), (self.op_relabel, 1), (self.op_gc, 2)]
        fs, ws = [o for o, _ in ops], [w for _, w in ops]
        for s in range(steps):
            op = self.r.choices(fs, ws)[0]
            self.log.append(op.__name__)
            name = op()
            self.log[-1] = name
            self.c["op:" + name] += 1
            self.c["calls"] += 1
            if s % 6 == 5:
                self.check_all(name)
        self.check_all("end")
        # drop everything in random order, checking the survivors
        while self.fsts:
            self.fsts.pop(self.r.randrange(len(self.fsts)))
            if self.r.random() < 0.3:
                self.check_all("drop")
        self.tabs.clear()
        self.iters.clear()
        self.check_all("drop")


def t_iter(t):
    """The table's iterator has no __iter__ of its own: driven by next()."""
    it = iter(SymIter(t))
    return it


class SymIter:
    def __init__(self, t):
        self.t = t

    def __iter__(self):
        i = self.t.__iter__()
        while True:
            try:
                v = next(i)
            except StopIteration:
                return
            yield v


def logsum(ws):
    m = min(ws)
    return m - math.log(sum(math.exp(m - w) for w in ws))


def iso_model(a, b):
    """Isomorphism of machines whose states have distinct label pairs: the only candidate is forced."""
    mp = {a.start: b.start}
    st = [a.start]
    while st:
        q = st.pop()
        p = mp[q]
        if a.fin[q] != b.fin[p] or len(a.arcs[q]) != len(b.arcs[p]):
            return False
        d = {(x[0], x[1]): x for x in b.arcs[p]}
        for x in a.arcs[q]:
            y = d.get((x[0], x[1]))
            if y is None or y[2] != x[2]:
                return False
            if x[3] in mp:
                if mp[x[3]] != y[3]:
                    return False
            else:
                mp[x[3]] = y[3]
                st.append(x[3])
    return len(set(mp.values())) == len(mp)


def main():
    out, seed, first, count, secs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5])
    counts = collections.Counter()
    distinct = set()
    bad_unraisable = []

    def hook(u):
        if isinstance(u.exc_value, AttributeError) and "_ptr" in str(u.exc_value):
            return  # destructor of an object whose construction was refused
        bad_unraisable.append(repr(u.exc_value))

    sys.unraisablehook = hook
    end = time.time() + secs
    samples = []
    viol = None
    done = 0
    with tempfile.TemporaryDirectory(prefix="c28-") as tmp:
        for case in range(first, first + count):
            if time.time() > end:
                break
            with open(out + ".case", "w") as h:
                h.write(str(case))
            rng = random.Random(f"{seed}-{case}")
            w = World(rng, counts, tmp)
            try:
                w.run(rng.randint(10, 45))
            except Violation as e:
                viol = {"case": case, "message": str(e), "log": w.log}
            except Exception as e:  # an exception where the model expects success
                import traceback
                viol = {"case": case, "message": f"unexpected {type(e).__name__}: {e}", "log": w.log, "trace": traceback.format_exc()}
            if bad_unraisable and viol is None:
                viol = {"case": case, "message": f"exception in a destructor: {bad_unraisable[0]}", "log": w.log}
            done += 1
            distinct.add(tuple(w.log))
            if len(samples) < 2:
                samples.append({"case": case, "history": w.log[:30]})
            if viol:
                break
            del w
    with open(out, "w") as h:
        json.dump({"done": done, "distinct": len(distinct), "counts": counts, "samples": samples, "violation": viol}, h)


main()
