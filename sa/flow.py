"""Analyses over region trees: guarded event collection, must-facts, typestate (property simulation)."""
from __future__ import annotations

from typing import Callable, Dict, Iterable, List, Optional, Set, Tuple

from . import terms as tm
from .evalr import Ev, If, Inline, Loop, Seq, Try, With, is_suppress
from .terms import FALSE, T, TRUE, not_

NORETURN = {"sys.exit", "os._exit", "exit", "quit"}


class Ctx:
    __slots__ = ("guards", "withs", "trys", "loops", "inlines")

    def __init__(self, guards=(), withs=(), trys=(), loops=(), inlines=()):
        self.guards, self.withs, self.trys, self.loops, self.inlines = guards, withs, trys, loops, inlines

    @property
    def inside(self):
        """in another function that was evaluated in place (helpers taken out of this one apart)"""
        return [i for i in self.inlines if not i.callee.is_helper]

    def add(self, **kw):
        c = Ctx(self.guards, self.withs, self.trys, self.loops, self.inlines)
        for k, v in kw.items():
            setattr(c, k, getattr(c, k) + tuple(v))
        return c


def exits(seq) -> Set[str]:
    out = {"norm"}
    for it in seq.items if isinstance(seq, Seq) else [seq]:
        if "norm" not in out:
            break
        out.discard("norm")
        out |= item_exits(it)
    return out


def item_exits(it) -> Set[str]:
    if isinstance(it, Ev):
        if it.kind == "raise":
            return {"raise"}
        if it.kind in ("return", "leave"):
            return {"ret"}
        if it.kind == "break":
            return {"brk"}
        if it.kind == "continue":
            return {"cont"}
        if it.kind == "call" and it.callee in NORETURN:
            return {"raise"}
        return {"norm"}
    if isinstance(it, If):
        return exits(it.then) | exits(it.els)
    if isinstance(it, Loop):
        b = exits(it.body)
        out = b & {"ret", "raise"}
        if not (it.kind == "while" and it.cond is TRUE) or "brk" in b:
            out.add("norm")
        return out
    if isinstance(it, Try):
        b = exits(it.body)
        out = set(b)
        if "norm" in b:
            out.discard("norm")
            out |= exits(it.orelse)
        for _, _, h, _ in it.handlers:
            out |= exits(h)
        f = exits(it.final)
        if "norm" not in f:
            return f
        return out | (f - {"norm"})
    if isinstance(it, With):
        b = exits(it.body)
        if any(is_suppress(c) for c in it.items):
            b = set(b) | {"norm"}
        return b
    if isinstance(it, Inline):
        b = exits(it.body)
        if it.tail:
            return b
        out = b & {"raise"}
        if b & {"norm", "ret"}:
            out.add("norm")
        return out
    return {"norm"}


def facts(it) -> List[T]:
    """Literals that hold whenever control passes normally beyond `it`."""
    if isinstance(it, If):
        a, b = exits(it.then), exits(it.els)
        if "norm" not in a and "norm" not in b:
            return []
        if "norm" not in a:
            return tm.literals(not_(it.cond)) + seq_facts(it.els)
        if "norm" not in b:
            return tm.literals(it.cond) + seq_facts(it.then)
        x = set(seq_facts(it.then)) | set(tm.literals(it.cond))
        y = set(seq_facts(it.els)) | set(tm.literals(not_(it.cond)))
        return [z for z in x if z in y]
    if isinstance(it, Inline):
        sets = [set(g) for g in exit_guards(it.body, "return")]
        if "norm" in exits(it.body):
            sets.append(set(seq_facts(it.body)))
        if not sets:
            return []
        return [x for x in sets[0] if all(x in y for y in sets[1:])]
    if isinstance(it, Loop):
        if it.kind != "while":
            return []
        sets = [set(g) for g in exit_guards(it.body, "break")]
        if not sets:
            return []
        return [x for x in sets[0] if all(x in y for y in sets[1:])]
    if isinstance(it, With):
        return [] if any(is_suppress(c) for c in it.items) else seq_facts(it.body)
    if isinstance(it, Try):
        if all("norm" not in exits(h) for _, _, h, _ in it.handlers):
            return seq_facts(it.body) + seq_facts(it.orelse)
    return []


def exit_guards(seq, kind, guards=()):
    """Guard literals of every `return` of this function body / every `break` of this loop body."""
    out = []
    g = tuple(guards)
    for it in seq.items:
        if isinstance(it, Ev):
            if it.kind == kind or kind == "return" and it.kind == "leave":
                out.append(g)
        elif isinstance(it, Inline):
            if it.tail and kind == "return":
                out += exit_guards(it.body, kind, g)
        elif isinstance(it, If):
            out += exit_guards(it.then, kind, g + tuple(tm.literals(it.cond)))
            out += exit_guards(it.els, kind, g + tuple(tm.literals(not_(it.cond))))
        elif isinstance(it, Loop):
            if kind == "return":
                out += exit_guards(it.body, kind, g)
                out += exit_guards(it.orelse, kind, g)
        elif isinstance(it, Try):
            for x in [it.body, it.orelse, it.final] + [h for _, _, h, _ in it.handlers]:
                out += exit_guards(x, kind, g)
        elif isinstance(it, With):
            out += exit_guards(it.body, kind, g)
        g = g + tuple(facts(it))
    return out


def seq_facts(seq) -> List[T]:
    out = []
    for it in seq.items:
        out += facts(it)
    return out


def walk(seq, ctx: Optional[Ctx] = None):
    """Yield (event, ctx) in program order; ctx.guards are literals that hold when the event runs."""
    ctx = ctx or Ctx()
    for it in seq.items:
        if isinstance(it, Ev):
            yield it, ctx
        elif isinstance(it, If):
            yield from walk(it.then, ctx.add(guards=tm.literals(it.cond)))
            yield from walk(it.els, ctx.add(guards=tm.literals(not_(it.cond))))
        elif isinstance(it, Loop):
            yield from walk(it.body, ctx.add(loops=[it]))
            yield from walk(it.orelse, ctx)
        elif isinstance(it, Try):
            yield from walk(it.body, ctx.add(trys=[(it, "body")]))
            yield from walk(it.orelse, ctx.add(trys=[(it, "else")], guards=seq_facts(it.body)))
            for i, (_, _, h, _) in enumerate(it.handlers):
                yield from walk(h, ctx.add(trys=[(it, i)]))
            yield from walk(it.final, ctx.add(trys=[(it, "final")]))
        elif isinstance(it, With):
            yield from walk(it.body, ctx.add(withs=it.items))
        elif isinstance(it, Inline):
            yield from walk(it.body, ctx.add(inlines=[it]))
        f = facts(it)
        if f:
            ctx = ctx.add(guards=f)


def events(seq, kind=None, name=None, callee=None, pred=None):
    for ev, ctx in walk(seq):
        if kind and ev.kind != kind:
            continue
        if name is not None and not (ev.kind == "call" and (ev.name == name or (isinstance(name, (set, tuple, frozenset)) and ev.name in name))):
            continue
        if callee is not None and not callee_is(ev, callee):
            continue
        if pred and not pred(ev, ctx):
            continue
        yield ev, ctx


def callee_is(ev, q) -> bool:
    if ev.kind != "call" or ev.callee is None:
        return False
    qs = (q,) if isinstance(q, str) else q
    return any(ev.callee == x or ev.callee == "litdata." + x for x in qs)


def holds(lit: T, lits: Iterable[T]) -> Optional[bool]:
    """Truth of a condition under known literals: True / False / None (undetermined)."""
    s = lits if isinstance(lits, (set, frozenset)) else set(lits)
    if lit is TRUE:
        return True
    if lit is FALSE:
        return False
    if lit in s:
        return True
    if not_(lit) in s:
        return False
    if lit.k == "and":
        vs = [holds(x, s) for x in lit.a[0]]
        if any(v is False for v in vs):
            return False
        return True if all(v is True for v in vs) else None
    if lit.k == "or":
        vs = [holds(x, s) for x in lit.a[0]]
        if any(v is True for v in vs):
            return True
        return False if all(v is False for v in vs) else None
    if lit.k == "not":
        v = holds(lit.a[0], s)
        return None if v is None else not v
    if lit.k == "ite":
        c = holds(lit.a[0], s)
        if c is not None:
            return holds(lit.a[1] if c else lit.a[2], s)
    if lit.k in ("lt", "le"):
        # weaker/stronger linear bounds over the same atoms
        p = {m: c for m, c in tm.poly_items(lit.a[0]).items() if m != ()}
        k0 = tm.lin_const(lit.a[0])
        for x in s:
            if x.k in ("lt", "le"):
                q = {m: c for m, c in tm.poly_items(x.a[0]).items() if m != ()}
                if q == p:
                    k1 = tm.lin_const(x.a[0])
                    # x: P + k1 (<|<=) 0  implies  P + k0 (<|<=) 0
                    if k1 > k0 or (k1 == k0 and (x.k == "lt" or lit.k == "le")):
                        return True
            if x.k == "eq":
                pass
    if lit.k == "in" :
        return None
    return None


# -------------------------------------------------------------------------------------------- typestate
KEYS = ("norm", "ret", "raise", "exc", "brk", "cont")


def _empty():
    return {k: set() for k in KEYS}


class Typestate:
    """States are (automaton_state, known literals). `step(state, ev)` returns the successor automaton states."""

    def __init__(self, step: Callable, assume: Optional[Callable] = None, track=True, max_states=4000):
        self.step, self.assume, self.track = step, assume, track
        self.max_states = max_states
        self.tracked: Set[T] = set()
        self.visited = 0

    def run(self, seq, init) -> Dict[str, Set]:
        if self.track:
            cnt: Dict[T, int] = {}
            self._count(seq, cnt)
            for t, n in cnt.items():
                if n >= 2:
                    self.tracked.add(t)
                    self.tracked.add(not_(t))
        return self.seq(seq, {(s, frozenset()) for s in init})

    def _count(self, seq, cnt):
        for it in seq.items:
            if isinstance(it, If):
                for x in set(self._atoms(it.cond)):
                    cnt[x] = cnt.get(x, 0) + 1
                self._count(it.then, cnt)
                self._count(it.els, cnt)
            elif isinstance(it, Loop):
                self._count(it.body, cnt)
                self._count(it.orelse, cnt)
            elif isinstance(it, Try):
                for x in [it.body, it.orelse, it.final] + [h for _, _, h, _ in it.handlers]:
                    self._count(x, cnt)
            elif isinstance(it, (With, Inline)):
                self._count(it.body, cnt)

    def _atoms(self, c):
        if c.k in ("and", "or"):
            out = []
            for x in c.a[0]:
                out += self._atoms(x)
            return out
        if c.k == "not":
            return [c.a[0]]
        if c.k == "le":
            return [not_(c)]
        return [c]

    def _learn(self, states, cond):
        out = set()
        for s, l in states:
            h = holds(cond, l)
            if h is False:
                continue
            if self.assume:
                ns = self.assume(s, cond)
                if ns is None:
                    continue
                s = ns
            new = set(l)
            if h is None and self.track:
                for x in tm.literals(cond):
                    if x in self.tracked:
                        new.add(x)
                    elif x.k == "or":
                        rest = [y for y in x.a[0] if holds(y, l) is not False]
                        if len(rest) == 1 and rest[0] in self.tracked:
                            new.add(rest[0])
                        elif all(y in self.tracked for y in x.a[0]) and len(x.a[0]) <= 4:
                            new.add(x)
            out.add((s, frozenset(new)))
        return out

    def seq(self, seq, states):
        out = _empty()
        cur = set(states)
        for it in seq.items:
            if not cur:
                break
            r = self.item(it, cur)
            for k in KEYS:
                if k != "norm":
                    out[k] |= r[k]
            cur = r["norm"]
            self.visited += len(cur)
            if len(cur) > self.max_states:
                cur = {(s, frozenset()) for s, _ in cur}
        out["norm"] = cur
        return out

    def _do(self, ev, states):
        out = set()
        for s, l in states:
            r = self.step(s, ev)
            for ns in (r if isinstance(r, (list, set, frozenset, tuple)) and not _is_state(r) else [r]):
                out.add((ns, l))
        return out

    def item(self, it, states):
        out = _empty()
        if isinstance(it, Ev):
            nxt = self._do(it, states)
            if it.kind == "raise":
                out["raise"] = nxt
            elif it.kind in ("return", "leave"):
                out["ret"] = nxt
            elif it.kind == "break":
                out["brk"] = nxt
            elif it.kind == "continue":
                out["cont"] = nxt
            elif it.kind == "call":
                if it.callee in NORETURN:
                    out["raise"] = nxt
                else:
                    out["exc"] = set(states) if not it.inlined else set()
                    out["norm"] = nxt
            else:
                out["norm"] = nxt
            return out
        if isinstance(it, If):
            a = self.seq(it.then, self._learn(states, it.cond))
            b = self.seq(it.els, self._learn(states, not_(it.cond)))
            return {k: a[k] | b[k] for k in KEYS}
        if isinstance(it, Inline):
            r = self.seq(it.body, states)
            if it.tail:
                return r
            return {"norm": r["norm"] | r["ret"], "ret": set(), "raise": r["raise"], "exc": r["exc"], "brk": set(),
                    "cont": set()}
        if isinstance(it, Loop):
            return self.loop(it, states)
        if isinstance(it, With):
            cur = set(states)
            for c in it.items:
                cur = self._do(Ev("enter", it.node, it.func, term=c), cur)
            r = self.seq(it.body, cur)
            res = _empty()
            for k in KEYS:
                st = r[k]
                for c in reversed(it.items):
                    if st:
                        st = self._do(Ev("exit", it.node, it.func, term=c), st)
                res[k] = st
            if any(is_suppress(c) for c in it.items):
                res["norm"] |= res["raise"] | res["exc"]
                if not any(_catch_all_names([x.a[0] for c in it.items if is_suppress(c) for x in c.a[1] if x.k in ("ext", "cls")])):
                    pass
            return res
        if isinstance(it, Try):
            return self.try_(it, states)
        raise AssertionError(it)

    def try_(self, it, states):
        b = self.seq(it.body, states)
        res = _empty()
        for k in ("ret", "brk", "cont"):
            res[k] |= b[k]
        e = self.seq(it.orelse, b["norm"])
        for k in KEYS:
            res[k] |= e[k]
        hin = b["raise"] | b["exc"]
        caught_all = any(_catch_all(types) for types, _, _, _ in it.handlers)
        for types, _, h, _ in it.handlers:
            r = self.seq(h, hin)
            for k in KEYS:
                res[k] |= r[k]
        if not caught_all:
            res["raise"] |= b["raise"]
            res["exc"] |= b["exc"]
        if it.final.items:
            fin = _empty()
            for k in KEYS:
                if not res[k]:
                    continue
                r = self.seq(it.final, res[k])
                fin[k] |= r["norm"]
                for j in KEYS:
                    if j != "norm":
                        fin[j] |= r[j]
            res = fin
        return res

    def loop(self, it, states):
        out = _empty()
        entry = set(states)
        seen = set()
        frontier = set(states)
        exit_norm = set()
        infinite = it.kind == "while" and it.cond is TRUE
        keep = frozenset().union(*[l for _, l in states]) if states else frozenset()
        n = 0
        brk = set()
        while frontier:
            n += 1
            if n > 200:
                break
            seen |= frontier
            if it.kind == "for":
                exit_norm |= frontier
            r = self.seq(it.body, self._iter_start(it, frontier))
            for k in ("ret", "raise", "exc"):
                out[k] |= r[k]
            brk |= r["brk"]
            nxt = {(s, l & keep) for s, l in r["norm"] | r["cont"]}
            frontier = nxt - seen
        if it.kind == "for" and exit_norm:
            exit_norm = self._do(Ev("loopend", it.node, it.func, term=it.iter, base=it), exit_norm)
        if it.orelse.items and exit_norm:
            r = self.seq(it.orelse, exit_norm)
            exit_norm = r["norm"]
            for k in ("ret", "raise", "exc", "brk", "cont"):
                out[k] |= r[k]
        out["norm"] = exit_norm | brk
        return out

    def _iter_start(self, it, states):
        return self._do(Ev("iter", it.node, it.func, term=it.iter), states)


def _is_state(r):
    return isinstance(r, tuple)


def _catch_all(types):
    return any(t.split(".")[-1] in ("Exception", "BaseException") for t in types)


def _catch_all_names(names):
    return [n for n in names if n.split(".")[-1] in ("Exception", "BaseException")]
