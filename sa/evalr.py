"""Structured forward value numbering over one entry function.

`evaluate(prog, func)` walks the syntax tree of `func` once (loops once, with loop-carried values named by phi
terms; branches are joined into gated values), inlining repository callees allowed by the policy, and returns a
region tree of *events* (calls, stores, raises, returns) whose operands are canonical terms. No path is
enumerated and no formula is handed to a solver.
"""
from __future__ import annotations

import ast
from typing import Callable, Dict, List, Optional, Tuple

from . import terms as tm
from .program import AnalysisBroken, Cls, Func, Module, Program, walk_own
from .terms import FALSE, NONE, ONE, T, TRUE, ZERO, const, ite, mk, not_, truth

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)

PURE = {
    "len", "int", "str", "float", "bool", "min", "max", "sum", "abs", "sorted", "list", "tuple", "dict", "set", "range",
    "enumerate", "zip", "isinstance", "issubclass", "hasattr", "getattr", "type", "round", "any", "all", "map", "filter",
    "reversed", "repr", "divmod", "ord", "chr", "bytes", "bytearray", "memoryview", "frozenset", "id", "slice", "hash",
    "os.path.join", "os.path.dirname", "os.path.basename", "os.path.abspath", "os.path.expanduser", "os.path.splitext",
    "os.path.split", "urllib.parse.urlparse", "urllib.parse.ParseResult", "numpy.arange", "numpy.uint32", "numpy.uint64",
    "numpy.int32", "numpy.int64", "numpy.dtype", "copy.deepcopy", "copy.copy", "math.ceil", "math.floor",
    "math.gcd", "math.lcm", "struct.pack", "struct.unpack", "itertools.chain", "itertools.cycle",
}
PURE_METHODS = {
    "startswith", "endswith", "replace", "split", "rsplit", "strip", "lstrip", "rstrip", "lower", "upper", "encode",
    "decode", "keys", "values", "items", "tobytes", "astype", "cumsum", "item", "format", "count", "index", "tolist",
    "copy", "hexdigest", "union", "difference", "intersection", "numel", "is_dir", "numpy", "lstrip", "rfind", "find",
    "join", "partition", "rpartition", "title", "isdigit", "removeprefix", "removesuffix",
}
MUTATORS = {"append", "extend", "pop", "insert", "remove", "clear", "update", "setdefault", "add", "discard",
            "popleft", "appendleft", "sort", "reverse", "popitem"}


class KW(dict):
    """The keyword arguments not already counted by position; a lookup by name finds every argument."""

    def __init__(self, rest, named):
        super().__init__(rest)
        self.named = named

    def __missing__(self, k):
        return self.named[k]

    def __contains__(self, k):
        return k in self.named

    def __bool__(self):
        return bool(self.named)

    def get(self, k, d=None):
        return self.named.get(k, d)


class Ev:
    """One event: kind in call/store/setitem/del/raise/return/break/continue/yield."""

    __slots__ = ("kind", "term", "fn", "args", "kw", "callee", "name", "recv", "node", "func", "inlined", "base", "attr",
                 "value", "idx", "argnodes", "starred")

    def __init__(self, kind, node, func, **kw):
        self.kind, self.node, self.func = kind, node, func
        self.term = self.fn = self.callee = self.name = self.recv = self.base = self.attr = self.value = self.idx = None
        self.args, self.kw, self.inlined, self.argnodes, self.starred = (), {}, False, (), False
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def where(self):
        return f"{self.func.module.rel}:{getattr(self.node, 'lineno', '?')}"

    def arg(self, i, name=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        return self.kw.get(name) if name else None

    def __repr__(self):
        if self.kind == "call":
            return f"{self.where} call {tm.show(self.term)}"
        if self.kind == "store":
            return f"{self.where} {tm.show(self.base)}.{self.attr} = {tm.show(self.value)}"
        if self.kind == "setitem":
            return f"{self.where} {tm.show(self.base)}[{tm.show(self.idx)}] = {tm.show(self.value)}"
        return f"{self.where} {self.kind} {tm.show(self.value) if self.value is not None else ''}"


class Seq:
    def __init__(self):
        self.items = []


class If:
    def __init__(self, cond, then, els, node, func):
        self.cond, self.then, self.els, self.node, self.func = cond, then, els, node, func


class Loop:
    def __init__(self, kind, it, cond, body, orelse, node, func, lid):
        self.kind, self.iter, self.cond, self.body, self.orelse = kind, it, cond, body, orelse
        self.node, self.func, self.lid = node, func, lid
        self.carried: Dict[str, Tuple[T, T]] = {}


class Try:
    def __init__(self, body, handlers, orelse, final, node, func):
        self.body, self.handlers, self.orelse, self.final, self.node, self.func = body, handlers, orelse, final, node, func


class With:
    def __init__(self, items, body, node, func):
        self.items, self.body, self.node, self.func = items, body, node, func


class Inline:
    def __init__(self, callee, ev, body, tail=False):
        self.callee, self.ev, self.body = callee, ev, body
        self.tail = tail  # `return helper(...)`: the returns of the helper are those of the function


class Env:
    def __init__(self):
        self.vars: Dict[str, T] = {}
        self.heap: Dict[Tuple[T, str], T] = {}
        self.subs: Dict[Tuple[T, T], T] = {}
        self.ver: Dict[str, int] = {}
        self.sver: Dict[T, int] = {}
        self.dead = False

    def copy(self):
        e = Env()
        e.vars, e.heap, e.subs = dict(self.vars), dict(self.heap), dict(self.subs)
        e.ver, e.sver, e.dead = dict(self.ver), dict(self.sver), self.dead
        return e

    def take(self, o):
        self.vars, self.heap, self.subs, self.ver, self.sver, self.dead = o.vars, o.heap, o.subs, o.ver, o.sver, o.dead


def join_env(c: T, a: Env, b: Env) -> Env:
    if a.dead:
        return b
    if b.dead:
        return a
    e = Env()
    for k in set(a.vars) | set(b.vars):
        x, y = a.vars.get(k), b.vars.get(k)
        e.vars[k] = ite(c, x if x is not None else mk("undef", k), y if y is not None else mk("undef", k))
    for k in set(a.ver) | set(b.ver):
        e.ver[k] = max(a.ver.get(k, 0), b.ver.get(k, 0))
    for k in set(a.sver) | set(b.sver):
        e.sver[k] = max(a.sver.get(k, 0), b.sver.get(k, 0))
    for k in set(a.heap) | set(b.heap):
        x = a.heap.get(k) or mk("attr", k[0], k[1], a.ver.get(k[1], 0))
        y = b.heap.get(k) or mk("attr", k[0], k[1], b.ver.get(k[1], 0))
        e.heap[k] = ite(c, x, y)
    for k in set(a.subs) & set(b.subs):
        e.subs[k] = ite(c, a.subs[k], b.subs[k])
    for k in set(a.subs) ^ set(b.subs):
        e.sver[k[0]] = e.sver.get(k[0], 0) + 1
    return e


class Frame:
    def __init__(self, func: Func, module: Module, depth: int, parent_env=None, self_term=None):
        self.func, self.module, self.depth = func, module, depth
        self.returns: List[Tuple[T, T, Env]] = []
        self.pc: List[T] = []
        self.local_imports: Dict[str, str] = {}
        self.closure: Optional[Env] = parent_env
        self.breaks: List[List[Tuple[T, Env]]] = []
        self.conts: List[List[Tuple[T, Env]]] = []
        self.globals_decl = set()
        self.leave = False  # of a helper evaluated in place: its returns aren't those of the function judged


def default_policy(root: Func):
    """Inline helpers that live in the root's own module."""

    def pol(caller: Func, callee: Func, depth: int) -> bool:
        return callee.module is root.module and depth < 6

    return pol


class Evaluator:
    def __init__(self, prog: Program, policy=None, opaque=(), self_cls: Optional[Cls] = None, max_events=20000):
        self.prog, self.policy = prog, policy
        self.opaque = set(opaque)
        self.types: Dict[T, str] = {}
        self.closures: Dict[T, Tuple] = {}
        self.tail = None
        self.uid = 0
        self.lid = 0
        self.count = 0
        self.max_events = max_events
        self.stack: List[str] = []
        self.regions: List[Seq] = []
        self.inlined: set = set()
        self.phis: Dict[T, Tuple[T, T]] = {}

    # ------------------------------------------------------------------ driver
    def run(self, func: Func, self_cls: Optional[Cls] = None, bind: Optional[Dict[str, T]] = None):
        self.root = func
        if self.policy is None:
            self.policy = default_policy(func)
        fr = Frame(func, func.module, 0)
        env = Env()
        a = func.node.args
        names = [x for x in a.posonlyargs + a.args + a.kwonlyargs]
        for i, p in enumerate(names):
            if i == 0 and func.cls and not func.is_static:
                c = self_cls or func.cls
                t = mk("self", c.qual) if not func.is_classmethod else mk("cls", c.qual)
                self.types[t] = c.qual
            else:
                t = mk("param", p.arg)
                ty = self.prog.ann_type(func.module, p.annotation)
                if ty:
                    self.types[t] = ty
            env.vars[p.arg] = (bind or {}).get(p.arg, t)
        for s in (a.vararg, a.kwarg):
            if s:
                env.vars[s.arg] = mk("param", ("*" if s is a.vararg else "**") + s.arg)
        seq = Seq()
        self.stack.append(func.qual)
        self.block(func.node.body, env, fr, seq)
        self.stack.pop()
        self.final_env = env
        self.ret = self._merge_returns(fr, env)[0]
        self.frame = fr
        return seq

    # ------------------------------------------------------------------ helpers
    def fresh(self):
        self.uid += 1
        return self.uid

    def emit(self, seq: Seq, ev: Ev):
        self.count += 1
        if self.count > self.max_events:
            raise AnalysisBroken(f"event budget exceeded analysing {self.root.qual}")
        seq.items.append(ev)
        return ev

    def typ(self, t: T) -> Optional[str]:
        if t in self.types:
            return self.types[t]
        if t.k == "self":
            return t.a[0]
        if t.k == "new":
            return t.a[0].a[0] if isinstance(t.a[0], T) else None
        if t.k == "attr":
            b = self.typ(t.a[0])
            if b and b in self.prog.classes:
                return self.prog.attr_types(self.prog.classes[b]).get(t.a[1])
        if t.k == "ite":
            x = [self.typ(y) for y in tm.alts(t) if y is not NONE]
            x = set(x)
            if len(x) == 1:
                return x.pop()
            named = {y for y in x if y}
            return named.pop() if len(named) == 1 else None
        if t.k == "call":
            f = t.a[0]
            if f.k == "fn":
                g = self.prog.funcs.get(f.a[0])
                if g:
                    return self.prog.ann_type(g.module, g.node.returns)
            if f.k == "meth":
                b = self.typ(f.a[0])
                if b in self.prog.classes:
                    g = self.prog.classes[b].find(f.a[1])
                    if g:
                        return self.prog.ann_type(g.module, g.node.returns)
        if t.k == "elem":
            return None
        return None

    def pcond(self, fr: Frame) -> T:
        return tm.and_(*fr.pc)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, env: Env, fr: Frame, seq: Seq):
        npc = len(fr.pc)
        for s in stmts:
            if env.dead:
                break
            self.stmt(s, env, fr, seq)
        del fr.pc[npc:]

    def stmt(self, s, env: Env, fr: Frame, seq: Seq):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken(f"statement kind {type(s).__name__} not supported at {fr.module.rel}:{s.lineno}")
        m(s, env, fr, seq)

    def s_Pass(self, s, env, fr, seq):
        pass

    def s_Global(self, s, env, fr, seq):
        fr.globals_decl |= set(s.names)

    def s_Nonlocal(self, s, env, fr, seq):
        pass

    def s_Import(self, s, env, fr, seq):
        self.prog._imp(fr.module, s, fr.local_imports)
        for a in s.names:
            env.vars.pop(a.asname or a.name.split(".")[0], None)

    def s_ImportFrom(self, s, env, fr, seq):
        self.prog._imp(fr.module, s, fr.local_imports)
        for a in s.names:
            env.vars.pop(a.asname or a.name, None)

    def s_FunctionDef(self, s, env, fr, seq):
        f = Func(fr.module, s, f"{fr.func.qual}.<{s.name}>", None)
        t = mk("localfn", f.qual)
        self.closures[t] = (f, env, fr)
        env.vars[s.name] = t

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, env, fr, seq):
        env.vars[s.name] = mk("localcls", s.name)

    def s_Expr(self, s, env, fr, seq):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env, fr, seq)

    def s_Assign(self, s, env, fr, seq):
        v = self.ev(s.value, env, fr, seq)
        for t in s.targets:
            self.assign(t, v, env, fr, seq, s)

    def s_AnnAssign(self, s, env, fr, seq):
        if s.value is None:
            return
        v = self.ev(s.value, env, fr, seq)
        ty = self.prog.ann_type(fr.module, s.annotation)
        if ty:
            self.types.setdefault(v, ty)
        self.assign(s.target, v, env, fr, seq, s)

    def s_AugAssign(self, s, env, fr, seq):
        cur = self.ev(s.target, env, fr, seq, load=True)
        v = self.ev(s.value, env, fr, seq)
        if isinstance(s.op, ast.Add) and cur.k in ("list", "append", "extend", "comp") or (
            isinstance(s.op, ast.Add) and v.k in ("list", "comp") and v.k != "const"
        ):
            r = mk("extend", cur, v)
        else:
            r = self.binop(s.op, cur, v)
        self.assign(s.target, r, env, fr, seq, s)

    def assign(self, t, v, env, fr, seq, node):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
            if t.id in fr.globals_decl:
                self.emit(seq, Ev("store", node, fr.func, base=mk("mod", fr.module.name), attr=t.id, value=v))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env, fr, seq)
            self.store_attr(b, t.attr, v, env, fr, seq, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, fr, seq)
            i = self.ev(t.slice, env, fr, seq)
            self.emit(seq, Ev("setitem", node, fr.func, base=b, idx=i, value=v))
            nb = self.set_item(b, i, v)
            if nb is not None:
                self.writeback(t.value, nb, env, fr, seq)
            else:
                for k in [k for k in env.subs if k[0] is b]:
                    if not (k[1].k == "const" and i.k == "const" and k[1] is not i):
                        del env.subs[k]
                env.subs[(b, i)] = v
                env.sver[b] = env.sver.get(b, 0) + 1
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk("rest", v, i), env, fr, seq, node)
                elif star and i > star[0]:
                    self.assign(e, self.subscript(v, const(i - len(t.elts)), env), env, fr, seq, node)
                else:
                    self.assign(e, self.subscript(v, const(i), env), env, fr, seq, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, fr, seq, node)
        else:
            raise AnalysisBroken(f"assignment target {type(t).__name__}")

    def store_attr(self, b, attr, v, env, fr, seq, node):
        # property setter?
        ty = self.typ(b)
        if ty and ty in self.prog.classes:
            for c in self.prog.classes[ty].mro():
                if attr in c.setters:
                    st = c.setters[attr]
                    ev = Ev("call", node, fr.func, fn=mk("meth", b, attr + ".setter"), args=(v,), callee=st.qual,
                            name=attr, recv=b)
                    ev.term = mk("call", ev.fn, (v,), (), self.fresh())
                    self.emit(seq, ev)
                    self.inline_call(st, ev, [b, v], {}, env, fr, seq, node)
                    return
        self.emit(seq, Ev("store", node, fr.func, base=b, attr=attr, value=v))
        env.heap[(b, attr)] = v
        # may-alias: the same attribute of another base term of unknown identity stays as is (distinct names)

    def set_item(self, b, i, v):
        """Functional update of a locally built dict/list literal; None when b is not one."""
        if b.k == "dict":
            items = [(k, x) for k, x in b.a[0]]
            if i.k == "const" and all(k.k == "const" for k, _ in items):
                items = [(k, x) for k, x in items if k is not i] + [(i, v)]
                return mk("dict", tuple(items))
            return mk("upd", b, i, v)
        if b.k in ("upd", "phi", "list", "listn", "append", "extend", "comp"):
            return mk("upd", b, i, v)
        if b.k == "ite" and any(x.k in ("dict", "upd") for x in tm.alts(b)):
            return mk("upd", b, i, v)
        return None

    def s_Delete(self, s, env, fr, seq):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, env, fr, seq)
                self.emit(seq, Ev("del", s, fr.func, base=b, attr=t.attr))
                env.heap[(b, t.attr)] = mk("deleted")
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, env, fr, seq)
                i = self.ev(t.slice, env, fr, seq)
                self.emit(seq, Ev("del", s, fr.func, base=b, idx=i))
                if b.k == "dict" and i.k == "const" and all(k.k == "const" for k, _ in b.a[0]):
                    self.writeback(t.value, mk("dict", tuple((k, x) for k, x in b.a[0] if k is not i)), env, fr, seq)
                    continue
                for k in [k for k in env.subs if k[0] is b]:
                    del env.subs[k]
                if b.k != "unknown":
                    self.writeback(t.value, mk("mut", b, "del", (i,), self.fresh()), env, fr, seq)
                env.sver[b] = env.sver.get(b, 0) + 1

    def s_Return(self, s, env, fr, seq):
        self.tail = s.value if isinstance(s.value, ast.Call) and not fr.leave else None
        v = self.ev(s.value, env, fr, seq) if s.value is not None else NONE
        self.tail = None
        if env.dead:
            return  # a helper that always raises
        last = seq.items[-1] if seq.items else None
        if not (isinstance(last, Inline) and last.tail and last.ev.node is s.value):
            self.emit(seq, Ev("leave" if fr.leave else "return", s, fr.func, value=v))
        fr.returns.append((self.pcond(fr), v, env.copy()))
        env.dead = True

    def s_Raise(self, s, env, fr, seq):
        v = self.ev(s.exc, env, fr, seq) if s.exc is not None else mk("reraise")
        if s.cause is not None:
            self.ev(s.cause, env, fr, seq)
        self.emit(seq, Ev("raise", s, fr.func, value=v))
        env.dead = True

    def s_Assert(self, s, env, fr, seq):
        c = truth(self.ev(s.test, env, fr, seq))
        if c is TRUE:
            return
        th, el = Seq(), Seq()
        th.items.append(Ev("raise", s, fr.func, value=mk("assertion")))
        seq.items.append(If(not_(c), th, el, s, fr.func))
        fr.pc.append(c)

    def s_Break(self, s, env, fr, seq):
        self.emit(seq, Ev("break", s, fr.func))
        if fr.breaks:
            fr.breaks[-1].append((self.pcond(fr), env.copy()))
        env.dead = True

    def s_Continue(self, s, env, fr, seq):
        self.emit(seq, Ev("continue", s, fr.func))
        if fr.conts:
            fr.conts[-1].append((self.pcond(fr), env.copy()))
        env.dead = True

    def s_If(self, s, env, fr, seq):
        c = truth(self.ev(s.test, env, fr, seq))
        if c is TRUE:
            self.block(s.body, env, fr, seq)
            return
        if c is FALSE:
            self.block(s.orelse, env, fr, seq)
            return
        th, el = Seq(), Seq()
        e1, e2 = env.copy(), env.copy()
        fr.pc.append(c)
        self.block(s.body, e1, fr, th)
        fr.pc.pop()
        fr.pc.append(not_(c))
        self.block(s.orelse, e2, fr, el)
        fr.pc.pop()
        seq.items.append(If(c, th, el, s, fr.func))
        if e1.dead and e2.dead:
            env.take(e1)
            env.dead = True
        elif e1.dead:
            env.take(e2)
            fr.pc.append(not_(c))
        elif e2.dead:
            env.take(e1)
            fr.pc.append(c)
        else:
            env.take(join_env(c, e1, e2))

    # -- loops
    def _modified(self, stmts, fr: Frame):
        names, attrs, subs = set(), set(), set()
        for st in stmts:
            for n in [st] + list(walk_own(st)):
                tg = []
                if isinstance(n, ast.Assign):
                    tg = n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
                    tg = [n.target]
                elif isinstance(n, ast.With):
                    tg = [i.optional_vars for i in n.items if i.optional_vars is not None]
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
                elif isinstance(n, ast.Delete):
                    tg = n.targets
                for t in tg:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                            names.add(x.id)
                        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                            attrs.add(x.attr)
                        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                            b = x.value
                            while isinstance(b, ast.Subscript):
                                b = b.value
                            if isinstance(b, ast.Name):
                                names.add(b.id)
                            elif isinstance(b, ast.Attribute):
                                attrs.add(b.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    b = n.func.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Name):
                        names.add(b.id)
                    elif isinstance(b, ast.Attribute):
                        attrs.add(b.attr)
                if isinstance(n, ast.Call):
                    for g in self.prog.callees_by_name(fr.func, n):
                        attrs |= self.prog.mod_attrs(g)
                        # a list handed to a helper that fills it
                        for arg in n.args:
                            if isinstance(arg, ast.Name) and self._callee_mutates(g, n, arg):
                                names.add(arg.id)
        return names, attrs

    def _callee_mutates(self, g: Func, call, arg) -> bool:
        try:
            pos = call.args.index(arg)
        except ValueError:
            return False
        ps = g.params
        if g.cls and not g.is_static:
            pos += 1
        if pos >= len(ps):
            return False
        p = ps[pos]
        for n in walk_own(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS \
                    and isinstance(n.func.value, ast.Name) and n.func.value.id == p:
                return True
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == p:
                return True
        return False

    def _kill_attrs(self, attrs, env: Env):
        for k in [k for k in env.heap if k[1] in attrs]:
            del env.heap[k]
        for a in attrs:
            env.ver[a] = env.ver.get(a, 0) + 1

    def _loop_head(self, s, env, fr, lid, extra_names=()):
        names, attrs = self._modified(s.body + getattr(s, "orelse", []), fr)
        names |= set(extra_names)
        head = env.copy()
        for n in names:
            if n in head.vars:
                p = mk("phi", lid, n)
                ty = self.typ(head.vars[n])
                if ty:
                    self.types[p] = ty
                head.vars[n] = p
        self._kill_attrs(attrs, head)
        for k in list(head.subs):
            del head.subs[k]
            head.sver[k[0]] = head.sver.get(k[0], 0) + 1
        return names, attrs, head

    def _loop_exit(self, init: Env, head: Env, end: Env, breaks, names, loop: Loop, env: Env, fr: Frame, iterterm=None):
        # carried values
        for n in names:
            if n in init.vars and n in head.vars and head.vars[n].k == "phi":
                fin = end.vars.get(n) if not end.dead else head.vars[n]
                loop.carried[n] = (init.vars[n], fin if fin is not None else head.vars[n])
                self.phis[head.vars[n]] = loop.carried[n]
        out = head.copy()
        for n, (i, e) in list(loop.carried.items()):
            v = self._summarise(head.vars[n], i, e, loop, breaks)
            if v is not None:
                out.vars[n] = v
        for n in names:
            if n not in init.vars and n in end.vars and not end.dead:
                out.vars[n] = mk("last", loop.lid, end.vars[n])
        for i, (c, be) in enumerate(breaks):
            out = join_env(mk("broke", loop.lid, i, c), be, out) if not out.dead else be
        env.take(out)

    def _summarise(self, phi: T, init: T, end: T, loop: Loop, breaks):
        """Turn recognised accumulations into comprehension terms, so a loop and a comprehension agree."""
        if loop.kind != "for" or loop.iter is None or breaks or loop.has_cont_values:
            return None
        it = loop.iter
        cond = TRUE
        e = end
        if e.k == "ite":
            if e.a[2] is phi:
                cond, e = e.a[0], e.a[1]
            elif e.a[1] is phi:
                cond, e = not_(e.a[0]), e.a[2]
        if e is phi:
            return init
        if e.k == "append" and e.a[0] is phi and not tm.contains(e.a[1], phi):
            c = mk("comp", "list", e.a[1], ((it, cond),))
            return c if init.k == "list" and init.a[0] == () else mk("extend", init, c)
        if e.k == "extend" and e.a[0] is phi and not tm.contains(e.a[1], phi):
            inner = e.a[1]
            if inner.k == "comp" and inner.a[0] in ("list", "gen"):
                c = mk("comp", "list", inner.a[1], ((it, cond),) + inner.a[2])
            else:
                c = mk("comp", "flat", inner, ((it, cond),))
            return c if init.k == "list" and init.a[0] == () else mk("extend", init, c)
        if e.k == "upd" and e.a[0] is phi and not tm.contains(e.a[1], phi) and not tm.contains(e.a[2], phi):
            c = mk("comp", "dict", mk("tuple", (e.a[1], e.a[2])), ((it, cond),))
            return c if init.k == "dict" and init.a[0] == () else mk("dmerge", init, c)
        d = tm.sub(e, phi)
        if d.k not in ("cat",) and not tm.contains(d, phi) and e.k == "poly":
            if is_int_const(d) and cond is TRUE:
                return tm.add(init, tm.mul(d, call_len(it)))
            c = mk("comp", "gen", d, ((it, cond),))
            return tm.add(init, mk("call", mk("ext", "sum"), (c,), (), 0))
        return None

    def s_For(self, s, env, fr, seq):
        it = self.ev(s.iter, env, fr, seq)
        self._for(s, it, env, fr, seq)

    s_AsyncFor = s_For

    def _for(self, s, it, env, fr, seq):
        self.lid += 1
        lid = self.lid
        tnames = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        names, attrs, head = self._loop_head(s, env, fr, lid)
        body, orelse = Seq(), Seq()
        base_it, elem = iter_norm(it)
        loop = Loop("for", base_it, None, body, orelse, s, fr.func, lid)
        loop.has_cont_values = False
        b_env = head.copy()
        self.assign(s.target, elem, b_env, fr, body, s)
        # counters that advance with the loop: i = k; for ...: ...; i += 1
        for n in names - tnames:
            if n in env.vars and head.vars.get(n) is not None and self._is_counter(s.body, n) is not None:
                b_env.vars[n] = tm.add(env.vars[n], tm.mul(const(self._is_counter(s.body, n)), mk("idx", base_it)))
        fr.breaks.append([])
        fr.conts.append([])
        npc = len(fr.pc)
        fr.pc.append(mk("iter", lid, base_it))
        self.block(s.body, b_env, fr, body)
        del fr.pc[npc:]
        breaks, conts = fr.breaks.pop(), fr.conts.pop()
        for c, ce in conts:
            loop.has_cont_values = loop.has_cont_values or False
            b_env_new = join_env(c, ce, b_env)
            b_env = b_env_new
        seq.items.append(loop)
        init = env.copy()
        self._loop_exit(init, head, b_env, breaks, names - tnames, loop, env, fr)
        for n in names - tnames:
            st = self._is_counter(s.body, n) if n in init.vars else None
            if st is not None and not breaks:
                env.vars[n] = tm.add(init.vars[n], tm.mul(const(st), call_len(base_it)))
        for n in tnames:
            env.vars[n] = mk("last", lid, b_env.vars[n]) if n in b_env.vars else env.vars.get(n, mk("undef", n))
        if s.orelse:
            self.block(s.orelse, env, fr, orelse)

    def _is_counter(self, stmts, name) -> Optional[int]:
        """name is changed in the loop only by one unconditional final-level `name += c`, placed last among its uses."""
        writes = []
        for i, st in enumerate(stmts):
            for n in [st] + list(walk_own(st)):
                if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                    writes.append((i, st))
                if isinstance(n, ast.Continue):
                    return None
        if len(writes) != 1:
            return None
        i, st = writes[0]
        step = None
        if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and isinstance(st.value, ast.Constant) \
                and isinstance(st.value.value, int) and isinstance(st.target, ast.Name):
            step = st.value.value
        elif isinstance(st, ast.Assign) and isinstance(st.value, ast.BinOp) and isinstance(st.value.op, ast.Add):
            l, r = st.value.left, st.value.right
            if isinstance(l, ast.Name) and l.id == name and isinstance(r, ast.Constant) and isinstance(r.value, int):
                step = r.value
        if step is None:
            return None
        for later in stmts[i + 1:]:
            if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(later)):
                return None
        return step

    def s_While(self, s, env, fr, seq):
        self.lid += 1
        lid = self.lid
        # while i < len(xs): x = xs[i]; ...; i += 1   ==   for i, x in enumerate(xs)
        ind = self._while_index(s, env, fr)
        names, attrs, head = self._loop_head(s, env, fr, lid)
        body, orelse = Seq(), Seq()
        init = env.copy()
        if ind is not None:
            name, xs = ind
            head.vars[name] = mk("idx", xs)
            loop = Loop("for", xs, None, body, orelse, s, fr.func, lid)
            b_env = head.copy()
            cond = TRUE
        else:
            pre = Seq()
            b_env = head.copy()
            cond = truth(self.ev(s.test, b_env, fr, pre))
            body.items.extend(pre.items)
            loop = Loop("while", None, cond, body, orelse, s, fr.func, lid)
            head = b_env.copy()
        loop.has_cont_values = False
        fr.breaks.append([])
        fr.conts.append([])
        npc = len(fr.pc)
        inner = body
        if ind is None and cond is not TRUE:
            inner = Seq()
            brk = Seq()
            brk.items.append(Ev("break", s, fr.func))
            body.items.append(If(cond, inner, brk, s, fr.func))
            fr.pc.append(cond)
        elif ind is not None:
            fr.pc.append(mk("iter", lid, ind[1]))
        self.block(s.body, b_env, fr, inner)
        del fr.pc[npc:]
        breaks, conts = fr.breaks.pop(), fr.conts.pop()
        for c, ce in conts:
            b_env = join_env(c, ce, b_env)
        seq.items.append(loop)
        nm = names - ({ind[0]} if ind else set())
        if cond is TRUE and ind is None:
            # while True: leaves only through breaks
            if breaks:
                for n in nm:
                    if n in init.vars and n in head.vars and head.vars[n].k == "phi":
                        loop.carried[n] = (init.vars[n], b_env.vars.get(n, head.vars[n]) if not b_env.dead else head.vars[n])
                        self.phis[head.vars[n]] = loop.carried[n]
                out = breaks[-1][1]
                for i, (c, be) in list(enumerate(breaks))[:-1][::-1]:
                    out = join_env(mk("broke", lid, i, c), be, out)
                env.take(out)
                env.dead = False
            else:
                env.dead = True
        else:
            self._loop_exit(init, head, b_env, breaks, nm, loop, env, fr)
            if ind is not None:
                env.vars[ind[0]] = call_len(ind[1])
        if s.orelse and not env.dead:
            self.block(s.orelse, env, fr, orelse)

    def _while_index(self, s, env, fr):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, r = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            l, r = r, l
        elif not isinstance(t.ops[0], ast.Lt):
            return None
        if not isinstance(l, ast.Name) or env.vars.get(l.id) is not ZERO:
            return None
        if self._is_counter(s.body, l.id) != 1:
            return None
        names, _ = self._modified(s.body, fr)
        if {x.id for x in ast.walk(r) if isinstance(x, ast.Name)} & names:
            return None
        v = self.ev(r, env.copy(), fr, Seq())
        if v.k == "call" and v.a[0].k == "ext" and v.a[0].a[0] == "len":
            return l.id, v.a[1][0]
        return l.id, mk("call", mk("ext", "range"), (v,), (), 0)

    # -- exceptions
    def s_Try(self, s, env, fr, seq):
        body, orelse, final = Seq(), Seq(), Seq()
        start = env.copy()
        e1 = env.copy()
        npc = len(fr.pc)
        self.block(s.body, e1, fr, body)
        names, attrs = self._modified(s.body, fr)
        handlers = []
        self.lid += 1
        lid = self.lid
        outs = []
        if s.orelse and not e1.dead:
            self.block(s.orelse, e1, fr, orelse)
        for i, h in enumerate(s.handlers):
            he = start.copy()
            for n in names:
                cur = he.vars.get(n)
                if cur is None and n not in e1.vars:
                    continue
                he.vars[n] = mk("maybe", lid, n, cur if cur is not None else mk("undef", n))
            self._kill_attrs(attrs, he)
            types = self._handler_types(h, he, fr)
            if h.name:
                he.vars[h.name] = mk("exc", lid, i)
            hs = Seq()
            fr.pc.append(mk("caught", lid, i))
            self.block(h.body, he, fr, hs)
            fr.pc.pop()
            handlers.append((types, h.name, hs, h))
            outs.append((mk("caught", lid, i), he))
        out = e1
        for c, he in outs:
            if out.dead and not he.dead:
                out = he
            else:
                out = join_env(c, he, out)
        del fr.pc[npc:]
        env.take(out)
        if e1.dead and all(h.dead for _, h in outs):
            env.dead = True
        if s.finalbody:
            d = env.dead
            fe = env if not d else start.copy()
            self.block(s.finalbody, fe, fr, final)
            if d:
                env.dead = True
        seq.items.append(Try(body, handlers, orelse, final, s, fr.func))

    s_TryStar = s_Try

    def _handler_types(self, h, env, fr):
        if h.type is None:
            return ["BaseException"]
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in elts:
            t = self.ev(e, env, fr, Seq())
            out.append(t.a[0] if t.k in ("ext", "cls", "glob") else ast.unparse(e))
        return out

    def s_With(self, s, env, fr, seq):
        items = []
        inner = Seq()
        for i in s.items:
            c = self.ev(i.context_expr, env, fr, seq)
            items.append(c)
            if i.optional_vars is not None:
                v = c if is_open(c) else mk("entered", c)
                ty = self.typ(c)
                if ty:
                    self.types.setdefault(v, ty)
                self.assign(i.optional_vars, v, env, fr, inner, s)
        supp = [c for c in items if is_suppress(c)]
        if supp:
            start = env.copy()
        self.block(s.body, env, fr, inner)
        if supp:
            # the body may have been abandoned half-way
            self.lid += 1
            names, attrs = self._modified(s.body, fr)
            he = start
            for n in names:
                cur = he.vars.get(n)
                if cur is None and n not in env.vars:
                    continue
                he.vars[n] = mk("maybe", self.lid, n, cur if cur is not None else mk("undef", n))
            self._kill_attrs(attrs, he)
            if env.dead:
                env.take(he)
                env.dead = False
            else:
                env.take(join_env(mk("caught", self.lid, 0), he, env))
        seq.items.append(With(items, inner, s, fr.func))

    s_AsyncWith = s_With

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env: Env, fr: Frame, seq: Seq, load=False) -> T:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return mk("expr", ast.dump(e))
        return m(e, env, fr, seq)

    def e_Constant(self, e, env, fr, seq):
        if e.value is Ellipsis:
            return mk("ellipsis")
        return const(e.value)

    def e_Name(self, e, env, fr, seq):
        return self.name(e.id, env, fr)

    def name(self, n, env, fr) -> T:
        if n in env.vars and n not in fr.globals_decl:
            return env.vars[n]
        c = fr.closure
        if c is not None and n in c.vars:
            return c.vars[n]
        if n in fr.local_imports:
            return self.symbol(self.prog.canonical(fr.local_imports[n]))
        cf = getattr(fr, "closure_frame", None)
        while cf is not None:
            if n in cf.local_imports:
                return self.symbol(self.prog.canonical(cf.local_imports[n]))
            if cf.closure is not None and n in cf.closure.vars:
                return cf.closure.vars[n]
            cf = getattr(cf, "closure_frame", None)
        r = self.prog.resolve_name(fr.module, n)
        if r is None:
            return mk("ext", n)
        return self.symbol(r)

    def symbol(self, dotted) -> T:
        p = self.prog
        if dotted in p.funcs:
            return mk("fn", dotted)
        if dotted in p.classes:
            return mk("cls", dotted)
        if dotted in p.modules:
            return mk("mod", dotted)
        ex = p.const_exprs(dotted)
        if ex:
            if len(ex) == 1:
                v = self.fold(ex[0][0], ex[0][1])
                if v is not None:
                    return v
            return mk("glob", dotted)
        return mk("ext", dotted)

    def fold(self, m, e) -> Optional[T]:
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, (ast.BinOp, ast.JoinedStr, ast.UnaryOp)):
            ok = all(
                isinstance(n, (ast.Constant, ast.BinOp, ast.JoinedStr, ast.FormattedValue, ast.UnaryOp, ast.operator,
                               ast.unaryop, ast.Name, ast.expr_context))
                for n in ast.walk(e)
            )
            if ok:
                fr = Frame(Func(m, ast.parse("def _c(): pass").body[0], f"{m.name}.<const>"), m, 0)
                return self.ev(e, Env(), fr, Seq())
        if isinstance(e, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in e.elts):
            return mk("tuple" if isinstance(e, ast.Tuple) else "list", tuple(const(x.value) for x in e.elts))
        return None

    def e_Attribute(self, e, env, fr, seq):
        b = self.ev(e.value, env, fr, seq)
        return self.load_attr(b, e.attr, env, fr, seq, e)

    def load_attr(self, b, attr, env, fr, seq, node):
        if b.k in ("ext", "mod"):
            return self.symbol(self.prog.canonical(f"{b.a[0]}.{attr}"))
        if b.k == "cls":
            c = self.prog.classes.get(b.a[0])
            if c:
                f = c.find(attr)
                if f is not None:
                    return mk("fn", f.qual)
                if attr in c.attrs:
                    v = self.fold(c.module, c.attrs[attr])
                    if v is not None and not c.is_sub("Enum"):
                        return v
            return mk("attr", b, attr, 0)
        k = (b, attr)
        if k in env.heap:
            return env.heap[k]
        ty = self.typ(b)
        if ty and ty in self.prog.classes:
            c = self.prog.classes[ty]
            f = c.find(attr)
            if f is not None and f.is_property:
                if not any(attr in s.methods for s in c.all_subclasses()) and self.may_inline(fr, f):
                    ev = Ev("call", node, fr.func, fn=mk("meth", b, attr), callee=f.qual, name=attr, recv=b)
                    ev.term = mk("attr", b, attr, env.ver.get(attr, 0))
                    return self.inline_call(f, ev, [b], {}, env, fr, seq, node)
                return mk("attr", b, attr, env.ver.get(attr, 0))
        if b.k == "ite" and all(x.k == "new" for x in tm.alts(b)):
            pass
        return mk("attr", b, attr, env.ver.get(attr, 0))

    def e_Subscript(self, e, env, fr, seq):
        b = self.ev(e.value, env, fr, seq)
        i = self.ev(e.slice, env, fr, seq)
        ty = self.typ(b)
        if ty and ty in self.prog.classes:
            f = self.prog.classes[ty].find("__getitem__")
            if f is not None:
                ev = Ev("call", e, fr.func, fn=mk("meth", b, "__getitem__"), args=(i,), callee=f.qual, name="__getitem__",
                        recv=b, argnodes=(e.slice,))
                ev.term = mk("sub", b, i, env.sver.get(b, 0))
                self.emit(seq, ev)
                if not any("__getitem__" in s.methods for s in self.prog.classes[ty].all_subclasses()) and self.may_inline(fr, f):
                    return self.inline_call(f, ev, [b, i], {}, env, fr, seq, e)
                return ev.term
        return self.subscript(b, i, env)

    def subscript(self, b, i, env) -> T:
        if (b, i) in env.subs:
            return env.subs[(b, i)]
        if b.k in ("tuple", "list") and i.k == "const" and i.a[0] == "int":
            elts = b.a[0]
            if not any(x.k == "star" for x in elts) and -len(elts) <= i.a[1] < len(elts):
                return elts[i.a[1]]
        if b.k == "dict" and i.k == "const":
            for k, v in reversed(b.a[0]):
                if k is i:
                    return v
        if b.k == "upd" and b.a[1] is i:
            return b.a[2]
        if b.k == "upd" and b.a[1].k == "const" and i.k == "const":
            return self.subscript(b.a[0], i, env)
        if i.k == "idx" and i.a[0] is b:
            return mk("elem", b)
        if b.k == "ite":
            return ite(b.a[0], self.subscript(b.a[1], i, env), self.subscript(b.a[2], i, env))
        return mk("sub", b, i, env.sver.get(b, 0))

    def e_Slice(self, e, env, fr, seq):
        f = lambda x: NONE if x is None else self.ev(x, env, fr, seq)  # noqa: E731
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    def e_BinOp(self, e, env, fr, seq):
        return self.binop(e.op, self.ev(e.left, env, fr, seq), self.ev(e.right, env, fr, seq))

    def binop(self, op, a, b) -> T:
        if isinstance(op, ast.Add):
            if tm.is_str(a) or tm.is_str(b):
                return tm.cat([a, b])
            if a.k in ("list", "tuple") and b.k == a.k:
                return mk(a.k, a.a[0] + b.a[0])
            if a.k in ("list", "comp", "append", "extend") or b.k in ("list", "comp"):
                return mk("extend", a, b)
            if a.k == "const" and a.a[0] == "bytes" or b.k == "const" and b.a[0] == "bytes" or is_bytes(a) or is_bytes(b):
                return mk("bcat", tuple((list(a.a[0]) if a.k == "bcat" else [a]) + (list(b.a[0]) if b.k == "bcat" else [b])))
            return tm.add(a, b)
        if isinstance(op, ast.Sub):
            if a.k == "set" or b.k == "set":
                return mk("op", "-", a, b)
            return tm.sub(a, b)
        if isinstance(op, ast.Mult):
            if a.k == "list" or b.k == "list":
                return mk("repeat", a, b) if a.k == "list" else mk("repeat", b, a)
            if tm.is_str(a) or tm.is_str(b):
                return mk("op", "*", a, b)
            return tm.mul(a, b)
        name = type(op).__name__
        if tm.is_num(a) and tm.is_num(b):
            try:
                x, y = a.a[1], b.a[1]
                r = {"FloorDiv": lambda: x // y, "Mod": lambda: x % y, "Pow": lambda: x**y, "Div": lambda: x / y,
                     "LShift": lambda: x << y, "RShift": lambda: x >> y, "BitOr": lambda: x | y, "BitAnd": lambda: x & y}.get(name)
                if r and not (name == "Pow" and y > 64):
                    return const(r())
            except Exception:
                pass
        if name == "Mod" and tm.is_str(a):
            return mk("op", "%", a, b)
        return mk("op", name, a, b)

    def e_UnaryOp(self, e, env, fr, seq):
        v = self.ev(e.operand, env, fr, seq)
        if isinstance(e.op, ast.Not):
            return not_(truth(v))
        if isinstance(e.op, ast.USub):
            return tm.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("op", "~", v)

    def e_BoolOp(self, e, env, fr, seq):
        """x and y / x or y, later operands evaluated under the gate of the earlier ones."""
        is_and = isinstance(e.op, ast.And)
        return self._boolop(e.values, is_and, env, fr, seq, e)

    def _boolop(self, vals, is_and, env, fr, seq, node):
        v = self.ev(vals[0], env, fr, seq)
        if len(vals) == 1:
            return v
        c = truth(v)
        g = c if is_and else not_(c)
        if g is FALSE:
            return v
        if g is TRUE:
            return self._boolop(vals[1:], is_and, env, fr, seq, node)
        inner = Seq()
        e1 = env.copy()
        fr.pc.append(g)
        r = self._boolop(vals[1:], is_and, e1, fr, inner, node)
        fr.pc.pop()
        if inner.items:
            seq.items.append(If(g, inner, Seq(), node, fr.func))
            env.take(join_env(g, e1, env.copy()))
        else:
            env.take(e1)
        if c.k in tm.BOOLISH and r.k in tm.BOOLISH + ("const",) and (r.k != "const" or r.a[0] == "bool"):
            return tm.and_(c, r) if is_and else tm.or_(c, r)
        return mk_boolop(is_and, v, r)

    def e_IfExp(self, e, env, fr, seq):
        c = truth(self.ev(e.test, env, fr, seq))
        if c is TRUE:
            return self.ev(e.body, env, fr, seq)
        if c is FALSE:
            return self.ev(e.orelse, env, fr, seq)
        a, b = Seq(), Seq()
        e1, e2 = env.copy(), env.copy()
        fr.pc.append(c)
        x = self.ev(e.body, e1, fr, a)
        fr.pc[-1] = not_(c)
        y = self.ev(e.orelse, e2, fr, b)
        fr.pc.pop()
        if a.items or b.items:
            seq.items.append(If(c, a, b, e, fr.func))
        env.take(join_env(c, e1, e2))
        return ite(c, x, y)

    def e_Compare(self, e, env, fr, seq):
        l = self.ev(e.left, env, fr, seq)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, env, fr, seq)
            out.append(self.compare(op, l, rv))
            l = rv
        return tm.and_(*out)

    def compare(self, op, l, r) -> T:
        o = type(op).__name__
        if o == "Lt":
            return tm.lt(l, r)
        if o == "Gt":
            return tm.lt(r, l)
        if o == "LtE":
            return tm.le(l, r)
        if o == "GtE":
            return tm.le(r, l)
        if o == "Eq":
            return tm.eq(l, r)
        if o == "NotEq":
            return not_(tm.eq(l, r))
        if o == "Is":
            return tm.is_(l, r)
        if o == "IsNot":
            return not_(tm.is_(l, r))
        if o in ("In", "NotIn"):
            if r.k in ("tuple", "list", "set") and isinstance(r.a[0], tuple) and r.a[0] and not any(x.k == "star" for x in r.a[0]):
                c = tm.or_(*[tm.eq(l, x) if x is not NONE else tm.is_(l, NONE) for x in r.a[0]])
            else:
                if r.k == "call" and r.a[0].k == "meth" and r.a[0].a[1] == "keys":
                    r = r.a[0].a[0]
                c = tm.in_(l, r)
            return c if o == "In" else not_(c)
        raise AnalysisBroken(f"comparison {o}")

    def e_Tuple(self, e, env, fr, seq):
        return mk("tuple", tuple(self.ev(x, env, fr, seq) for x in e.elts))

    def e_List(self, e, env, fr, seq):
        return self._flatten(mk("list", tuple(self.ev(x, env, fr, seq) for x in e.elts)))

    def _flatten(self, t):
        if any(x.k == "star" for x in t.a[0]):
            out = []
            for x in t.a[0]:
                if x.k == "star" and x.a[0].k in ("list", "tuple") and not any(y.k == "star" for y in x.a[0].a[0]):
                    out.extend(x.a[0].a[0])
                else:
                    out.append(x)
            return mk(t.k, tuple(out))
        return t

    def e_Set(self, e, env, fr, seq):
        return mk("set", tuple(sorted(self.ev(x, env, fr, seq) for x in e.elts)))

    def e_Dict(self, e, env, fr, seq):
        items = []
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, env, fr, seq)
            if k is None:
                if vv.k == "dict":
                    items.extend(vv.a[0])
                else:
                    items.append((mk("star", vv), vv))
            else:
                items.append((self.ev(k, env, fr, seq), vv))
        return mk("dict", tuple(items))

    def e_Starred(self, e, env, fr, seq):
        return mk("star", self.ev(e.value, env, fr, seq))

    def e_JoinedStr(self, e, env, fr, seq):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, env, fr, seq)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    spec = self.ev(v.format_spec, env, fr, seq) if v.format_spec is not None else NONE
                    x = mk("fmt", x, spec, v.conversion)
                elif x.k == "const" and x.a[0] in ("int",):
                    x = const(str(x.a[1]))
                parts.append(x)
        return tm.cat(parts) if parts else const("")

    def e_FormattedValue(self, e, env, fr, seq):
        return self.ev(e.value, env, fr, seq)

    def e_Lambda(self, e, env, fr, seq):
        t = mk("lambda", f"{fr.module.name}:{e.lineno}:{e.col_offset}")
        fd = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body)], decorator_list=[],
                             returns=None, lineno=e.lineno, col_offset=e.col_offset)
        ast.fix_missing_locations(fd)
        f = Func(fr.module, fd, f"{fr.func.qual}.<lambda>", None)
        self.closures[t] = (f, env.copy(), fr)
        return t

    def e_NamedExpr(self, e, env, fr, seq):
        v = self.ev(e.value, env, fr, seq)
        self.assign(e.target, v, env, fr, seq, e)
        return v

    def e_Await(self, e, env, fr, seq):
        return self.ev(e.value, env, fr, seq)

    def e_Yield(self, e, env, fr, seq):
        v = self.ev(e.value, env, fr, seq) if e.value is not None else NONE
        self.emit(seq, Ev("yield", e, fr.func, value=v))
        return mk("sent", self.fresh())

    def e_YieldFrom(self, e, env, fr, seq):
        v = self.ev(e.value, env, fr, seq)
        self.emit(seq, Ev("yield", e, fr.func, value=mk("star", v)))
        return mk("sent", self.fresh())

    def _comp(self, kind, elt_f, generators, env, fr, seq, node):
        inner_env = env.copy()
        gens = []
        cur = seq
        npc = len(fr.pc)
        for g in generators:
            it = self.ev(g.iter, inner_env, fr, cur)
            base, elem = iter_norm(it)
            self.lid += 1
            body = Seq()
            loop = Loop("for", base, None, body, Seq(), node, fr.func, self.lid)
            loop.has_cont_values = False
            self.assign(g.target, elem, inner_env, fr, body, node)
            cond = TRUE
            holder = body
            for c in g.ifs:
                ct = truth(self.ev(c, inner_env, fr, holder))
                cond = tm.and_(cond, ct)
                th = Seq()
                holder.items.append(If(ct, th, Seq(), node, fr.func))
                holder = th
            gens.append((base, cond))
            cur.items.append(loop)
            cur = holder
        elt = elt_f(inner_env, cur)
        del fr.pc[npc:]
        # drop loops that carry no events
        for n in [x for x in inner_env.vars if x not in env.vars]:
            pass
        # attribute/heap effects of the element expression
        env.heap.update({})
        if len(gens) == 1 and kind in ("list", "gen") and elt.k == "elem" and elt.a[0] is gens[0][0] and gens[0][1] is TRUE:
            return gens[0][0] if kind == "gen" else mk("comp", kind, elt, tuple(gens))
        return mk("comp", kind, elt, tuple(gens))

    def e_ListComp(self, e, env, fr, seq):
        return self._comp("list", lambda en, s: self.ev(e.elt, en, fr, s), e.generators, env, fr, seq, e)

    def e_SetComp(self, e, env, fr, seq):
        return self._comp("set", lambda en, s: self.ev(e.elt, en, fr, s), e.generators, env, fr, seq, e)

    def e_GeneratorExp(self, e, env, fr, seq):
        return self._comp("gen", lambda en, s: self.ev(e.elt, en, fr, s), e.generators, env, fr, seq, e)

    def e_DictComp(self, e, env, fr, seq):
        return self._comp(
            "dict", lambda en, s: mk("tuple", (self.ev(e.key, en, fr, s), self.ev(e.value, en, fr, s))), e.generators, env, fr,
            seq, e)

    # ------------------------------------------------------------------ calls
    def may_inline(self, fr: Frame, f: Func) -> bool:
        if f.is_generator or f.is_abstract:
            return False
        if f.qual in self.stack or len(self.stack) > 12:
            return False
        if f.qual in self.prog.helpers:
            return True
        if f.name in self.opaque or f.qual in self.opaque or f.qual.split("litdata.", 1)[-1] in self.opaque:
            return False
        return self.policy(fr.func, f, len([q for q in self.stack if q in self.prog.funcs and q not in self.prog.helpers]))

    def resolve_method(self, recv: T, name: str) -> Tuple[Optional[Func], bool]:
        """(method, exact) for a receiver of known class."""
        ty = self.typ(recv)
        if ty and ty in self.prog.classes:
            c = self.prog.classes[ty]
            f = c.find(name)
            if f is not None:
                over = any(name in s.methods for s in c.all_subclasses())
                exact = recv.k in ("new", "self") or not over
                return f, exact
        return None, False

    def e_Call(self, e, env, fr, seq):
        fnode = e.func
        recv = None
        # super().m(...)
        if isinstance(fnode, ast.Attribute) and isinstance(fnode.value, ast.Call) and isinstance(fnode.value.func, ast.Name) \
                and fnode.value.func.id == "super":
            c = fr.func.cls
            target = None
            if c:
                for b in c.mro()[1:]:
                    if fnode.attr in b.methods:
                        target = b.methods[fnode.attr]
                        break
            slf = env.vars.get(fr.func.params[0]) if fr.func.params else None
            args, kw, star = self.call_args(e, env, fr, seq)
            fn = mk("meth", mk("super", slf if slf is not None else NONE), fnode.attr)
            args, kw, named, nodes = canonical(args, kw, e.args, e, positional(target) if target is not None else [], star)
            args = list(args)
            ev = Ev("call", e, fr.func, fn=fn, args=tuple(args), kw=named if target is not None else kw, callee=target.qual if target else None,
                    name=fnode.attr, recv=slf, argnodes=nodes, starred=star)
            ev.term = mk("call", fn, tuple(args), kwt(kw), self.fresh())
            self.emit(seq, ev)
            if target is not None and slf is not None and not star and self.may_inline(fr, target):
                return self.inline_call(target, ev, [slf] + args, kw, env, fr, seq, e)
            if target is not None:
                self._kill_attrs(self.prog.mod_attrs(target), env)
            return ev.term
        if isinstance(fnode, ast.Attribute):
            recv = self.ev(fnode.value, env, fr, seq)
            if recv.k in ("ext", "mod", "cls"):
                fn = self.load_attr(recv, fnode.attr, env, fr, seq, fnode)
                if fn.k == "const":
                    fn = mk("meth", recv, fnode.attr)
            else:
                fn = None
        else:
            fn = self.ev(fnode, env, fr, seq)
        args, kw, star = self.call_args(e, env, fr, seq)
        if fn is not None and fn.k == "call" and fn.a[0].k == "ext" and fn.a[0].a[0] == "functools.partial":
            # partial(f, a)(b) is f(a, b)
            pre, pkw = list(fn.a[1]), dict(fn.a[2])
            fn, args, kw = pre[0], pre[1:] + args, {**pkw, **kw}
        if fn is None:
            return self.method_call(e, recv, fnode, args, kw, star, env, fr, seq)
        return self.apply(e, fn, args, kw, star, env, fr, seq)

    def call_args(self, e, env, fr, seq):
        args, kw, star = [], {}, False
        for a in e.args:
            v = self.ev(a, env, fr, seq)
            if v.k == "star":
                inner = v.a[0]
                if inner.k in ("tuple", "list") and not any(x.k == "star" for x in inner.a[0]):
                    args.extend(inner.a[0])
                    continue
                star = True
            args.append(v)
        for k in e.keywords:
            v = self.ev(k.value, env, fr, seq)
            if k.arg is None:
                if v.k == "dict" and all(x.k == "const" for x, _ in v.a[0]):
                    for x, y in v.a[0]:
                        kw[x.a[1]] = y
                    continue
                star = True
                kw["**"] = v
            else:
                kw[k.arg] = v
        return args, kw, star

    def method_call(self, e, recv, fnode, args, kw, star, env, fr, seq):
        name = fnode.attr
        fn = mk("meth", recv, name)
        # string building
        if name == "format" and tm.is_str(recv) and recv.k == "const" and not kw and not star:
            parts = split_format(recv.a[1], args)
            if parts is not None:
                return tm.cat(parts)
        if name == "join" and recv.k == "const" and recv.a[0] == "str" and len(args) == 1 and args[0].k in ("list", "tuple"):
            parts = []
            for i, x in enumerate(args[0].a[0]):
                if i:
                    parts.append(recv)
                parts.append(x)
            return tm.cat(parts)
        if name == "get" and recv.k == "dict" and args and args[0].k == "const":
            for k, v in recv.a[0]:
                if k is args[0]:
                    return v
        f, exact = self.resolve_method(recv, name)
        if f is not None and f.is_property:
            f = None
        args, kw, named, nodes = canonical(args, kw, e.args, e, positional(f) if f is not None else [], star)
        args = list(args)
        ev = Ev("call", e, fr.func, fn=fn, args=tuple(args), kw=named if f is not None else kw, name=name, recv=recv, argnodes=nodes,
                callee=f.qual if f else None, starred=star)
        pure = name in PURE_METHODS and f is None
        ev.term = mk("call", fn, tuple(args), kwt(kw), 0 if pure else self.fresh())
        self.emit(seq, ev)
        if f is not None:
            if exact and not star and self.may_inline(fr, f):
                bound = [] if f.is_static else ([recv] if not f.is_classmethod else [mk("cls", self.typ(recv))])
                return self.inline_call(f, ev, bound + args, kw, env, fr, seq, e)
            attrs = set(self.prog.mod_attrs(f))
            c = self.prog.classes.get(self.typ(recv))
            for s in (c.all_subclasses() if c else []):
                if name in s.methods:
                    attrs |= self.prog.mod_attrs(s.methods[name])
            self._kill_attrs(attrs, env)
            return ev.term
        if name in MUTATORS:
            r = self.mutate(recv, name, args, ev)
            if r is not None:
                new, ret = r
                self.writeback(fnode.value, new, env, fr, seq)
                self.aliases(recv, new, env)
                return ret
        elif not pure:
            # unknown receiver: repository methods of that name may run
            attrs = set()
            for c in self.prog.classes.values():
                if name in c.methods and name not in ("get", "put", "read", "write", "close", "join", "start", "items"):
                    attrs |= self.prog.mod_attrs(c.methods[name])
            if attrs:
                self._kill_attrs(attrs, env)
        return ev.term

    def mutate(self, recv, name, args, ev):
        if name in ("append", "appendleft", "add") and len(args) == 1:
            if recv.k == "list" and name == "append":
                return mk("list", recv.a[0] + (args[0],)), NONE
            return mk("append" if name == "append" else name, recv, args[0]), NONE
        if name == "extend" and len(args) == 1:
            v = args[0]
            if recv.k == "list" and v.k in ("list", "tuple"):
                return mk("list", recv.a[0] + v.a[0]), NONE
            return mk("extend", recv, v), NONE
        if name == "update" and len(args) == 1 and recv.k == "dict" and args[0].k == "dict":
            return mk("dict", recv.a[0] + args[0].a[0]), NONE
        if name == "pop" and recv.k == "dict" and args and args[0].k == "const" and all(k.k == "const" for k, _ in recv.a[0]):
            found = [x for k, x in recv.a[0] if k is args[0]]
            if found:
                return mk("dict", tuple((k, x) for k, x in recv.a[0] if k is not args[0])), found[-1]
        if name == "setdefault":
            return mk("mut", recv, name, tuple(args), self.fresh()), ev.term
        return mk("mut", recv, name, tuple(args), self.fresh()), ev.term

    def aliases(self, old, new, env):
        """a mutated object changes under all its names: variables and attributes that hold the very same object"""
        if not all(x.k in ("attr", "call", "mut", "param", "new", "phi", "append", "extend") for x in tm.alts(old)):
            return
        for nm, v in env.vars.items():
            if v is old:
                env.vars[nm] = new
        for k, v in env.heap.items():
            if v is old:
                env.heap[k] = new
        for x in tm.alts(old):
            if x.k == "attr" and x is old and (x.a[0], x.a[1]) not in env.heap:
                env.heap[(x.a[0], x.a[1])] = new

    def writeback(self, node, new, env, fr, seq):
        if isinstance(node, ast.Name):
            if node.id in env.vars:
                env.vars[node.id] = new
            elif fr.closure is not None and node.id in fr.closure.vars:
                fr.closure.vars[node.id] = new
        elif isinstance(node, ast.Attribute):
            b = self.ev(node.value, env, fr, Seq())
            env.heap[(b, node.attr)] = new
        elif isinstance(node, ast.Subscript):
            b = self.ev(node.value, env, fr, Seq())
            i = self.ev(node.slice, env, fr, Seq())
            nb = self.set_item(b, i, new)
            if nb is not None:
                self.writeback(node.value, nb, env, fr, seq)
            else:
                env.subs[(b, i)] = new

    def apply(self, e, fn, args, kw, star, env, fr, seq):
        p = self.prog
        if fn.k == "cls":
            c = p.classes[fn.a[0]]
            init = c.find("__init__")
            args, kw, named, nodes = canonical(args, kw, e.args, e, positional(init) if init is not None else dataclass_fields(c), star)
            ev = Ev("call", e, fr.func, fn=fn, args=tuple(args), kw=named, callee=fn.a[0], name=c.name,
                    argnodes=nodes, starred=star)
            t = mk("new", fn, tuple(args), kwt(kw), self.fresh())
            ev.term = t
            self.types[t] = fn.a[0]
            self.emit(seq, ev)
            return t
        if fn.k == "fn":
            f = p.funcs.get(fn.a[0])
            name = f.name
            args, kw, named, nodes = canonical(args, kw, e.args, e, positional(f, f.is_classmethod), star)
            ev = Ev("call", e, fr.func, fn=fn, args=tuple(args), kw=named, callee=f.qual, name=name, argnodes=nodes,
                    starred=star)
            ev.term = mk("call", fn, tuple(args), kwt(kw), self.fresh())
            self.emit(seq, ev)
            bound = list(args)
            if f.cls and f.is_classmethod:
                ownr = self.ev(e.func.value, env, fr, Seq()) if isinstance(e.func, ast.Attribute) else mk("cls", f.cls.qual)
                bound = [ownr] + bound
            if not star and self.may_inline(fr, f):
                return self.inline_call(f, ev, bound, kw, env, fr, seq, e)
            self._kill_attrs(p.mod_attrs(f), env)
            return ev.term
        if fn.k in ("localfn", "lambda") and fn in self.closures:
            f, cenv, cfr = self.closures[fn]
            args, kw, named, nodes = canonical(args, kw, e.args, e, positional(f, False), star)
            ev = Ev("call", e, fr.func, fn=fn, args=tuple(args), kw=named, callee=f.qual, name=f.name, argnodes=nodes,
                    starred=star)
            ev.term = mk("call", fn, tuple(args), kwt(kw), self.fresh())
            self.emit(seq, ev)
            if not star and f.qual not in self.stack and not f.is_generator:
                return self.inline_call(f, ev, list(args), kw, env, fr, seq, e, closure=(cenv, cfr))
            return ev.term
        if fn.k == "ext":
            d = fn.a[0]
            if d == "isinstance" and len(args) == 2:
                return mk("isinst", args[0], args[1])
            if d in ("str",) and len(args) == 1 and tm.is_str(args[0]):
                return args[0]
            if d == "str" and len(args) == 1 and args[0].k == "const" and args[0].a[0] == "int":
                return const(str(args[0].a[1]))
            if d == "os.path.join" and not star:
                return tm.pjoin(args)
            if d == "os.path.split" and len(args) == 1 and not star and not kw:
                return mk("tuple", tuple(mk("call", mk("ext", n), (args[0],), (), 0) for n in ("os.path.dirname", "os.path.basename")))
            if d == "list" and not args:
                return mk("list", ())
            if d == "dict" and not args and not star:
                return mk("dict", tuple((const(k), v) for k, v in kw.items()))
            if d == "tuple" and not args:
                return mk("tuple", ())
            if d == "set" and not args:
                return mk("set", ())
            if d in ("list", "tuple") and len(args) == 1 and args[0].k in ("list", "tuple") :
                return mk(d, args[0].a[0])
            if d == "list" and len(args) == 1 and args[0].k == "comp" and args[0].a[0] == "gen":
                return mk("comp", "list", args[0].a[1], args[0].a[2])
            if d in ("sum", "any", "all", "min", "max", "sorted", "set") and len(args) >= 1 and args[0].k == "comp" and args[0].a[0] == "list":
                args = [mk("comp", "gen", args[0].a[1], args[0].a[2])] + list(args[1:])
            if d == "len" and len(args) == 1:
                a0 = args[0]
                if a0.k in ("list", "tuple") and not any(x.k == "star" for x in a0.a[0]):
                    return const(len(a0.a[0]))
                if a0.k == "const" and a0.a[0] in ("str", "bytes"):
                    return const(len(a0.a[1]))
            if d in ("int", "float") and len(args) == 1 and args[0].k == "const" and args[0].a[0] == "int" and d == "int":
                return args[0]
            if d == "getattr" and len(args) in (2, 3) and args[1].k == "const":
                return self.load_attr(args[0], args[1].a[1], env, fr, seq, e) if len(args) == 2 else mk(
                    "call", fn, tuple(args), kwt(kw), 0)
            if d == "setattr" and len(args) == 3 and args[1].k == "const":
                self.store_attr(args[0], args[1].a[1], args[2], env, fr, seq, e)
                return NONE
            if d == "map" and len(args) == 2 and args[0].k in ("lambda", "localfn", "fn", "ext", "cls"):
                base, elem = iter_norm(args[1])
                inner = Seq()
                self.lid += 1
                r = self.apply(e, args[0], [elem], {}, False, env, fr, inner)
                if any_events(inner):
                    loop = Loop("for", base, None, inner, Seq(), e, fr.func, self.lid)
                    loop.has_cont_values = False
                    seq.items.append(loop)
                return mk("comp", "gen", r, ((base, TRUE),))
            pure = d in PURE
            ev = Ev("call", e, fr.func, fn=fn, args=tuple(args), kw=kw, callee=d, name=d.split(".")[-1],
                    argnodes=tuple(e.args), starred=star)
            ev.term = mk("call", fn, tuple(args), kwt(kw), 0 if pure else self.fresh())
            self.emit(seq, ev)
            return ev.term
        ev = Ev("call", e, fr.func, fn=fn, args=tuple(args), kw=kw, callee=None,
                name=fn.a[1] if fn.k in ("attr", "meth") else None, argnodes=tuple(e.args), starred=star)
        ev.term = mk("call", fn, tuple(args), kwt(kw), self.fresh())
        self.emit(seq, ev)
        return ev.term

    def inline_call(self, f: Func, ev: Ev, args, kw, env: Env, fr: Frame, seq: Seq, node, closure=None) -> T:
        fr2 = Frame(f, f.module, fr.depth + 1)
        if closure:
            fr2.closure = closure[0]
            fr2.closure_frame = closure[1]
        a = f.node.args
        pos = [x for x in a.posonlyargs + a.args]
        e2 = Env()
        e2.heap, e2.subs, e2.ver, e2.sver = env.heap, env.subs, env.ver, env.sver
        kw = dict(kw)
        bound: Dict[str, T] = {}
        for i, p in enumerate(pos):
            if i < len(args):
                bound[p.arg] = args[i]
        if len(args) > len(pos) and not a.vararg:
            return ev.term if ev.term is not None else NONE
        if a.vararg:
            bound[a.vararg.arg] = mk("tuple", tuple(args[len(pos):]))
        allp = {p.arg for p in pos + a.kwonlyargs}
        extra = []
        for k, v in kw.items():
            if k in allp:
                bound[k] = v
            else:
                extra.append((const(k), v))
        if a.kwarg:
            bound[a.kwarg.arg] = mk("dict", tuple(extra))
        defs = dict(zip([p.arg for p in pos][len(pos) - len(a.defaults):], a.defaults))
        defs.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in pos + a.kwonlyargs:
            if p.arg not in bound:
                d = defs.get(p.arg)
                if d is None:
                    bound[p.arg] = mk("missing", p.arg)
                else:
                    dfr = Frame(f, f.module, 0)
                    bound[p.arg] = self.ev(d, Env(), dfr, Seq())
            ty = self.prog.ann_type(f.module, p.annotation)
            if ty and self.typ(bound[p.arg]) is None:
                self.types.setdefault(bound[p.arg], ty)
        e2.vars.update(bound)
        body = Seq()
        self.stack.append(f.qual)
        self.inlined.add(f.qual)
        fr2.pc = list(fr.pc)
        n0 = len(fr2.pc)
        tail = f.is_helper and self.tail is not None and self.tail is node
        fr2.leave = f.is_helper and not tail
        saved, self.tail = self.tail, None
        self.block(f.node.body, e2, fr2, body)
        self.tail = saved
        self.stack.pop()
        if tail and not e2.dead:
            self.emit(body, Ev("return", node, f, value=NONE))
        ev.inlined = True
        seq.items.append(Inline(f, ev, body, tail))
        rets = []
        outer = set(fr.pc) | set(tm.literals(tm.and_(*fr.pc)))
        for pc, v, re_ in fr2.returns:
            lits = [x for x in tm.literals(pc) if x not in outer]
            rets.append((tm.and_(*lits), v, re_))
        fr2.returns = rets
        val, out = self._merge_returns(fr2, e2)
        if out.dead:
            env.dead = True
        env.heap, env.subs, env.ver, env.sver = out.heap, out.subs, out.ver, out.sver
        # containers filled by the callee through a parameter it never rebinds
        if not closure:
            reb = set()
            for n in walk_own(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    reb.add(n.id)
            argn = list(ev.argnodes)
            off = len(args) - len(argn)
            for i, an in enumerate(argn):
                pi = i + off
                if 0 <= pi < len(pos) and pos[pi].arg not in reb and not isinstance(an, ast.Starred):
                    p = pos[pi].arg
                    nv = out.vars.get(p)
                    if nv is not None and nv is not bound[p] and isinstance(an, (ast.Name, ast.Attribute)):
                        self.writeback(an, nv, env, fr, seq)
        return val

    def _merge_returns(self, fr: Frame, env: Env):
        rs = list(fr.returns)
        if not env.dead:
            rs.append((TRUE, NONE, env))
        if not rs:
            return mk("noreturn"), env
        val, out = rs[-1][1], rs[-1][2]
        for c, v, e in reversed(rs[:-1]):
            val = ite(c, v, val)
            out = join_env(c, e, out)
        return val, out


# ---------------------------------------------------------------------------------------------- term helpers
def canonical(args, kw, nodes, call, params, star):
    """Arguments by position as far as the signature allows, and every argument by name: f(a, y=b) is f(a, b)."""
    args, rest, nodes = list(args), dict(kw), list(nodes)
    if star or "**" in rest:
        return tuple(args), rest, rest, tuple(nodes)
    named = dict(zip(params, args))
    byname = {k.arg: k.value for k in getattr(call, "keywords", []) if k.arg}
    while len(args) < len(params) and params[len(args)] in rest:
        n = params[len(args)]
        if len(nodes) == len(args) and n in byname:
            nodes.append(byname[n])
        args.append(rest.pop(n))
        named[n] = args[-1]
    named.update(rest)
    return tuple(args), rest, KW(rest, named), tuple(nodes)


def dataclass_fields(c):
    """fields of a dataclass in the order its constructor takes them"""
    out = []
    for b in reversed(c.mro()):
        for s in b.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id not in out:
                out.append(s.target.id)
    return out


def positional(f, bound=True):
    """names of the positional parameters a caller fills, without self or cls"""
    a = f.node.args
    ps = [p.arg for p in list(a.posonlyargs) + list(a.args)]
    if bound and f.cls is not None and not f.is_static and ps:
        ps = ps[1:]
    return ps


def kwt(kw):
    return tuple(sorted(kw.items()))


def mk_boolop(is_and, v, r):
    """Value of `v and r` / `v or r`."""
    return ite(truth(v), r, v) if is_and else ite(truth(v), v, r)


def is_int_const(t):
    return t.k == "const" and t.a[0] == "int"


def call_len(x):
    if x.k == "call" and x.a[0].k == "ext" and x.a[0].a[0] == "range" and len(x.a[1]) == 1:
        return x.a[1][0]
    return mk("call", mk("ext", "len"), (x,), (), 0)


def ext_call(t, name):
    return t.k == "call" and t.a[0].k == "ext" and t.a[0].a[0] == name


def is_bytes(t):
    return t.k == "bcat" or (t.k == "call" and t.a[0].k == "meth" and t.a[0].a[1] in ("tobytes", "encode", "to_bytes"))


def is_open(t):
    return ext_call(t, "open") or ext_call(t, "io.open")


def is_suppress(t):
    return t.k == "call" and t.a[0].k == "ext" and t.a[0].a[0].endswith("contextlib.suppress")


def iter_norm(it: T):
    """(underlying iterable, element term) for a loop over `it`."""
    if ext_call(it, "enumerate"):
        xs = it.a[1][0]
        start = it.a[1][1] if len(it.a[1]) > 1 else dict(it.a[2]).get("start", ZERO)
        b, e = iter_norm(xs)
        return b, mk("tuple", (tm.add(mk("idx", b), start), e))
    if ext_call(it, "range") and len(it.a[1]) == 1 and not it.a[2]:
        n = it.a[1][0]
        if ext_call(n, "len"):
            b = n.a[1][0]
            return b, mk("idx", b)
        return it, mk("idx", it)
    if ext_call(it, "range") and len(it.a[1]) == 2 and it.a[1][0] is ZERO:
        return iter_norm(mk("call", it.a[0], (it.a[1][1],), (), 0))
    if ext_call(it, "zip") and it.a[1]:
        pairs = [iter_norm(x) for x in it.a[1]]
        b0 = pairs[0][0]
        return b0, mk("tuple", tuple(p[1] for p in pairs))
    if ext_call(it, "list") and len(it.a[1]) == 1 or ext_call(it, "tuple") and len(it.a[1]) == 1 or ext_call(it, "iter") and len(it.a[1]) == 1:
        return iter_norm(it.a[1][0])
    if it.k == "call" and it.a[0].k == "meth" and not it.a[1]:
        r, n = it.a[0].a[0], it.a[0].a[1]
        if n == "items":
            return r, mk("tuple", (mk("elem", r), mk("sub", r, mk("elem", r), 0)))
        if n == "values":
            return r, mk("sub", r, mk("elem", r), 0)
        if n == "keys":
            return r, mk("elem", r)
    if it.k == "comp" and it.a[0] in ("list", "gen") and len(it.a[2]) == 1 and it.a[2][0][1] is TRUE:
        # for y in [f(x) for x in xs]  ->  over xs
        return it.a[2][0][0], it.a[1]
    return it, mk("elem", it)


def split_format(s: str, args):
    import string

    out, i = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                out.append(const(lit))
            if field is not None:
                if spec or conv:
                    return None
                if field == "":
                    j, i = i, i + 1
                elif field.isdigit():
                    j = int(field)
                else:
                    return None
                if j >= len(args):
                    return None
                out.append(args[j])
    except ValueError:
        return None
    return out


def any_events(seq) -> bool:
    return bool(seq.items)


def evaluate(prog: Program, func, opaque=(), policy=None, self_cls=None, bind=None) -> Tuple[Seq, Evaluator]:
    if isinstance(func, str):
        func = prog.func(func)
    ev = Evaluator(prog, policy, opaque)
    seq = ev.run(func, self_cls, bind)
    return seq, ev
