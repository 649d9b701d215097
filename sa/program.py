"""Source model of /repo/src/litdata: modules, symbols, classes, method resolution, simple types.

Nothing of the analysed repository is imported or executed: everything is read with `ast`.
"""
from __future__ import annotations

import ast
import hashlib
import os
from typing import Dict, Iterable, List, Optional, Set, Tuple

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "litdata"


class AnalysisBroken(Exception):
    """An anchor vanished or the source cannot be analysed: exit with an error, never a silent pass."""


class Func:
    def __init__(self, module: "Module", node, qual: str, cls: "Optional[Cls]" = None):
        self.module, self.node, self.qual, self.cls = module, node, qual, cls
        self.name = node.name
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.decorators = decs
        self.is_helper = False
        self.is_static = "staticmethod" in decs
        self.is_classmethod = "classmethod" in decs
        self.is_property = "property" in decs or any(d.endswith("cached_property") for d in decs)
        self.is_setter = any(d.endswith(".setter") for d in decs)
        self.is_abstract = any(d.endswith("abstractmethod") for d in decs)
        self.is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

    def __repr__(self):
        return f"<Func {self.qual}>"

    @property
    def params(self) -> List[str]:
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno}"


def walk_own(node):
    """Walk a function body without entering nested function/class definitions or lambdas."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Units(dict):
    """Functions by name. Iteration leaves out the helpers that are judged inside the functions that call them."""

    def __init__(self):
        super().__init__()
        self.hidden: Set[str] = set()

    def __iter__(self):
        return iter([k for k in super().keys() if k not in self.hidden])

    def keys(self):
        return list(iter(self))

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def everything(self):
        return list(super().values())


class Cls:
    def __init__(self, module: "Module", node: ast.ClassDef, qual: str):
        self.module, self.node, self.qual, self.name = module, node, qual, node.name
        self.methods: Dict[str, Func] = Units()
        self.setters: Dict[str, Func] = {}
        self.attrs: Dict[str, ast.expr] = {}
        self.attr_ann: Dict[str, ast.expr] = {}
        self.base_names: List[str] = []
        self.bases: List["Cls"] = []
        self.subclasses: List["Cls"] = []

    def __repr__(self):
        return f"<Cls {self.qual}>"

    def mro(self) -> List["Cls"]:
        out, seen = [], set()

        def go(c):
            if c.qual in seen:
                return
            seen.add(c.qual)
            out.append(c)
            for b in c.bases:
                go(b)

        go(self)
        return out

    def find(self, name: str) -> Optional[Func]:
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def all_subclasses(self) -> List["Cls"]:
        out = []
        for s in self.subclasses:
            out.append(s)
            out.extend(s.all_subclasses())
        return out

    def is_sub(self, name: str) -> bool:
        return any(c.name == name for c in self.mro())


class Module:
    def __init__(self, name: str, path: str, tree: ast.Module, src: str):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.rel = os.path.relpath(path, REPO)
        self.imports: Dict[str, str] = {}
        self.funcs: Dict[str, Func] = {}
        self.classes: Dict[str, Cls] = {}
        self.consts: Dict[str, List[ast.expr]] = {}


class Program:
    def __init__(self, src: str = SRC):
        self.src = src
        self.modules: Dict[str, Module] = {}
        self.funcs: Dict[str, Func] = Units()
        self.classes: Dict[str, Cls] = {}
        self._load()
        self._link()
        self._attr_types: Dict[str, Dict[str, str]] = {}
        self._modset: Dict[str, Set[str]] = {}

    # ------------------------------------------------------------------ loading
    def _load(self):
        root = os.path.join(self.src, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"source tree {root} is missing")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.src)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                if is_pkg:
                    rel = rel[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    s = fh.read()
                try:
                    tree = ast.parse(s, p)
                except SyntaxError as e:
                    raise AnalysisBroken(f"cannot parse {p}: {e}")
                m = Module(rel, p, tree, s)
                m.is_pkg = is_pkg
                self.modules[rel] = m
        for m in self.modules.values():
            self._collect(m)
        self.helpers = self._helpers()
        self._by_name: Dict[str, List[str]] = {}
        for q in self.helpers:
            self._by_name.setdefault(q.rsplit(".", 1)[-1], []).append(q)
        self.funcs.hidden |= self.helpers
        for c in self.classes.values():
            c.methods.hidden |= {n for n, f in dict.items(c.methods) if f.qual in self.helpers}

    def _helpers(self) -> "Set[str]":
        """Functions the inventory (sa/known.txt) doesn't name and that are only ever called: code taken out of other
        functions. They are always evaluated inside their callers, whatever a rule keeps apart."""
        try:
            with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known.txt")) as fh:
                known = set(fh.read().split())
        except OSError:
            return set()
        names = {q.rsplit(".", 1)[-1] for q in known}
        cand = {}
        for q, f in dict.items(self.funcs):
            if q in known or f.name in names or f.name.startswith("__") or f.is_generator or f.is_setter or f.is_property or f.is_abstract:
                continue
            if isinstance(f.node, ast.AsyncFunctionDef) or f.module.name + "." not in "".join(k + " " for k in known):
                continue
            if any(d not in ("staticmethod", "classmethod") for d in f.decorators):
                continue
            cand.setdefault(f.name, []).append(q)
        called: Dict[str, int] = {}
        for m in self.modules.values():
            calls = {id(n.func) for n in ast.walk(m.tree) if isinstance(n, ast.Call)}
            for n in ast.walk(m.tree):
                name = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                if name in cand:
                    if id(n) in calls:
                        called[name] = called.get(name, 0) + 1
                    else:
                        called[name] = -(10 ** 6)
        out = {q for name, qs in cand.items() if called.get(name, 0) > 0 for q in qs}
        for q in out:
            dict.__getitem__(self.funcs, q).is_helper = True
        return out

    def _collect(self, m: Module):
        def imp(stmts):
            for n in stmts:
                self._imp(m, n, m.imports)
                for fld in ("body", "orelse", "finalbody"):
                    sub = getattr(n, fld, None)
                    if isinstance(sub, list) and not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        imp(sub)
                for h in getattr(n, "handlers", []) or []:
                    imp(h.body)

        imp(m.tree.body)

        def top(stmts):
            for n in stmts:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m, n, f"{m.name}.{n.name}")
                    m.funcs[n.name] = f
                    self.funcs[f.qual] = f
                elif isinstance(n, ast.ClassDef):
                    self._collect_class(m, n)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            m.consts.setdefault(t.id, []).append(n.value)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                    m.consts.setdefault(n.target.id, []).append(n.value)
                elif isinstance(n, (ast.If, ast.Try, ast.With)):
                    top(n.body)
                    top(getattr(n, "orelse", []))
                    for h in getattr(n, "handlers", []):
                        top(h.body)
                    top(getattr(n, "finalbody", []))

        top(m.tree.body)

    def _collect_class(self, m: Module, n: ast.ClassDef):
        c = Cls(m, n, f"{m.name}.{n.name}")
        c.base_names = [ast.unparse(b) for b in n.bases]
        m.classes[n.name] = c
        self.classes[c.qual] = c

        def body(stmts):
            for b in stmts:
                if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m, b, f"{c.qual}.{b.name}", c)
                    if f.is_setter:
                        c.setters[b.name] = f
                        f.qual += ".setter"
                        self.funcs[f.qual] = f
                        continue
                    c.methods[b.name] = f
                    self.funcs[f.qual] = f
                elif isinstance(b, ast.Assign):
                    for t in b.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = b.value
                elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                    c.attr_ann[b.target.id] = b.annotation
                    if b.value is not None:
                        c.attrs[b.target.id] = b.value
                elif isinstance(b, ast.If):
                    body(b.body)
                    body(b.orelse)

        body(n.body)

    def _imp(self, m: Module, n, table: Dict[str, str]):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    table[a.asname] = a.name
                else:
                    table[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                parts = m.name.split(".")
                if not getattr(m, "is_pkg", False):
                    parts = parts[:-1]
                parts = parts[: len(parts) - (n.level - 1)]
                base = ".".join(parts + ([n.module] if n.module else []))
            for a in n.names:
                table[a.asname or a.name] = f"{base}.{a.name}"

    def _link(self):
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr_name(c.module, b)
                if r and r in self.classes:
                    c.bases.append(self.classes[r])
                    self.classes[r].subclasses.append(c)

    # ------------------------------------------------------------------ resolution
    def canonical(self, dotted: str, seen=None) -> str:
        """Follow re-exports inside the package to the defining symbol."""
        seen = seen or set()
        if dotted in seen:
            return dotted
        seen.add(dotted)
        if dotted in self.funcs or dotted in self.classes or dotted in self.modules:
            return dotted
        if "." in dotted:
            mod, name = dotted.rsplit(".", 1)
            if mod in self.modules:
                m = self.modules[mod]
                if name in m.funcs:
                    return m.funcs[name].qual
                if name in m.classes:
                    return m.classes[name].qual
                if name in m.consts:
                    return dotted
                if name in m.imports:
                    return self.canonical(m.imports[name], seen)
            else:
                cm = self.canonical(mod, seen)
                if cm != mod:
                    return self.canonical(f"{cm}.{name}", seen)
        return dotted

    def resolve_name(self, m: Module, name: str, local: Optional[Dict[str, str]] = None) -> Optional[str]:
        if local and name in local:
            return self.canonical(local[name])
        if name in m.funcs:
            return m.funcs[name].qual
        if name in m.classes:
            return m.classes[name].qual
        if name in m.imports:
            return self.canonical(m.imports[name])
        if name in m.consts:
            return f"{m.name}.{name}"
        return None

    def resolve_expr_name(self, m: Module, e) -> Optional[str]:
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr_name(m, e.value)
            return self.canonical(f"{b}.{e.attr}") if b else None
        if isinstance(e, ast.Subscript):
            return self.resolve_expr_name(m, e.value)
        return None

    def const_exprs(self, dotted: str) -> List[Tuple[Module, ast.expr]]:
        if "." not in dotted:
            return []
        mod, name = dotted.rsplit(".", 1)
        m = self.modules.get(mod)
        if not m:
            return []
        return [(m, e) for e in m.consts.get(name, [])]

    # ------------------------------------------------------------------ anchors
    def func(self, qual: str) -> Func:
        """`module.func` or `module.Class.method`, with the leading `litdata.` optional."""
        q = qual if qual.startswith(PKG + ".") else f"{PKG}.{qual}"
        f = self.funcs.get(q)
        if f is None and "." in q:
            owner, name = q.rsplit(".", 1)
            c = self.classes.get(self.canonical(owner))
            if c:
                f = c.find(name)
        if f is None:
            f2 = self.funcs.get(self.canonical(q))
            f = f2
        if f is None:
            raise AnalysisBroken(f"anchor vanished: function {q}")
        return f

    def cls(self, qual: str) -> Cls:
        q = qual if qual.startswith(PKG + ".") else f"{PKG}.{qual}"
        c = self.classes.get(self.canonical(q))
        if c is None:
            raise AnalysisBroken(f"anchor vanished: class {q}")
        return c

    def has_func(self, qual: str) -> bool:
        try:
            self.func(qual)
            return True
        except AnalysisBroken:
            return False

    # ------------------------------------------------------------------ types
    def ann_type(self, m: Module, ann) -> Optional[str]:
        """A repository class named by an annotation (Optional[...] and string annotations unwrapped)."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                return self.ann_type(m, ast.parse(ann.value, mode="eval").body)
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            head = ast.unparse(ann.value).split(".")[-1]
            if head in ("Optional", "Union"):
                elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                found = [t for t in (self.ann_type(m, e) for e in elts) if t]
                return found[0] if len(found) == 1 else None
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            found = [t for t in (self.ann_type(m, ann.left), self.ann_type(m, ann.right)) if t]
            return found[0] if len(found) == 1 else None
        r = self.resolve_expr_name(m, ann)
        if r and r in self.classes:
            return r
        return None

    def attr_types(self, c: Cls) -> Dict[str, str]:
        """attribute name -> repository class qual, from assignments in any method of the class (and its bases)."""
        if c.qual in self._attr_types:
            return self._attr_types[c.qual]
        out: Dict[str, str] = {}
        self._attr_types[c.qual] = out
        for b in reversed(c.mro()):
            for k, ann in b.attr_ann.items():
                t = self.ann_type(b.module, ann)
                if t:
                    out[k] = t
            for f in b.methods.everything() + list(b.setters.values()):
                ptypes = {}
                for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
                    t = self.ann_type(f.module, a.annotation)
                    if t:
                        ptypes[a.arg] = t
                for n in walk_own(f.node):
                    tgt = val = ann = None
                    if isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val = n.targets[0], n.value
                    elif isinstance(n, ast.AnnAssign):
                        tgt, val, ann = n.target, n.value, n.annotation
                    if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self"):
                        continue
                    t = self.ann_type(b.module, ann) if ann is not None else None
                    if t is None and val is not None:
                        t = self._expr_type(b.module, val, ptypes)
                    if t:
                        out.setdefault(tgt.attr, t)
            for name, f in dict.items(b.methods):
                if f.is_property:
                    t = self.ann_type(b.module, f.node.returns)
                    if t:
                        out.setdefault(name, t)
        return out

    def _expr_type(self, m: Module, e, ptypes) -> Optional[str]:
        if isinstance(e, ast.Name):
            return ptypes.get(e.id)
        if isinstance(e, ast.Call):
            r = self.resolve_expr_name(m, e.func)
            if r in self.classes:
                return r
            if r and r in self.funcs:
                f = self.funcs[r]
                return self.ann_type(f.module, f.node.returns)
            if isinstance(e.func, ast.Attribute):
                b = self.resolve_expr_name(m, e.func.value)
                if b in self.classes:
                    f = self.classes[b].find(e.func.attr)
                    if f:
                        return self.ann_type(f.module, f.node.returns)
        if isinstance(e, ast.BoolOp):
            ts = [self._expr_type(m, v, ptypes) for v in e.values]
            ts = [t for t in ts if t]
            return ts[0] if ts else None
        if isinstance(e, ast.IfExp):
            return self._expr_type(m, e.body, ptypes) or self._expr_type(m, e.orelse, ptypes)
        return None

    # ------------------------------------------------------------------ call graph / mod sets (by name, conservative)
    def _summaries(self):
        direct: Dict[str, Set[str]] = {}
        callees: Dict[str, Set[str]] = {}
        for q, f in dict.items(self.funcs):
            out: Set[str] = set()
            cs: Set[str] = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Attribute):
                        out.add(b.attr)
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and n.func.attr in ("append", "extend", "pop", "insert", "remove", "clear", "update", "setdefault", "discard"):
                        out.add(n.func.value.attr)
                    cs |= {g.qual for g in self.callees_by_name(f, n)}
            direct[q], callees[q] = out, cs
        changed = True
        while changed:
            changed = False
            for q in direct:
                new = set(direct[q])
                for g in callees[q]:
                    new |= direct.get(g, set())
                if len(new) != len(direct[q]):
                    direct[q] = new
                    changed = True
        self._modset = direct
        self._callees = callees

    def mod_attrs(self, f: Func) -> Set[str]:
        """Attribute names a call of f may store, transitively (callees resolved by name)."""
        if not self._modset:
            self._summaries()
        if f.qual not in self._modset:  # nested function
            out = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
            return out
        return self._modset[f.qual]

    def callees_by_name(self, f: Func, call: ast.Call) -> List[Func]:
        fn = call.func
        if isinstance(fn, ast.Name):
            r = self.resolve_name(f.module, fn.id)
            if r in self.funcs:
                return [self.funcs[r]]
            if r in self.classes:
                i = self.classes[r].find("__init__")
                return [i] if i else []
            return []
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls") and f.cls:
                out = []
                g = f.cls.find(fn.attr)
                if g:
                    out.append(g)
                for s in f.cls.all_subclasses():
                    if fn.attr in s.methods:
                        out.append(s.methods[fn.attr])
                return out
            r = self.resolve_expr_name(f.module, fn)
            if r in self.funcs:
                return [self.funcs[r]]
            out = []
            for c in self.classes.values():
                if fn.attr in c.methods:
                    out.append(c.methods[fn.attr])
            return out if len(out) <= 12 else out
        return []

    def digest(self) -> str:
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]

    def helpers_named(self, name):
        return [dict.__getitem__(self.funcs, q) for q in self._by_name.get(name, ())]

    def nodes(self, f: Func, seen=None, own=False):
        """syntax nodes of a function and of the helpers taken out of it"""
        seen = set() if seen is None else seen
        seen.add(f.qual)
        for n in walk_own(f.node) if own else ast.walk(f.node):
            yield n
            if isinstance(n, ast.Call):
                name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                me = isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls")
                for q in self._by_name.get(name, ()):
                    g = dict.__getitem__(self.funcs, q)
                    if me and (f.cls is None or g.cls is not f.cls.find(name).cls if f.cls is not None and f.cls.find(name) is not None else True):
                        continue
                    if isinstance(n.func, ast.Name) and g.cls is not None:
                        continue
                    if q not in seen:
                        yield from self.nodes(dict.__getitem__(self.funcs, q), seen, own)

    def all_calls(self) -> Iterable[Tuple[Func, ast.Call]]:
        """Every call expression, with the function that (lexically) contains it."""
        for f in self.funcs.values():
            for n in self.nodes(f):
                if isinstance(n, ast.Call):
                    yield f, n
