"""Shared matchers for the rules."""
from __future__ import annotations

import ast
from typing import Callable, Iterable, List, Optional

from sa import flow, terms as tm
from sa.evalr import Ev, If, Inline, Loop, Seq, Try, With, evaluate, ext_call, iter_norm, is_open
from sa.program import AnalysisBroken, Func, Program
from sa.terms import FALSE, NONE, ONE, T, TRUE, ZERO, alts, const, contains, galts, is_const, literals, mentions, mk, not_, show, strip, subterms



def dotted(t: Optional[T]) -> str:
    """self._config._remote_dir -> 'self._config._remote_dir' ('' for anything else); versions ignored."""
    if t is None:
        return ""
    if t.k == "self":
        return "self"
    if t.k == "param":
        return t.a[0]
    if t.k in ("ext", "fn", "cls", "glob", "mod"):
        return t.a[0]
    if t.k == "attr":
        b = dotted(t.a[0])
        return f"{b}.{t.a[1]}" if b else ""
    return ""


def is_attr(t, name, base: Optional[str] = None) -> bool:
    if t is None or t.k != "attr" or t.a[1] != name:
        return False
    return base is None or dotted(t.a[0]) == base


def self_attr(t, name) -> bool:
    return t is not None and t.k == "attr" and t.a[1] == name and t.a[0].k == "self"


def mentions_attr(t, *names) -> bool:
    return mentions(t, lambda x: x.k == "attr" and x.a[1] in names)


def mentions_key(t, key) -> bool:
    """t contains an item access with constant key `key` (x["key"] or x.get("key"))."""
    k = const(key)
    return mentions(t, lambda x: (x.k == "sub" and x.a[1] is k) or (
        x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] in ("get", "pop") and x.a[1] and x.a[1][0] is k))


def is_key(t, key, base=None) -> bool:
    k = const(key)
    ok = (t.k == "sub" and t.a[1] is k) or (
        t.k == "call" and t.a[0].k == "meth" and t.a[0].a[1] == "get" and t.a[1] and t.a[1][0] is k)
    if not ok:
        return False
    if base is None:
        return True
    b = t.a[0] if t.k == "sub" else t.a[0].a[0]
    return base(b)


def mentions_ext(t, *names) -> bool:
    return mentions(t, lambda x: x.k == "ext" and x.a[0] in names)


def mentions_call(t, *names) -> bool:
    def f(x):
        if x.k != "call":
            return False
        fn = x.a[0]
        n = fn.a[1] if fn.k in ("meth", "attr") else (fn.a[0].split(".")[-1] if fn.k in ("ext", "fn") else "")
        return n in names
    return mentions(t, f)


def mentions_param(t, *names) -> bool:
    return mentions(t, lambda x: x.k == "param" and x.a[0] in names)


def fname(t) -> str:
    if t.k in ("call",):
        fn = t.a[0]
        if fn.k in ("meth",):
            return fn.a[1]
        if fn.k in ("ext", "fn", "cls", "glob"):
            return fn.a[0]
    if t.k == "new":
        return t.a[0].a[0]
    return ""


def peel(t: T) -> T:
    """Drop value-preserving conversions: list(x), tuple(x), iter(x), int(x), x.tolist(), copy()."""
    while True:
        if t.k == "call" and t.a[0].k == "ext" and t.a[0].a[0] in ("list", "tuple", "iter", "int", "str") and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.k == "call" and t.a[0].k == "meth" and t.a[0].a[1] in ("tolist", "copy", "item") and not t.a[1]:
            t = t.a[0].a[0]
        else:
            return t


def guard_has(ctx, pred: Callable[[T], bool]) -> bool:
    return any(pred(g) for g in ctx.guards)


def guards_str(ctx) -> str:
    return " and ".join(show(g, 5) for g in ctx.guards) or "always"


def one(xs, what):
    xs = list(xs)
    if len(xs) == 0:
        raise AnalysisBroken(f"anchor vanished: {what}")
    return xs[0]


def need(xs, what, n=1):
    xs = list(xs)
    if len(xs) < n:
        raise AnalysisBroken(f"expected at least {n} instance(s) of {what}, found {len(xs)}")
    return xs


def all_mod_policy(*mods):
    """Inline callees of the given modules (suffix match) and of the caller's own module."""

    def pol(caller, callee, depth):
        return depth < 9 and (callee.module is caller.module or any(callee.module.name.endswith(m) for m in mods))

    return pol


def everything_policy(max_depth=8):
    return lambda caller, callee, depth: depth < max_depth and not callee.module.name.endswith("_pytree")


def call_kind(ev) -> str:
    """A readable name for the callee."""
    return ev.callee or (ev.name or "?")


def count_paths(seq, classify, init=None, assume=None):
    """Saturating per-path event counts. classify(ev) -> key or None. Returns {outcome: {tuple of (key,n)}}."""

    def step(st, ev):
        k = classify(ev)
        if k is None:
            return st
        d = dict(st)
        d[k] = min(2, d.get(k, 0) + 1)
        return frozenset(d.items())

    ts = flow.Typestate(lambda s, e: [step(s, e)], assume)
    out = ts.run(seq, [frozenset((init or {}).items())])
    return {k: {dict_key(s) for s, _ in v} for k, v in out.items()}


def dict_key(fs):
    return tuple(sorted(fs))


def recv_is_attr(ev, name) -> bool:
    """The receiver of a method call is attribute `name` (of self, usually), possibly after mutations/ites."""
    r = ev.recv
    return r is not None and root_attr(r) == name


def root_attr(t):
    """Name of the attribute a (possibly mutated / conditional / extended) container term started from."""
    for _ in range(60):
        if t.k == "attr":
            return t.a[1]
        if t.k in ("append", "extend", "mut", "setitem", "upd", "del"):
            t = t.a[0]
            continue
        if t.k == "ite":
            a, b = root_attr(t.a[1]), root_attr(t.a[2])
            return a or b
        return None
    return None


def dict_get(t, key):
    """Value of a constant key in a dict display (also dict(k=v) and dict-with-updates)."""
    k = const(key)
    if t.k == "upd":
        return t.a[2] if t.a[1] is k else dict_get(t.a[0], key)
    if t.k == "dict":
        r = None
        for kk, v in t.a[0]:
            if kk is k:
                r = v
            elif kk.k == "star":
                r = None  # may be overridden
        return r
    if t.k == "call" and fname(t) == "dict":
        for n, v in t.a[2]:
            if n == key:
                return v
    return None


def is_len_of(t, what) -> bool:
    return t.k == "call" and fname(t) == "len" and len(t.a[1]) == 1 and strip(t.a[1][0]) is strip(what)


def pieces(t, g=()):
    """What a list term is made of: [(guards, kind, term)] with kind 'item' (one element), 'all' (every element of term),
    'flat' (for a comprehension that concatenates: the comp term) or 'other'."""
    t = strip(t)
    if t.k == "ite":
        return pieces(t.a[1], g + tuple(tm.literals(t.a[0]))) + pieces(t.a[2], g + tuple(tm.literals(not_(t.a[0]))))
    if t.k == "list" or t.k == "tuple":
        out = []
        for x in t.a[0]:
            out.append((g, "all", x.a[0]) if x.k == "star" else (g, "item", x))
        return out
    if t.k == "append":
        return pieces(t.a[0], g) + [(g, "item", t.a[1])]
    if t.k == "extend":
        return pieces(t.a[0], g) + pieces(t.a[1], g)
    if t.k == "comp":
        return [(g, "comp", t)]
    if t.k == "call" and t.a[0].k == "ext" and t.a[0].a[0] in ("list", "tuple", "sorted", "iter") and len(t.a[1]) == 1:
        return pieces(t.a[1][0], g)
    if t.k == "binop" and t.a[0] == "+":
        return pieces(t.a[1], g) + pieces(t.a[2], g)
    if t.k == "add":
        return [(g, "other", t)]
    return [(g, "all", t)]


def is_none_lit(t, what, want=True) -> bool:
    """literal `what is None` (want) / `what is not None` (not want); truthiness of `what` counts as not None."""
    n = tm.is_(what, NONE)
    return strip(t) is strip(n if want else not_(n)) or (not want and strip(t) is strip(what))


def loop_body_calls(lp, name, collection: Optional[str] = None):
    """Calls elem(<..collection..>).name() in the body of a loop over that collection, with their guards inside the body."""
    out = []
    for e, c in flow.walk(lp.body):
        if e.kind == "call" and e.name == name and e.recv is not None:
            r = strip(e.recv)
            if collection is None or (r.k in ("elem", "sub") and mentions_attr(r, collection)):
                out.append((e, c))
    return out


def joins_all(ev, collection, name="join") -> bool:
    """ev is the normal end of a loop that joins every element of self.<collection> (only a liveness test may skip one)."""
    if ev.kind != "loopend" or ev.base is None:
        return False
    it = ev.term
    if it is None or not mentions_attr(it, collection) or any(x.k == "slice" for x in subterms(it)):
        return False
    for e, c in loop_body_calls(ev.base, name, collection):
        if e.args and not all(a is NONE for a in e.args) or any(k == "timeout" and v is not NONE for k, v in e.kw.items()):
            continue
        if all(mentions_call(g, "is_alive") or mentions_attr(g, "exitcode") for g in c.guards):
            return True
    return False


def before(seq, first: Callable, then: Callable, init=False):
    """Events `then` reached on some path without `first` having happened before. Returns (reached, offending)."""
    bad, seen = [], []

    def step(st, ev):
        if then(ev):
            seen.append(ev)
            if not st:
                bad.append(ev)
        if first(ev):
            return [True]
        return [st]

    flow.Typestate(step).run(seq, [init])
    return seen, bad


def handlers_in(P, qual_or_func):
    """(Try node, handler node) of a function, nested functions excluded."""
    f = P.func(qual_or_func) if isinstance(qual_or_func, str) else qual_or_func
    from sa.program import walk_own
    out = []
    for n in P.nodes(f, own=True):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                out.append((n, h))
    return out


def handler_names(h):
    if h.type is None:
        return ["BaseException"]
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [ast.unparse(t).split(".")[-1] for t in ts]


def bind_args(P, init_qual, ev):
    """Map the arguments of a constructor/function call onto the parameter names of the given function."""
    f = P.func(init_qual)
    ps = f.params[1:] if f.cls is not None and not f.is_static else f.params
    out = {}
    for p, a in zip(ps, ev.args):
        out[p] = a
    out.update({k: v for k, v in ev.kw.items() if k})
    return out


def implies_nonpos(l, x) -> bool:
    """literal l implies x <= 0 (x a non-negative or any number)"""
    x = strip(x)
    l = strip(l)
    if l.k == "not" and l.a[0] is x:
        return True
    if l.k == "eq" and x in l.a and any(tm.is_num(o) and float(o.a[1]) <= 0 for o in l.a if o is not x):
        return True
    if l.k in ("le", "lt"):
        d = tm.sub(l.a[0], x)
        if tm.is_num(d):
            k = float(d.a[1])
            return k >= 0 if l.k == "le" else k >= -1  # whole numbers
    return False


def implies_ge(l, x, y, slack=0) -> bool:
    """literal l implies x >= y + slack"""
    l = strip(l)
    x, y = strip(x), strip(y)
    if l.k in ("le", "lt"):
        d = tm.sub(l.a[0], tm.sub(y, x))  # l: y - x + k (<|<=) 0
        if tm.is_num(d):
            k = float(d.a[1])
            return k >= slack if l.k == "le" else k >= slack - 1
    if l.k == "eq":
        return slack <= 0 and x in l.a and y in l.a
    return False


def in_with(c, pred) -> bool:
    return any(pred(w) for w in c.withs)


def call_sites(P, name):
    """(function, call node) of every call written as something.<name>(...) or <name>(...)"""
    out = []
    for g, n in P.all_calls():
        fn = n.func
        if (isinstance(fn, ast.Attribute) and fn.attr == name) or (isinstance(fn, ast.Name) and fn.id == name):
            out.append((g, n))
    return out


def file_of(fobj):
    """path and mode terms of a file object term: open(p, mode) / entered(open(..)) / Path(p).open()"""
    t = strip(fobj)
    while t.k in ("entered", "mut"):
        t = t.a[0]
    if t.k == "call" and fname(t) in ("open", "io.open") and t.a[1]:
        m = t.a[1][1] if len(t.a[1]) > 1 else dict(t.a[2]).get("mode", const("r"))
        return t.a[1][0], m
    return None, None


def writes_to(ev):
    """path written by an event: f.write(..) on an opened file"""
    if ev.kind == "call" and ev.name == "write" and ev.recv is not None:
        p, m = file_of(ev.recv)
        return p
    return None


REMOVERS = ("os.remove", "os.unlink", "shutil.rmtree", "os.rmdir")


def removed_path(ev):
    if ev.kind != "call":
        return None
    if ev.callee in REMOVERS and ev.args:
        return ev.args[0]
    if ev.name == "unlink" and ev.recv is not None:
        return ev.recv
    return None


def fills(ev):
    """path of a file opened for writing that a call writes to or is handed (f.write(..), copyfileobj(src, f), blob.readinto(f), json.dump(x, f))"""
    if ev.kind != "call":
        return None
    p = writes_to(ev)
    if p is not None:
        return p
    for a in list(ev.args) + list(ev.kw.values()):
        p, m = file_of(a)
        if p is not None and m is not None and strip(m).k == "const" and any(x in str(strip(m).a[1]) for x in "wax"):
            return p
    return None


def ends_with(path, *sufs):
    t = strip(path)
    if t.k == "const":
        return t.a[0] == "str" and eval_str(t).endswith(sufs)
    if t.k in ("cat", "join") and t.a[0]:
        return ends_with(t.a[0][-1], *sufs)
    if t.k == "elem" and strip(t.a[0]).k in ("list", "tuple"):
        return all(ends_with(x, *sufs) for x in strip(t.a[0]).a[0])
    if t.k == "ite":
        return all(ends_with(x, *sufs) for x in t.a[1:])
    els = [x for x in subterms(t) if x.k == "elem" and strip(x.a[0]).k in ("list", "tuple")]
    return bool(els) and t.k not in ("call", "sub", "attr") and all(ends_with(x, *sufs) for x in els)


def suffix(path, base):
    """path == base + '<suffix>' -> suffix"""
    t, b = strip(path), strip(base)
    tp = list(t.a[0]) if t.k == "cat" else [t]
    bp = list(b.a[0]) if b.k == "cat" else [b]
    if len(tp) < len(bp):
        return None
    for i, x in enumerate(bp):
        if tp[i] is x:
            continue
        if i == len(bp) - 1 and len(tp) == len(bp) and x.k == "const" and tp[i].k == "const" and x.a[0] == tp[i].a[0] == "str" and eval_str(tp[i]).startswith(eval_str(x)):
            return eval_str(tp[i])[len(eval_str(x)):]
        return None
    rest = tp[len(bp):]
    if len(rest) == 1 and rest[0].k == "const" and rest[0].a[0] == "str":
        return eval_str(rest[0])
    return None


def eval_str(c):
    s = c.a[1]
    if isinstance(s, str) and s and s[0] in "'\"":
        try:
            return ast.literal_eval(s)
        except (SyntaxError, ValueError):
            return s
    return s


_EVS = {}


def own_events(P, f, **kw):
    """events of one function without inlining (remembered per program)"""
    key = (id(P), f.qual, tuple(sorted(kw.items())))
    if key not in _EVS:
        try:
            seq, ev = evaluate(P, f, policy=lambda *a: False, **kw)
            _EVS[key] = list(flow.walk(seq))
        except AnalysisBroken:
            _EVS[key] = []
    return _EVS[key]


def target_of(P, ev):
    """the function (or constructor) of the package a call event goes to"""
    if ev.kind != "call" or not ev.callee:
        return None
    q = ev.callee
    for k in (q, "litdata." + q):
        if k in P.funcs:
            return P.funcs[k]
        if k in P.classes:
            return through(P, P.classes[k].find("__init__"))
    return None


def forwards(P, f):
    """the constructor that f hands all of its arguments to, when it takes *args and **kwargs only"""
    if f is None or f.cls is None:
        return None
    a = f.node.args
    if len(a.args) > 1 or a.kwonlyargs or a.vararg is None or a.kwarg is None:
        return None
    for x in P.nodes(f):
        if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == f.name):
            continue
        if not (any(isinstance(y, ast.Starred) and isinstance(y.value, ast.Name) and y.value.id == a.vararg.arg for y in x.args)
                and any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == a.kwarg.arg for k in x.keywords)):
            continue
        for c in f.cls.mro()[1:]:
            if f.name in c.methods and (not isinstance(x.func.value, ast.Name) or x.func.value.id == c.name):
                return c.methods[f.name]
    return None


def through(P, f):
    return forwards(P, f) or f


def kwnamed(kw):
    """every argument of a call whose name is known"""
    return dict(getattr(kw, "named", kw) or {})


def passed(ev, f):
    """parameter name -> argument term of a call event that goes to f; None when the arguments cannot be matched"""
    if ev.starred:
        return None
    ps = f.params[1:] if f.cls is not None and not f.is_static else f.params
    out = dict(zip(ps, ev.args))
    for k, v in ev.kw.items():
        if not k or k == "**":
            return None
        out[k] = v
    return out


def wired(P, R, rule, pname, skip=lambda f, t: False, only=lambda f, t: True):
    """every call to a function that takes `pname`, made where such a value is at hand (a parameter or an attribute of that name),
    hands that value on"""
    n = 0
    names = (pname, "_" + pname)
    for q, f in sorted(P.funcs.items()):
        has_param = pname in f.params
        has_attr = f.cls is not None and any(
            isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in names
            for m in P.funcs.values() if m.cls is not None and (m.cls is f.cls or m.cls in f.cls.mro()) for x in P.nodes(m))
        if not has_param and not has_attr:
            continue
        for e, c in own_events(P, f):
            t = target_of(P, e)
            if t is None or pname not in t.params or skip(f, t) or not only(f, t):
                continue
            a = passed(e, t)
            n += 1
            R.unit(f.qual)
            what = f"{'.'.join(q.split('.')[-2:])} -> {'.'.join(t.qual.split('.')[-2:])}"
            if a is None:
                R.ob(rule, what, None, "arguments passed with a star", e.where)
                continue
            v = a.get(pname)
            ok = v is not None and mentions(v, lambda x: (x.k == "param" and x.a[0] == pname) or (x.k == "attr" and x.a[1] in names))
            if ok:
                # a constant instead of it under a condition of something else
                def is_it(x):
                    return (x.k == "param" and x.a[0] == pname) or (x.k == "attr" and x.a[1] in names)
                ok = not any(is_const(strip(x)) and not mentions(g, is_it) and not mentions(x, is_it) for g, x in galts(strip(v)))
            if v is not None and not ok and any(x.k in ("phi", "comp", "elem", "call") for x in subterms(v)) and not is_const(strip(v)):
                ok = None
            R.ob(rule, what, ok, f"{pname} = {show(v, 4) if v is not None else 'not passed'}", e.where)
    return n


def truth3(t, atom):
    """truth of a condition in a scenario: atom(t) gives True/False/None for what is not and/or/not/ite"""
    t = strip(t)
    if t is TRUE or t is FALSE:
        return t is TRUE
    v = atom(t)
    if v is not None:
        return v
    if t.k == "not":
        v = truth3(t.a[0], atom)
        return None if v is None else not v
    if t.k in ("and", "or"):
        vs = [truth3(x, atom) for x in t.a[0]]
        stop = t.k == "or"
        if stop in vs:
            return stop
        return None if None in vs else not stop
    if t.k == "ite":
        c = truth3(t.a[0], atom)
        if c is None:
            a, b = truth3(t.a[1], atom), truth3(t.a[2], atom)
            return a if a == b else None
        return truth3(t.a[1] if c else t.a[2], atom)
    if is_const(t):
        return bool(t.a[1]) if t.a[0] in ("bool", "int", "float", "str") else (False if t is NONE else None)
    return None


def spec(t, atom):
    """the value a term has in a scenario, as far as its gates are decided"""
    def f(x):
        if x.k == "ite":
            c = truth3(x.a[0], atom)
            if c is not None:
                return x.a[1] if c else x.a[2]
        return None
    return tm.rebuild(strip(t), f)


def under(atom):
    """assume-function of a typestate run: prunes what the scenario excludes"""
    return lambda st, cond: None if truth3(cond, atom) is False else st


def enc_compares(t):
    """(attribute or key compared, constant) of an equality with a string constant"""
    if t.k == "eq" and len(t.a) == 2:
        for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            if y.k == "const" and y.a[0] == "str":
                return x, eval_str(y)
    return None




def inner_loops(seq):
    """all loops of a region tree"""
    seen, out = set(), []
    for _, c in flow.walk(seq):
        for lp in c.loops:
            if id(lp) not in seen:
                seen.add(id(lp))
                out.append(lp)
    return out


def before_loops(seq, t):
    """the term with the loop variables replaced by what they were before the loop"""
    t = strip(t)
    init = {(lp.lid, str(nm)): v[0] for lp in inner_loops(seq) for nm, v in lp.carried.items()}
    for _ in range(4):
        m = {x: strip(init[(x.a[0], str(x.a[1]))]) for x in subterms(t) if x.k == "phi" and init.get((x.a[0], str(x.a[1]))) is not None}
        m = {x: v for x, v in m.items() if not contains(v, x)}
        if not m:
            return t
        t = strip(tm.subst(t, m))
    return t


__all__ = [n for n in dir() if not n.startswith("__")]
