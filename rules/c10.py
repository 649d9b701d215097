"""C10: a saved position is refused unless it matches the dataset it is loaded into."""
from .common import *

DS = "streaming.dataset.StreamingDataset."
# recorded key -> (description of the dataset's own value, matcher)
OWN = {
    "shuffle": lambda x: is_attr(x, "shuffle"),
    "seed": lambda x: is_attr(x, "seed"),
    "drop_last": lambda x: is_attr(x, "drop_last"),
    "num_workers": lambda x: is_attr(x, "world_size") and mentions_attr(x, "worker_env"),
    "world_size": lambda x: is_attr(x, "world_size") and mentions_attr(x, "distributed_env"),
    "input_dir_path": lambda x: is_attr(x, "path") and mentions_attr(x, "input_dir"),
    "input_dir_url": lambda x: is_attr(x, "url") and mentions_attr(x, "input_dir"),
    "item_loader": lambda x: x.k == "call" and fname(x) == "state_dict" and mentions_attr(x, "item_loader"),
    "subsampled_files": lambda x: is_attr(x, "subsampled_files"),
    "region_of_interest": lambda x: is_attr(x, "region_of_interest"),
    "batch_size": lambda x: is_attr(x, "batch_size"),
}
SAVED = dict(OWN)
SAVED["num_workers"] = lambda x: mentions_param(x, "num_workers")
SAVED["batch_size"] = lambda x: mentions_param(x, "batch_size")
SAVED["num_samples_yielded"] = lambda x: x is mk("param", "num_samples_yielded")
SAVED["current_epoch"] = lambda x: is_attr(x, "current_epoch")


def check(P, R):
    R.rule("validated", "with the recorded value of a quantity different from the dataset's own and no override, validation cannot end normally")
    R.rule("no-false-refusal", "a refusal is raised only under a difference between the recorded and the dataset's own value of one and the same quantity")
    R.rule("override", "when overriding, the dataset's own value replaces the recorded one, before the order of samples is built from it")
    R.rule("validate-first", "a loaded state is validated before it is used to build or position the pass")
    R.rule("recorded", "the state records each quantity under the name under which it is validated and used")
    R.rule("worker-guard", "the state is never produced inside a data-loading worker")
    R.rule("combined", "a combined state is refused unless it has a state for each dataset, and each dataset is given its own")
    R.part(P, validated, first, recorded, worker_guard, combined)


def is_assert(P, f, e):
    """raised by an assert statement (an internal sanity check, not a refusal)"""
    line = int(e.where.rsplit(":", 1)[1])
    return any(isinstance(n, ast.Assert) and n.lineno <= line <= n.end_lineno for n in ast.walk(f.module.tree))


def state_key(x, *keys):
    return any(is_key(x, k) for k in keys)


def is_force(l):
    return mentions_attr(l, "_force_override_state_dict")


def validated(P, R):
    f = P.func(DS + "_validate_state_dict")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"_should_replace_path", "_try_create_cache_dir", "get_len", "__len__"})
    compared = set()
    for e, c in flow.walk(seq):
        for g in c.guards:
            for x in subterms(g):
                for k in OWN:
                    if is_key(x, k):
                        compared.add(k)

    def differs(l, k, pos=True):
        """the literal says that the recorded value equals the dataset's own -> impossible under the assumption"""
        l = strip(l)
        if l.k == "eq":
            a, b = (strip(x) for x in l.a)
            for x, y in ((a, b), (b, a)):
                if has_key(x, k) and has_own(y, k):
                    return True
        if l.k == "and":
            return any(differs(x, k) for x in l.a[0])
        return False

    for k in OWN:
        if k == "input_dir_path":
            continue

        def dead(l, k=k):
            """the literal cannot hold when the recorded value differs and no override was asked for"""
            l = strip(l)
            if l.k == "and":
                return any(dead(x) for x in l.a[0])
            if l.k == "or":
                return all(dead(x) for x in l.a[0])
            if l.k == "not" and strip(l.a[0]).k in ("and", "or"):
                i = strip(l.a[0])
                return (all if i.k == "and" else any)(dead(not_(x)) for x in i.a[0])
            if l.k == "eq":
                return differs(l, k)
            if is_force(l) and l.k != "not":
                return True
            return k == "item_loader" and (
                (l.k == "not" and is_attr(strip(l.a[0]), "item_loader")) or (l.k == "is" and l.a[1] is NONE and is_attr(strip(l.a[0]), "item_loader")))

        def assume(st, cond):
            return None if any(dead(l) for l in tm.literals(cond)) else st

        out = flow.Typestate(lambda st, e: [st], assume).run(seq, [0])
        ok = not (out["norm"] or out["ret"])
        det = "compared with " + (", ".join(sorted(compared & {k})) or "nothing")
        if not ok and k not in compared and any(x.k == "const" and x.a[0] == "str" and eval_str(x) == k for e, c in flow.walk(seq) for lp in c.loops for x in subterms(lp.iter or NONE)):
            ok = None
        R.ob("validated", k, ok, f"validation ends normally although the recorded `{k}` differs from the dataset's own", f.where)

    # the path: either compared directly, or the cache folder resolved from it
    def passume(st, cond):
        for l in tm.literals(cond):
            l = strip(l)
            if is_force(l) and l.k != "not":
                return None
            if l.k == "eq" and any(is_attr(strip(x), "path") and mentions_attr(x, "input_dir") for x in l.a):
                return None
        return st

    out = flow.Typestate(lambda st, e: [st], passume).run(seq, [0])
    R.ob("validated", "input_dir_path", not (out["norm"] or out["ret"]), "validation ends normally although the recorded path differs", f.where)
    # refusals
    n = 0
    for e, c in flow.walk(seq):
        if e.kind == "raise":
            if is_assert(P, f, e):
                continue
            n += 1
            lits = [strip(l) for g in c.guards for l in tm.literals(g)]
            ok = any(difference(l) for l in lits)
            R.ob("no-false-refusal", f"raise {n}", ok, guards_str(c)[:300], e.where)
        if e.kind == "setitem" and e.idx is not None and e.idx.k == "const":
            k = eval_str(e.idx)
            if k in OWN and mentions_attr(e.base, "_state_dict"):
                R.ob("override", f"state[{k!r}]", has_own(strip(e.value), k), show(e.value, 4), e.where)
    need(range(n), "refusals", 6)
    for k in sorted(compared - {"batch_size"}):
        sets = [e for e, c in flow.walk(seq) if e.kind == "setitem" and e.idx is not None and e.idx.k == "const" and eval_str(e.idx) == k]
        R.ob("override", f"state[{k!r}] replaced", bool(sets), "the recorded value stays in use although overridden", f.where)


def has_key(x, k):
    return is_key(x, k) or (k in ("region_of_interest", "subsampled_files") and mentions_key(x, k))


def has_own(y, k):
    return OWN[k](y) or (k in ("region_of_interest", "subsampled_files") and mentions(y, lambda z: OWN[k](z)))


def difference(l):
    """not (recorded == own) for one and the same quantity, or recorded number of samples above the length"""
    if l.k == "not":
        x = strip(l.a[0])
        if x.k == "eq":
            a, b = (strip(y) for y in x.a)
            for p, q in ((a, b), (b, a)):
                for k in OWN:
                    if has_key(p, k) and has_own(q, k):
                        return True
                if fname(p).endswith("_try_create_cache_dir") and OWN["input_dir_path"](q):
                    return True
        if x.k == "and":
            return all(difference(strip(not_(y))) for y in x.a[0])
    if l.k == "or":
        return all(difference(strip(y)) for y in l.a[0])
    if l.k in ("lt", "le"):
        return mentions_key(l, "num_samples_yielded") and mentions(l, lambda x: fname(x) in ("len", "get_len", "__len__") or fname(x).endswith("get_len"))
    return False


def first(P, R):
    f = P.func(DS + "__iter__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"_validate_state_dict", "_create_cache", "_create_shuffler", "_resume", "get_chunks_and_intervals_per_workers"}, policy=lambda *a: False)

    def loaded(l):
        l = strip(l)
        return is_attr(l, "_state_dict") or (l.k == "not" and l.a[0].k == "is" and mentions_attr(l, "_state_dict"))

    uses, bad, built = [], [], []

    def step(st, e):
        if e.kind == "call":
            if e.name == "_validate_state_dict":
                return [(True, False)]
            if e.name in ("get_chunks_and_intervals_per_workers", "_resume"):
                uses.append(e)
                if not st[0]:
                    bad.append(e)
                if not st[1]:
                    built.append(e)
            if e.name == "_create_shuffler" and st[0]:
                return [(True, True)]
        return [st]

    def assume(st, cond):
        for l in tm.literals(cond):
            if loaded(not_(l)) or (strip(l).k == "is" and mentions_attr(l, "_state_dict")):
                return None
        return st

    flow.Typestate(step, assume).run(seq, [(False, False)])
    names = {e.name for e in uses}
    need([n for n in names if n in ("get_chunks_and_intervals_per_workers", "_resume")], "uses of a loaded state in __iter__", 2)
    for nme in sorted(names):
        b = [e for e in bad if e.name == nme]
        R.ob("validate-first", nme, not b, "reached with a loaded state that has not been validated", (b or uses)[0].where)
    R.ob("override", "order built after the override", not built, "the shuffler was made from the recorded values before they were overridden", (built or uses)[0].where)


def recorded(P, R):
    f = P.func(DS + "state_dict")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"_is_in_dataloader_worker"})
    saved = {}
    for e, c in flow.walk(seq):
        if e.kind == "return" and not e.inlined:
            for g, v in galts(e.value):
                v = strip(v)
                if v.k != "dict":
                    if is_attr(v, "_state_dict") or mentions_attr(v, "_state_dict"):
                        continue
                    R.ob("recorded", "state", None, show(v, 3), e.where)
                    continue
                for k, x in v.a[0]:
                    saved[eval_str(k) if k is not None and k.k == "const" else show(k)] = (strip(x), e)
    need(saved, "recorded quantities", 8)
    for k, m in SAVED.items():
        if k not in saved:
            R.ob("recorded", k, False, "not recorded", f.where)
            continue
        v, e = saved[k]
        ok = any(m(strip(a)) for _, a in galts(v)) or (m(v) if v.k != "ite" else False) or mentions(v, lambda x: m(x))
        R.ob("recorded", k, ok, show(v, 4), e.where)
    # a state that is still loaded is returned with the position brought up to date
    given = mk("param", "num_samples_yielded")

    def step(s, e):
        if e.kind == "setitem" and e.idx is const("num_samples_yielded") and strip(e.value) is given:
            return [True]
        if e.kind == "call" and e.name == "update" and (
                any(dict_get(strip(a), "num_samples_yielded") is given for a in e.args) or e.kw.get("num_samples_yielded") is given):
            return [True]
        return [s]

    def assume(s, cond):
        for l in tm.literals(cond):
            l = strip(l)
            if l.k == "is" and mentions_attr(l, "_state_dict"):
                return None
            if l.k == "not" and is_attr(strip(l.a[0]), "_state_dict"):
                return None
        return s

    out = flow.Typestate(step, assume).run(seq, [False])
    R.ob("recorded", "position of a resumed pass", all(s for s, *_ in out["ret"] | out["norm"]), "a loaded state is returned with its old position", f.where)
    # everything read from a loaded state is recorded
    cls = P.cls("streaming.dataset.StreamingDataset")
    n = 0
    for m in cls.methods.values():
        if m.name == "state_dict":
            continue
        for node in P.nodes(m):
            if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, str) and isinstance(node.ctx, ast.Load):
                b = ast.unparse(node.value)
                if b in ("state", "self._state_dict", "state_dict"):
                    n += 1
                    R.ob("recorded", f"{m.name} reads {node.slice.value!r}", node.slice.value in saved, "read from a state that does not record it", f"{m.module.rel}:{node.lineno}")
    need(range(n), "reads of a loaded state", 5)


def worker_guard(P, R):
    f = P.func(DS + "state_dict")
    seq, ev = evaluate(P, f, opaque={"_is_in_dataloader_worker"})

    def assume(st, cond):
        for l in tm.literals(cond):
            l = strip(l)
            if l.k == "not" and fname(strip(l.a[0])).endswith("_is_in_dataloader_worker"):
                return None
        return st

    out = flow.Typestate(lambda st, e: [st], assume).run(seq, [0])
    R.ob("worker-guard", "StreamingDataset.state_dict", not (out["norm"] or out["ret"]), "returns a state inside a worker", f.where)
    g = P.func("streaming.dataset._is_in_dataloader_worker") if "streaming.dataset._is_in_dataloader_worker" in P.funcs else None
    for q, fn in P.funcs.items():
        if q.endswith("._is_in_dataloader_worker"):
            R.unit(fn.qual)
            _, ev = evaluate(P, fn)
            v = strip(ev.ret)
            ok = v.k == "not" and v.a[0].k == "is" and mentions(v, lambda x: fname(x).endswith("get_worker_info"))
            R.ob("worker-guard", "detection of a worker", ok or None, show(v, 4), fn.where)
    # the recorded state is stored as given
    f = P.func(DS + "load_state_dict")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    st = [e for e, c in flow.walk(seq) if e.kind == "store" and e.attr == "_state_dict"]
    R.ob("recorded", "load_state_dict keeps the state", bool(st) and all(mentions(e.value, lambda x: x is mk("param", f.params[1])) for e in st), "; ".join(show(e.value, 3) for e in st), f.where)


def combined(P, R):
    f = P.func("streaming.combined.CombinedStreamingDataset.load_state_dict")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"load_state_dict"})
    loads = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "load_state_dict" and e.recv is not None and not (e.recv.k == "self")]
    need(loads, "loading of the datasets' states")
    for e, c in loads:
        arg = strip(e.args[0])
        # dataset i gets entry str(i)
        ok = None
        if arg.k == "sub":
            key = strip(arg.a[1])
            idx = [x for x in subterms(key) if x.k in ("sub", "idx", "elem", "iter", "enum") or x.k.startswith("loop")]
            ok = same_iteration(strip(e.recv), key)
        R.ob("combined", "state of each dataset", ok, f"{show(e.recv, 4)} <- {show(arg, 5)}", e.where)

    def is_size(l):
        l = strip(l)
        return l.k == "eq" and sum(1 for x in l.a if fname(strip(x)) == "len") == 2 and mentions_key(l, "dataset") and mentions_attr(l, "_datasets")

    def assume(st, cond):
        for l in tm.literals(cond):
            l = strip(l)
            if is_size(l) or (is_force(l) and l.k != "not"):
                return None
            if l.k == "not" and strip(l.a[0]) is mk("param", f.params[1]):
                return None
        return st

    out = flow.Typestate(lambda st, e: [st], assume).run(seq, [0])
    R.ob("combined", "number of datasets", not (out["norm"] or out["ret"]), "another number of datasets is accepted without override", f.where)

    # a dataset without a state is refused
    def assume2(st, cond):
        for l in tm.literals(cond):
            l = strip(l)
            if l.k == "in" and mentions_key(l, "dataset"):
                return None
            if is_force(l) and l.k != "not":
                return None
        return st

    def step2(st, e):
        if e.kind == "iter":
            return [1]
        return [st]

    out = flow.Typestate(step2, assume2).run(seq, [0])
    inside = [(e, c) for e, c in flow.walk(seq) if e.kind == "raise" and c.loops]
    ok = any(any(strip(l).k == "not" and strip(strip(l).a[0]).k == "in" and mentions_key(l, "dataset") for g in c.guards for l in tm.literals(g)) for e, c in inside)
    R.ob("combined", "missing state", ok, "a dataset without a state is accepted", f.where)


def same_iteration(recv, key):
    """recv is the element whose position the key is built from"""
    if not (key.k == "call" and fname(key) == "str" and len(key.a[1]) == 1) and key.k not in ("fstr", "cat"):
        return None
    i = strip(key.a[1][0]) if key.k == "call" else None
    if recv.k == "elem":
        return i is not None and i.k == "idx" and strip(i.a[0]) is strip(recv.a[0])
    if recv.k == "sub":
        return i is not None and strip(recv.a[1]) is i
    return None
