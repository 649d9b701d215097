"""C06: a failing worker never turns into a successful run."""
from .common import *
from .c05 import DP, RUN_OPAQUE, final_progress, is_call, is_received_none

CATCH = ("Exception", "BaseException")


def check(P, R):
    R.rule("worker-reports", "every exception of a worker's setup, loop and termination reaches the error queue or leaves the process")
    R.rule("parent-raises", "an error taken from the error queue makes the parent raise")
    R.rule("parent-looks", "the parent polls the error queue in every round of its waiting loop")
    R.rule("no-result-on-error", "the recipe is not finished on a path where an error was received")
    R.rule("no-swallow", "no handler on the way from user code, readers, transfers or the writer to the worker drops an error of unknown kind")
    R.rule("upload-failure", "a worker whose uploader process failed does not report its work as complete")
    R.rule("map-result", "a map function that returns a value is refused")
    R.part(P, worker_reports, parent, swallow, upload_failure, transform)


def worker_reports(P, R):
    f = P.func(DP + "BaseWorker.run")
    R.unit(f.qual)
    seq, _ = evaluate(P, f, policy=lambda *a: False)
    steps = [e for e, c in flow.walk(seq) if e.kind == "call" and e.name in ("_setup", "_loop", "_terminate")]
    for n in ("_setup", "_loop", "_terminate"):
        R.ob("worker-reports", f"run calls {n}", any(e.name == n for e in steps), "", f.where)

    # typestate: failing at a step puts state 'failed'; must become 'reported' before a normal end
    def step(st, ev):
        if ev.kind == "call" and ev.name == "put" and recv_is_attr(ev, "error_queue"):
            return ["reported"]
        return [st]

    class TS(flow.Typestate):
        def item(self, it, states):
            r = super().item(it, states)
            if isinstance(it, Ev) and it in steps:
                r["exc"] = {("failed", l) for _, l in states}
            return r

    out = TS(step).run(seq, ["ok"])
    lost = [s for s, _ in out["norm"] | out["ret"] if s == "failed"]
    R.ob("worker-reports", "run", not lost, "a failure ends the worker normally without a report" if lost else "", f.where)
    # report type: the handler covers Exception
    for t, h in handlers_in(P, f):
        pass
    wide = any(set(handler_names(h)) & set(CATCH) for t, h in handlers_in(P, f))
    R.ob("worker-reports", "the handler covers every Exception", wide or not handlers_in(P, f), "only " + ", ".join(n for _, h in handlers_in(P, f) for n in handler_names(h)), f.where)


def parent(P, R):
    f = P.func(DP + "DataProcessor._exit_on_error")
    R.unit(f.qual)
    seq, _ = evaluate(P, f)
    ex = flow.exits(seq)
    R.ob("parent-raises", "_exit_on_error", ex <= {"raise"}, f"can end with {sorted(ex)}", f.where)
    f = P.func(DP + "DataProcessor.run")
    R.unit(f.qual)
    seq, _ = evaluate(P, f, opaque=RUN_OPAQUE)

    def is_err_get(e):
        return e.kind == "call" and e.name in ("get", "get_nowait") and recv_is_attr(e, "error_queue")

    gets = need([(e, c) for e, c in flow.walk(seq) if is_err_get(e)], "error_queue.get in the parent")
    # the value received always goes to something that raises
    def use(e):
        def step(st, ev):
            if ev is e:
                return ["pending"]
            if st == "pending" and ((is_call("_exit_on_error")(ev) and any(contains(a, e.term) for a in ev.args)) or ev.kind == "raise"):
                return ["raised"]
            if st == "pending" and ev.kind != "iter" and ev.kind in ("continue",):
                return [st]
            return [st]

        class TS(flow.Typestate):
            def item(self, it, states):
                r = super().item(it, states)
                if isinstance(it, Ev) and is_call("_exit_on_error")(it):
                    r["raise"] = r["raise"] | r["norm"]
                    r["norm"] = r["exc"] = set()
                return r

        ts = TS(step)
        out = ts.run(seq, ["idle"])
        return [s for s, _ in out["norm"] | out["ret"] if s == "pending"]

    for i, (e, c) in enumerate(gets):
        p = use(e)
        # caught as something else than Empty?
        R.ob("parent-raises", f"error received ({'first' if i == 0 else 'final'} poll)", not p, "an error taken from the queue is dropped" if p else "", e.where)
    # handlers around the polls only catch Empty
    for t, h in handlers_in(P, f):
        names = handler_names(h)
        src = ast.unparse(ast.Module(t.body, []))
        if "error_queue" in src or "_exit_on_error" in src:
            ok = not (set(names) & set(CATCH + ("RuntimeError",)))
            if not ok:
                ok = always_raises(h)
            R.ob("parent-raises", "handlers around the error poll", ok, "except " + ", ".join(names), f"{f.module.rel}:{h.lineno}")
    # polled in each round: the loop that breaks towards _done contains an unguarded poll
    loops = []

    def collect(s):
        for it in s.items:
            if isinstance(it, Loop):
                if any(is_err_get(e) for e, _ in flow.walk(it.body)):
                    loops.append(it)
                collect(it.body)
            elif isinstance(it, If):
                collect(it.then), collect(it.els)
            elif isinstance(it, Try):
                collect(it.body), collect(it.orelse), collect(it.final)
            elif isinstance(it, (With, Inline)):
                collect(it.body)

    collect(seq)
    for lp in R.must("parent-looks", "waiting loop", loops, "the waiting loop does not look at the error queue", f.where):
        g = [c for e, c in flow.walk(lp.body) if is_err_get(e)]
        R.ob("parent-looks", "each round", any(not c.guards for c in g), "; ".join(guards_str(c) for c in g)[:300], f.where)
    # no return of run before _done with items pending
    seen, _ = before(seq, lambda e: False, is_call("_done"))
    R.ob("no-result-on-error", "run finishes the recipe after the loop", bool(seen), "", f.where)
    # workers get the same error queue
    f = P.func(DP + "DataProcessor._create_process_workers")
    R.unit(f.qual)
    seq, _ = evaluate(P, f, policy=lambda *a: False)
    ctor = [e for e, c in flow.walk(seq) if e.kind == "call" and (e.callee or "").endswith("DataWorkerProcess")]
    for e in R.must("worker-reports", "workers are created", ctor, "", f.where):
        b = bind_args(P, DP + "BaseWorker.__init__", e)
        v = b.get("error_queue")
        R.ob("worker-reports", "workers share the parent's error queue", v is not None and self_attr(strip(v), "error_queue"), show(v) if v is not None else str(sorted(b)), e.where)


def always_raises(h):
    last = h.body[-1]
    return isinstance(last, ast.Raise)


def swallow(P, R):
    """Functions reachable from a worker (call graph by name within processing, writer, cache, serializers)."""
    roots = [DP + "BaseWorker.run", DP + "_upload_fn", DP + "_download_data_target", DP + "BaseWorker._handle_data_chunk_recipe", DP + "BaseWorker._handle_data_chunk_recipe_end",
             DP + "BaseWorker._handle_data_transform_recipe", DP + "BaseWorker._loop", DP + "BaseWorker._setup"]
    todo, seen = [P.func(r) for r in roots], {}
    for c in ("processing.functions.LambdaDataChunkRecipe", "processing.functions.LambdaMapRecipe"):
        for m in P.cls(c).methods.values():
            todo.append(m)
    for m in P.cls("streaming.writer.BinaryWriter").methods.values():
        todo.append(m)
    for m in P.cls("processing.readers.StreamingDataLoaderReader").methods.values():
        todo.append(m)
    for c in P.classes.values():
        if c.qual.endswith("fs_provider.FsProvider") or any(b.qual.endswith("FsProvider") for b in c.mro()):
            for m in c.methods.values():
                if m.name in ("upload_file", "download_file", "copy"):
                    todo.append(m)
    while todo:
        f = todo.pop()
        if f.qual in seen:
            continue
        seen[f.qual] = f
    n = 0
    for q in sorted(seen):
        f = seen[q]
        R.unit(q)
        for t, h in handlers_in(P, f):
            names = handler_names(h)
            if not set(names) & set(CATCH):
                continue
            n += 1
            ok = handler_keeps(P, h)
            R.ob("no-swallow", f"{q.split('.', 1)[-1]} except {','.join(names)}", ok, ast.unparse(h)[:300], f"{f.module.rel}:{h.lineno}")
        # contextlib.suppress
        for node in P.nodes(f):
            if isinstance(node, ast.With):
                for it in node.items:
                    if isinstance(it.context_expr, ast.Call) and ast.unparse(it.context_expr.func).endswith("suppress"):
                        args = {ast.unparse(a).split(".")[-1] for a in it.context_expr.args}
                        R.ob("no-swallow", f"{q.split('.', 1)[-1]} suppress", not args & set(CATCH), ast.unparse(it.context_expr), f"{f.module.rel}:{node.lineno}")
            if isinstance(node, ast.Try):
                for s in ast.walk(ast.Module(node.finalbody, [])):
                    if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
                        R.ob("no-swallow", f"{q.split('.', 1)[-1]} finally", False, "a jump in finally drops the exception", f"{f.module.rel}:{s.lineno}")
    R.ob("no-swallow", "functions looked at", len(seen) >= 25, f"{len(seen)} functions, {n} catch-all handlers", "")
    # the item handlers specifically re-raise
    for q in ("_handle_data_chunk_recipe", "_handle_data_transform_recipe", "_handle_data_chunk_recipe_end"):
        f = P.func(DP + "BaseWorker." + q)
        for t, h in handlers_in(P, f):
            if not set(handler_names(h)) & set(CATCH):
                R.ob("no-swallow", f"{q} handler {','.join(handler_names(h))}", handler_keeps(P, h) or set(handler_names(h)) <= {"Empty"}, ast.unparse(h)[:200], f"{f.module.rel}:{h.lineno}")


def handler_keeps(P, h) -> bool:
    """Every way through the handler raises, or hands the error to an error queue."""
    def text(e):
        out = ast.unparse(e)
        for x in ast.walk(e):
            if isinstance(x, ast.Name):
                for y in h.body:
                    if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in y.targets):
                        out += " " + ast.unparse(y.value)
        return out

    def blk(stmts):
        for s in stmts:
            if isinstance(s, ast.Raise):
                return True
            if isinstance(s, ast.If) and blk(s.body) and s.orelse and blk(s.orelse):
                return True
            if isinstance(s, ast.With) and blk(s.body):
                return True
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                    s.value.func.attr in ("put", "put_nowait") and "error" in text(s.value.func.value):
                return True
            if isinstance(s, (ast.Expr, ast.Return)) and isinstance(s.value, ast.Call):
                name = s.value.func.id if isinstance(s.value.func, ast.Name) else getattr(s.value.func, "attr", None)
                if any(blk(g.node.body) for g in P.helpers_named(name)):
                    return True
        return False

    return blk(h.body)


def upload_failure(P, R):
    f = P.func(DP + "BaseWorker._loop")
    seq, _ = evaluate(P, f, opaque={"_handle_data_chunk_recipe_end", "_handle_data_chunk_recipe", "_handle_data_transform_recipe"})
    last = [(e, c) for e, c in flow.walk(seq) if final_progress(e) and any(is_received_none(g) for g in c.guards)]
    raises = [(e, c) for e, c in flow.walk(seq) if e.kind == "raise" and any(mentions_attr(l, "exitcode") and mentions_attr(l, "uploaders") for g in c.guards for l in tm.literals(g))]
    R.must("upload-failure", "exit code of the uploaders", raises, "the worker completes whatever became of its uploader processes", f.where)
    for e, c in raises:
        lits = [l for g in c.guards for l in tm.literals(g) if mentions_attr(l, "exitcode")]
        pos = all(l.k != "not" or (l.a[0].k in ("eq", "is")) or fname(l.a[0]) == "all" for l in lits)
        R.ob("upload-failure", "raises on a failed uploader", pos, "; ".join(show(l, 5) for l in lits), e.where)

    if raises and last:
        # the check happens after the join and before the last report
        def checks(ev):
            return ev.kind == "call" and mentions_attr(ev.term, "exitcode") or ev.kind == "loopend" and ev.base is not None and any(
                e.kind == "raise" and any(mentions_attr(g, "exitcode") for g in c.guards) for e, c in flow.walk(ev.base.body))

        from .c05 import joins_all as ja
        seen, bad = before(seq, lambda e: joins_all(e, "uploaders"), lambda e: e.kind == "raise" and any(e is r for r, _ in raises))
        R.ob("upload-failure", "looked at after the join", not bad, "", f.where)


def transform(P, R):
    f = P.func(DP + "BaseWorker._handle_data_transform_recipe")
    seq, _ = evaluate(P, f, opaque={"_try_upload"})
    ups = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "_try_upload"]
    R.must("map-result", "outputs of a map function are uploaded", ups, "", f.where)
    for e, c in ups:
        a = e.args[0]
        R.ob("map-result", "every file of the output folder", mentions(a, lambda x: x.k == "elem") and mentions_ext(a, "os.walk") or None, show(a, 6), e.where)
    rs = [(e, c) for e, c in flow.walk(seq) if e.kind == "raise"]
    ok = any(any(l.k == "not" and l.a[0].k == "is" and mentions_call(l, "prepare_item") for g in c.guards for l in tm.literals(g)) for e, c in rs)
    R.ob("map-result", "a returned value is refused", ok, "; ".join(guards_str(c) for e, c in rs)[:300], f.where)
