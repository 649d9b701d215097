"""C05: the index is published only after the data it names."""
from .common import *

DP = "processing.data_processor."
RUN_OPAQUE = {"_done", "_exit_on_error", "_load_checkpoint_config", "_save_current_config", "_cleanup_checkpoints", "_cleanup_cache",
              "_create_process_workers", "_map_items_to_workers_weighted", "_map_items_to_workers_sequentially"}


def check(P, R):
    R.rule("workers-joined", "the recipe is finished (index merged and published) only after every worker process has been joined")
    R.rule("all-items-done", "the recipe is finished only when the progress reported by the workers equals the number of items")
    R.rule("uploaders-joined", "a worker reports its last progress only after every uploader got its end signal and was joined")
    R.rule("chunks-before-end", "a worker flushes its writer and queues the last chunks before it signals the uploaders to end")
    R.rule("upload-target", "every uploader process handles every queued file: uploads or copies it, or fails")
    R.rule("index-after-merge", "the index is uploaded after it has been merged")
    R.rule("copies-done", "merged datasets are indexed only after every copy has finished and its error been looked at")
    R.rule("index-last", "no other code of the processing package publishes an index")
    R.rule("progress-early", "progress reported before the end cannot reach the number of items of the worker")
    R.part(P, parent, worker, end, uploader, done, merged, publishers)


def is_call(name):
    return lambda ev: ev.kind == "call" and (ev.name == name or (ev.callee or "").endswith("." + name))


def parent(P, R):
    f = P.func(DP + "DataProcessor.run")
    R.unit(f.qual)
    seq, _ = evaluate(P, f, opaque=RUN_OPAQUE)
    seen, bad = before(seq, lambda e: joins_all(e, "workers"), is_call("_done"))
    if not seen:
        R.ob("workers-joined", "run", False, "the recipe's _done is not reached", f.where)
    for e in dict.fromkeys(seen):
        R.ob("workers-joined", "run -> _done", e not in bad, "a path reaches _done without joining all workers" if e in bad else "", e.where)
    for e, c in flow.walk(seq):
        if is_call("_done")(e):
            def items(l):
                return l.k == "eq" and mentions_attr(l, "workers_tracker") or (l.k == "eq" and mentions_call(l, "values"))
            lits = [l for g in c.guards for l in tm.literals(g)]
            ok = any(items(l) for l in lits)
            R.ob("all-items-done", "run -> _done", ok, "; ".join(show(l, 5) for l in lits if items(l))[:300] or "no such condition on the path", e.where)
            for l in [l for l in lits if items(l)]:
                okn = mentions(l, lambda x: x.k == "call" and fname(x) == "sum" and mentions_call(x, "len")) or mentions_call(l, "len")
                R.ob("all-items-done", "total", okn, show(l, 6), e.where)


def final_progress(e):
    return e.kind == "call" and e.name == "put" and recv_is_attr(e, "progress_queue")


def worker(P, R):
    f = P.func(DP + "BaseWorker._loop")
    R.unit(f.qual)
    seq, _ = evaluate(P, f, opaque={"_handle_data_chunk_recipe_end", "_handle_data_chunk_recipe", "_handle_data_transform_recipe"})
    puts = [(e, c) for e, c in flow.walk(seq) if final_progress(e)]
    need(puts, "progress reports of a worker")
    last, early = [], []
    for e, c in puts:
        if any(is_received_none(g) for g in c.guards):
            last.append((e, c))
        else:
            early.append((e, c))
    R.must("uploaders-joined", "last progress report", last, "the final count is never reported", f.where)
    def item_or_guard(st, ev):
        return False
    for e, c in last:
        # paths where there is an output: end signals, then join
        def run(pred, skip_cond):
            bad = []

            def step(st, ev):
                if ev is e and not st:
                    bad.append(ev)
                return [True] if pred(ev) else [st]

            def assume(st, cond):
                if any(skip_cond(l) for l in tm.literals(cond)):
                    return True
                return st

            flow.Typestate(step, assume).run(seq, [False])
            return bad

        def no_output(l):
            # the negation of "output_dir has a url or a path"
            return (l.k == "not" and mentions_attr(l, "output_dir") and mentions_attr(l, "path", "url")) or \
                (l.k == "is" and mentions_attr(l, "output_dir")) or \
                (l.k in ("ite", "or", "and") and mentions_attr(l, "output_dir") and l.k == "not")

        b = run(lambda ev: joins_all(ev, "uploaders"), no_output)
        R.ob("uploaders-joined", "join before the last report", not b, "" if not b else "the last report can be sent while an uploader is running", e.where)
        b = run(sends_end, no_output)
        R.ob("uploaders-joined", "end signal before the last report", not b, "" if not b else "an uploader may get no end signal", e.where)
        seen, bad = before(seq, sends_end, lambda ev: joins_all(ev, "uploaders"))
        R.ob("uploaders-joined", "end signal before join", not bad, "", e.where)

        def not_chunks(l):
            return l.k == "not" and mentions(l, lambda x: x.k == "isinst") and mentions_attr(l, "data_recipe")

        badc = []

        def step(st, ev):
            if sends_end(ev) and not st:
                badc.append(ev)
            if is_call("_handle_data_chunk_recipe_end")(ev):
                return [True]
            return [st]

        flow.Typestate(step, lambda st, cond: True if any(not_chunks(l) for l in tm.literals(cond)) else st).run(seq, [False])
        R.ob("chunks-before-end", "last chunks are queued before the end signal", not badc, "" if not badc else "uploaders are told to end before the last chunks are queued", f.where)
    for e, c in early:
        cnt = e.args[0].a[0][1] if e.args and e.args[0].k == "tuple" and len(e.args[0].a[0]) == 2 else None
        ok = None
        det = guards_str(c)[:300]
        if cnt is not None:
            d = None
            for g in c.guards:
                for l in tm.literals(g):
                    if l.k == "lt" and mentions_attr(l, "num_items"):
                        d = l
            if d is None:
                ok = False
                det = "an early report is not bounded by num_items"
            else:
                # l: poly < 0 with cnt - num_items + k, k >= 0
                p = strip(d.a[0])
                num = [x for x in subterms(p) if is_attr(x, "num_items")]
                k = tm.sub(p, tm.sub(strip(cnt), num[0]))
                ok = tm.is_num(k) and float(k.a[1]) >= 0 if k.k == "const" else None
                det = show(d, 6)
        R.ob("progress-early", "early report", ok, det, e.where)


def is_received_none(g):
    return any(l.k == "is" and l.a[1 if l.a[0] is NONE else 0] is not None and NONE in l.a and (mentions_call(l, "get", "pop")) for l in tm.literals(g))


def sends_end(ev):
    """normal end of a loop that puts None in every upload queue"""
    if ev.kind == "loopend" and ev.base is not None:
        for e, c in flow.walk(ev.base.body):
            if e.kind == "call" and e.name == "put" and e.args and e.args[0] is NONE and mentions_attr(e.recv, "to_upload_queues") and not c.guards:
                it = ev.term
                if it is None or any(x.k == "slice" for x in subterms(it)):
                    continue
                if fname(strip(it)) == "range":
                    a = strip(it).a[1]
                    return len(a) == 1 and (is_attr(a[0], "num_uploaders") or mentions_call(a[0], "len"))
                return mentions_attr(it, "to_upload_queues")
    return False


def end(P, R):
    f = P.func(DP + "BaseWorker._handle_data_chunk_recipe_end")
    R.unit(f.qual)
    seq, _ = evaluate(P, f, opaque={"done", "save_checkpoint", "_try_upload"})
    done = [e for e, c in flow.walk(seq) if e.kind == "call" and e.name == "done" and not c.guards]
    R.ob("chunks-before-end", "the writer is finished on every path", bool(done), "", f.where)
    puts = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and (e.name == "put" and mentions_attr(e.recv, "to_upload_queues") or e.name == "_try_upload") and e.args]
    mine = [(e, c) for e, c in puts if mentions_call(e.args[0], "done")]
    R.must("chunks-before-end", "the last chunks are queued for upload", mine, "the files returned by done() are not queued", f.where)
    for e, c in mine:
        whole = e.args[0].k == "elem" and fname(strip(peel(e.args[0].a[0]))) in ("done",)
        R.ob("chunks-before-end", "all files returned by done()", whole or None, show(e.args[0], 5), e.where)
        for g in c.guards:
            for l in tm.literals(g):
                ok = mentions_call(l, "done") and (mentions_ext(l, "os.path.exists") or mentions(l, lambda x: x.k == "isinst") or fname(strip(l)) == "done") or \
                    mentions_attr(l, "to_upload_queues")
                R.ob("chunks-before-end", "a file is left out only if it is not there", ok, show(l, 5), e.where)
    f = P.func(DP + "BaseWorker._try_upload")
    R.unit(f.qual)
    seq, _ = evaluate(P, f)
    puts = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "put" and mentions_attr(e.recv, "to_upload_queues")]
    R.must("chunks-before-end", "_try_upload queues the file", puts, "", f.where)
    d = mk("param", "data")
    for e, c in puts:
        R.ob("chunks-before-end", "_try_upload queues what it was given", e.args[0] is d, show(e.args[0]), e.where)
        for g in c.guards:
            for l in tm.literals(g):
                ok = l is d or mentions_attr(l, "output_dir") or mentions(l, lambda x: x.k == "isinst") or mentions_ext(l, "os.path.exists") or l.k == "or"
                R.ob("chunks-before-end", "_try_upload skips only without file or output", ok, show(l, 5), e.where)
        idx = [x for x in subterms(e.recv) if x.k == "sub"]
        ok = any(x.a[1].k == "op" and x.a[1].a[0] == "Mod" and is_attr(strip(x.a[1].a[2]), "num_uploaders") for x in idx)
        R.ob("chunks-before-end", "queue number is taken modulo the number of uploaders", ok or None, show(e.recv, 5), e.where)


def uploader(P, R):
    f = P.func(DP + "_upload_fn")
    R.unit(f.qual)
    seq, _ = evaluate(P, f, opaque={"_get_fs_provider", "remove_uuid_from_filename"})

    def transfer(ev):
        return ev.kind == "call" and (ev.name == "upload_file" or ev.callee in ("shutil.copy", "shutil.copyfile", "shutil.move", "shutil.copy2", "os.rename", "os.replace"))

    bad, ended = [], []

    def step(st, ev):
        if ev.kind == "iter" or is_get(ev):
            if st == "got":
                bad.append(ev)
            return ["got"] if is_get(ev) else [st]
        if transfer(ev):
            return ["done"]
        if ev.kind == "call" and ev.name == "put" and mentions_param(ev.recv, "remove_queue") and st != "done":
            bad.append(ev)
        return [st]

    def is_get(ev):
        return ev.kind == "call" and ev.name == "get" and ev.recv is not None and mentions_param(ev.recv, "upload_queue")

    def assume(st, cond):
        return "idle" if any(is_received_none(l) or (l.k == "is" and NONE in l.a and mentions_call(l, "get")) for l in tm.literals(cond)) else st

    out = flow.Typestate(step, assume).run(seq, ["idle"])
    left = [s for s, _ in out["ret"] | out["norm"] if s == "got"]
    R.ob("upload-target", "every file taken from the queue is transferred before the next, the end or its removal", not bad and not left,
         (f"reached {bad[0]!r} without transfer" if bad else "the uploader ends without transferring a file") if bad or left else "", bad[0].where if bad else f.where)


def done(P, R):
    f = P.func(DP + "DataChunkRecipe._done")
    R.unit(f.qual)
    seq, _ = evaluate(P, f, opaque={"_merge_no_wait", "_upload_index", "_get_num_nodes", "_get_node_rank", "_get_cache_dir", "load_index_file", "tree_unflatten"})
    seen, bad = before(seq, is_call("_merge_no_wait"), is_call("_upload_index"))
    R.ob("index-after-merge", "_done", bool(seen) and not bad, "" if seen and not bad else "the index is uploaded before it is merged" if seen else "never uploaded", f.where)
    f = P.func(DP + "DataChunkRecipe._upload_index")
    R.unit(f.qual)
    seq, _ = evaluate(P, f, opaque={"_get_fs_provider", "_wait_for_file_to_exist", "_merge_no_wait", "_upload_index"})
    seen, bad = before(seq, is_call("_merge_no_wait"), is_call("_upload_index"))
    R.ob("index-after-merge", "final index of several nodes", bool(seen) and not bad, "", f.where)


def merged(P, R):
    f = P.func("processing.functions.merge_datasets")
    R.unit(f.qual)
    seq, _ = evaluate(P, f, opaque={"_resolve_dir", "read_index_file_content", "_apply_copy", "_save_index"})

    def finished(ev):
        if ev.kind != "loopend" or ev.base is None:
            return False
        for e, c in flow.walk(ev.base.body):
            if e.kind == "call" and e.name == "result" and not c.guards and not c.trys and e.recv.k == "elem":
                return mentions(e.recv, lambda x: x.k == "fn" and x.a[0].endswith("_apply_copy")) and not any(x.k == "slice" for x in subterms(ev.term))
            if e.kind == "call" and (e.callee or "").endswith("_apply_copy") and not c.trys:
                return True
        return False

    def listed(ev):
        return ev.kind == "call" and ev.callee in ("list", "tuple") and mentions(ev.term, lambda x: x.k == "call" and x.a[0].k == "meth" and x.a[0].a[1] == "map" and
                                                                                mentions(x, lambda y: y.k == "fn" and y.a[0].endswith("_apply_copy")))

    seen, bad = before(seq, lambda e: finished(e) or listed(e), is_call("_save_index"))
    R.ob("copies-done", "merge_datasets", bool(seen) and not bad, "the index is saved although a copy may be unfinished or have failed" if bad else "", f.where)


def publishers(P, R):
    """uploads/copies/writes whose target name is the index file, in the processing package"""
    allowed = {"DataChunkRecipe._upload_index", "_save_index"}
    n = 0
    for f in list(P.funcs.values()):
        if ".processing." not in "." + f.qual and not f.qual.startswith("processing."):
            continue
        try:
            seq, _ = evaluate(P, f, policy=lambda *a: False)
        except AnalysisBroken:
            continue
        for e, c in flow.walk(seq):
            if e.kind != "call":
                continue
            tgt = None
            if e.name in ("upload_file", "copy") and len(e.args) >= 2 or e.callee in ("shutil.copy", "shutil.copyfile", "shutil.move", "os.replace", "os.rename"):
                tgt = e.args[1] if len(e.args) > 1 else None
            elif e.callee == "open" and len(e.args) > 1 and is_str_with(e.args[1], "w"):
                tgt = e.args[0]
            if tgt is None:
                continue
            idx = mentions(tgt, lambda x: x is const("index.json") or x.k == "const" and x.a[0] == "str" and x.a[1].endswith("index.json"))
            if idx:
                n += 1
                short = f.qual.split("processing.")[-1].split(".", 1)[-1]
                R.ob("index-last", f"publisher {short}", any(f.qual.endswith(a) for a in allowed) or fetches(tgt) or only_from(P, f, allowed), repr(e)[:300], e.where)
    R.ob("index-last", "publishers found", n >= 2 or None, f"{n} publication sites", "")


def fetches(tgt):
    return mentions_param(tgt, "cache_dir") and not mentions_attr(tgt, "path", "url")


def only_from(P, f, allowed):
    """a helper called only by an allowed publisher"""
    callers = [g.qual for g, c in P.all_calls() if any(x is f for x in P.callees_by_name(g, c))]
    return bool(callers) and all(any(q.endswith(a) for a in allowed) for q in callers)


def is_str_with(t, ch):
    return t.k == "const" and t.a[0] == "str" and ch in t.a[1]
