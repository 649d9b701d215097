"""C25: prefetching is bounded, exactly accounted for, and a reader never waits for a chunk nobody fetches."""
from .common import *
from .c23 import excluded

S = "streaming."
TH = S + "reader.PrepareChunksThread."
CLOCKS = ("time", "time.time", "monotonic", "time.monotonic", "perf_counter", "time.perf_counter")
QUEUES = {"_to_download_queue": "queue", "_to_delete_queue": "released", "_force_download_queue": "forced"}


def check(P, R):
    R.rule("bounded", "no further chunk is taken from the queue while as many as configured haven't been released")
    R.rule("counted", "a chunk counts once, when it is taken from the queue, and once less when it has been released")
    R.rule("released", "released chunks are taken note of in every round, whatever the size of the cache")
    R.rule("stops", "the thread ends when it is told to or at the end of the queue, and blocks with a time-out only")
    R.rule("ahead", "the next chunk can be fetched before the last one has been released")
    R.rule("forced", "the thread serves a chunk a reader has waited too long for in every round, before any other")
    R.rule("waits", "a reader that waits for a chunk asks for it to be fetched and gives up with an error in the end")
    R.rule("requested", "a reader asks once for every chunk it comes to and releases it once")
    R.rule("handed-on", "the bound given by the user reaches the thread")
    R.part(P, rounds, queue_get, puts, ahead, waits, attached, reader_requests, handed_on)


def queue_of(t):
    t = strip(t)
    if t.k == "attr" and t.a[1] in QUEUES:
        return QUEUES[t.a[1]]
    return None


def got_from(t):
    """the queue a value was taken from"""
    t = strip(t)
    if t.k == "call":
        n = fname(t).split(".")[-1]
        if n == "_get_from_queue" and t.a[1]:
            return queue_of(t.a[1][0])
        if t.a[0].k == "meth" and t.a[0].a[1] in ("get", "get_nowait"):
            return queue_of(t.a[0].a[0])
    return None


def numbers(counter, bound, size):
    """the state of the thread in a scenario"""
    def f(x):
        if x.k == "attr" and x.a[1] == "_pre_download_counter":
            return const(counter)
        if x.k == "attr" and x.a[1] == "_max_pre_download":
            return const(bound)
        if x.k == "attr" and x.a[1] == "_max_cache_size":
            return const(size)
        return None
    return f


def answers(**what):
    """what the queues answer: 'chunk' (any but the first one), 'zero' (the first one), 'none', 'end'; stop: whether the thread is told to"""
    def atom(t):
        t = strip(t)
        q = got_from(t)
        if q is not None:
            a = what.get(q)
            return None if a is None else a not in ("none", "zero")
        if t.k == "call" and t.a[0].k == "meth" and t.a[0].a[1] in ("is_set", "isSet"):
            return what.get("stop")
        if t.k in ("is", "eq") and len(t.a) == 2:
            for x, y in ((strip(t.a[0]), strip(t.a[1])), (strip(t.a[1]), strip(t.a[0]))):
                q = got_from(x)
                if q is None or what.get(q) is None:
                    continue
                if y is NONE:
                    return what[q] == "none"
                if is_const(y) and eval_str(y) == "END" or dotted(y).endswith("_END_TOKEN"):
                    return what[q] == "end"
                if is_const(y) and isinstance(y.a[1], int):
                    return False if what[q] in ("none", "end") else y.a[1] == 0 if what[q] == "zero" else None
        if t.k == "isinst" and got_from(t.a[0]) is not None and what.get(got_from(t.a[0])) is not None:
            ty = show(t.a[1], 3)
            a = what[got_from(t.a[0])]
            return {"int": a in ("chunk", "zero"), "str": a == "end"}.get(ty)
        return None
    return atom


def main_loop(P):
    f = P.func(TH + "run")
    seq, ev = evaluate(P, f, opaque={"download_chunk_from_index", "_pre_load_chunk", "_apply_delete", "_can_delete_chunk", "_get_from_queue"}, policy=lambda a, b, d: b.module is a.module or b.module.name == "litdata.streaming.reader")
    loops = [it for it in seq.items if isinstance(it, flow.Loop)]
    if not loops:
        loops = [l for l in all_loops(seq) if l.kind == "while"]
    need(loops, "main loop of the thread")
    return f, loops[0]


def all_loops(seq):
    out = []
    for it in seq.items if hasattr(seq, "items") else []:
        if isinstance(it, flow.Loop):
            out.append(it)
            out += all_loops(it.body)
        else:
            for a in ("then", "els", "body", "orelse", "final"):
                b = getattr(it, a, None)
                if b is not None and hasattr(b, "items"):
                    out += all_loops(b)
            for h in getattr(it, "handlers", ()) or ():
                out += all_loops(h[2])
    return out


def delta(v):
    v = strip(v)
    xs = {id(x): x for x in subterms(v) if x.k == "attr" and x.a[1] == "_pre_download_counter"}
    for x in xs.values():
        d = strip(tm.sub(v, x))
        if tm.is_num(d):
            return d.a[1]
    if v.k == "poly":
        # counted under a condition before, and again
        k = [co for co, m in v.a[0] if not m]
        rest = strip(tm.sub(v, const(k[0] if k else 0)))
        if rest.k == "ite" and all(x.k != "ite" and delta(x) is not None for _, x in galts(rest)):
            return k[0] if k else 0
    return None


def rounds(P, R):
    f, lp = main_loop(P)
    R.unit(f.qual)
    R.unit(TH + "_maybe_delete_chunks")
    R.unit(TH + "_force_download")
    unclear = []

    def step(st, e):
        st = dict(st)
        if e.kind == "call":
            if e.name in ("_get_from_queue", "get", "get_nowait"):
                q = queue_of(e.args[0]) if e.name == "_get_from_queue" and e.args else queue_of(e.recv) if e.recv is not None else None
                if q:
                    st["asked-" + q] = min(2, st["asked-" + q] + 1)
                    if q == "queue" and not st["asked-forced"]:
                        st["late"] = True
            elif e.name == "is_set":
                st["stop"] = True
            elif e.name == "download_chunk_from_index" and e.args:
                q = {got_from(x) for x in tm.alts(strip(e.args[0]))}
                q = q.pop() if len(q) == 1 else None
                if q in ("queue", "forced"):
                    st["fetched-" + q] = min(2, st["fetched-" + q] + 1)
                else:
                    unclear.append(e)
        elif e.kind == "store" and e.attr == "_pre_download_counter":
            d = delta(e.value)
            if d is None:
                unclear.append(e)
            elif d > 0:
                st["plus"] = min(3, st["plus"] + d)
            else:
                st["minus"] = min(3, st["minus"] - d)
        return [tuple(sorted(st.items()))]

    init = tuple(sorted({"asked-queue": 0, "asked-released": 0, "asked-forced": 0, "fetched-queue": 0, "fetched-forced": 0, "plus": 0, "minus": 0, "late": False, "stop": False}.items()))

    def run(counter, size, **what):
        at = answers(**what)
        num = numbers(counter, 2, size)

        def assume(st, cond):
            return None if truth3(tm.rebuild(cond, num), at) is False else st
        out = flow.Typestate(step, assume).run(lp.body, [init])
        return {k: [dict(s) for s, _ in v] for k, v in out.items() if v}

    def obs(rule, what, out, good, kinds=("norm", "cont", "ret", "brk"), detail=""):
        """good holds at the end of every round"""
        bad = [s for k in kinds for s in out.get(k, ()) if not good(s, k)]
        n = sum(len(v) for v in out.values())
        R.ob(rule, what, (not bad) if n and not unclear else None, detail or (str({k: v for k, v in bad[0].items() if v}) if bad else ""), f.where)

    for size in (0, 10**9):
        lab = "with" if size else "without"
        lab += " a maximum cache size"
        # nothing else to do, a chunk in the queue
        for c in (0, 1):
            out = run(c, size, stop=False, queue="zero", forced="none", released="none")
            obs("counted", f"the first chunk of the data is in the queue, {c} not released, {lab}", out, lambda s, k: k in ("norm", "cont") and s["fetched-queue"] == 1 and s["plus"] == 1 and s["minus"] == 0)
            out = run(c, size, stop=False, queue="chunk", forced="none", released="none")
            obs("counted", f"a chunk is in the queue, {c} not released, {lab}", out, lambda s, k: k in ("norm", "cont") and s["fetched-queue"] == 1 and s["plus"] == 1 and s["minus"] == 0)
            out = run(c, size, stop=False, queue="none", forced="none", released="none")
            obs("counted", f"the queue is empty, {c} not released, {lab}", out, lambda s, k: k in ("norm", "cont") and s["fetched-queue"] == 0 and s["plus"] == 0 and s["minus"] == 0)
        for c in (2, 3):
            out = run(c, size, stop=False, queue="chunk", forced="none", released="none")
            obs("bounded", f"{c} of 2 chunks are not released, {lab}", out, lambda s, k: k in ("norm", "cont") and s["fetched-queue"] == 0 and s["plus"] == 0 and s["asked-queue"] == 0)
        for c in (1, 2):
            out = run(c, size, stop=False, queue="none", forced="none", released="zero")
            obs("released", f"the first chunk of the data has been released, {c} of 2 were not, {lab}", out, lambda s, k: k in ("norm", "cont") and s["minus"] == 1 and s["plus"] == 0)
            out = run(c, size, stop=False, queue="none", forced="none", released="chunk")
            obs("released", f"a chunk has been released, {c} of 2 were not, {lab}", out, lambda s, k: k in ("norm", "cont") and s["minus"] == 1 and s["plus"] == 0)
            out = run(c, size, stop=False, queue="none", forced="none", released="none")
            obs("released", f"rounds ask for released chunks, {c} of 2 were not, {lab}", out, lambda s, k: s["asked-released"] >= 1 and s["minus"] == 0)
        for c in (0, 2):
            out = run(c, size, stop=False, queue="none", forced="zero", released="none")
            obs("forced", f"a reader waits for the first chunk of the data, {c} of 2 not released, {lab}", out, lambda s, k: k in ("norm", "cont") and s["fetched-forced"] == 1)
            out = run(c, size, stop=False, queue="none", forced="chunk", released="none")
            obs("forced", f"a reader waits, {c} of 2 not released, {lab}", out, lambda s, k: k in ("norm", "cont") and s["fetched-forced"] == 1)
            obs("counted", f"fetched for a reader that waits, {c} of 2 not released, {lab}", out, lambda s, k: s["plus"] == 0)
            out = run(c, size, stop=False, queue="none", forced="none", released="none")
            obs("forced", f"nobody waits, {c} of 2 not released, {lab}", out, lambda s, k: s["asked-forced"] >= 1 and not s["late"] and s["fetched-forced"] == 0)
        # ends
        out = run(0, size, stop=True, queue="chunk", forced="none", released="none")
        obs("stops", f"told to stop, {lab}", out, lambda s, k: k in ("ret", "brk") and s["fetched-queue"] == 0)
        out = run(2, size, stop=False, queue="none", forced="none", released="none")
        obs("stops", f"rounds look whether to stop, {lab}", out, lambda s, k: s["stop"])
        for c in (0, 1):
            out = run(c, size, stop=False, queue="end", forced="none", released="none")
            obs("stops", f"end of the queue, {lab}, {c} not released", out, lambda s, k: k in ("ret", "brk") and s["fetched-queue"] == 0 and s["plus"] == 0)
    if lp.cond is not None and strip(lp.cond) is not TRUE:
        R.ob("stops", "rounds go on until the end", None, show(lp.cond, 4), f.where)


def queue_get(P, R):
    f = P.funcs.get("litdata." + S + "reader._get_from_queue")
    n = 0
    for q, g in sorted(P.funcs.items()):
        if g.module.name != "litdata.streaming.reader":
            continue
        for e, c in own_events(P, g):
            if e.kind != "call" or e.name != "get" or c.inside or e.recv is None:
                continue
            r = strip(e.recv)
            if not (r.k == "param" and r.a[0] == "queue" or queue_of(r)):
                continue
            n += 1
            R.unit(g.qual)
            kw = kwnamed(e.kw)
            t = kw.get("timeout") or (e.args[1] if len(e.args) > 1 else None)
            bl = kw.get("block") or (e.args[0] if e.args else None)
            ok = (t is not None and strip(t) is not NONE) or (bl is not None and strip(bl) is FALSE)
            if ok and t is not None and strip(t).k == "param":
                d = [x for x, y in zip(reversed(g.node.args.args), reversed(g.node.args.defaults)) if x.arg == strip(t).a[0] and isinstance(y, ast.Constant) and y.value is None]
                ok = not d
            R.ob("stops", f"{g.name}: waiting on a queue", ok, "it waits without a limit", e.where)
    if f is not None:
        caught = [x for _, h in handlers_in(P, f) for x in handler_names(h)]
        R.ob("stops", "an empty queue is no error", any(x.split(".")[-1] in ("Empty", "Exception") for x in caught), str(caught), f.where)
    need(range(n), "reads of a queue")


def puts(P, R):
    for name, q in (("download", "queue"), ("delete", "released")):
        f = P.func(TH + name)
        R.unit(f.qual)
        seq, ev = evaluate(P, f)
        ps = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name in ("put", "put_nowait") and e.recv is not None and queue_of(e.recv)]
        need(ps, f"puts of {name}")
        par = f.params[1]
        for e, c in ps:
            v = strip(e.args[0])
            it = strip(peel(c.loops[-1].iter)) if c.loops and c.loops[-1].iter is not None else None
            ok = queue_of(e.recv) == q and len(ps) == 1 and it is not None and it.k == "param" and it.a[0] == par and v.k == "elem" and strip(v.a[0]).k == "param" and len(c.loops) == 1 and not c.guards
            if not ok and queue_of(e.recv) == q and it is not None and mentions_param(it, par) and not mentions(it, lambda x: x.k == "slice" or x.k == "call" and fname(x) in ("set", "reversed", "sorted")) and not c.guards and it.k != "param":
                ok = None
            R.ob("requested", f"{name}: every chunk handed over, in order", ok, f"{show(v, 4)} {guards_str(c)[:80]}", e.where)
    f = P.func(TH + "stop")
    seq, ev = evaluate(P, f)
    ps = [e for e, c in flow.walk(seq) if e.kind == "call" and e.name in ("put", "put_nowait") and e.recv is not None]
    ok = bool(ps) and all(queue_of(e.recv) == "queue" and (is_const(strip(e.args[0])) and eval_str(strip(e.args[0])) == "END" or dotted(e.args[0]).endswith("_END_TOKEN")) for e in ps)
    R.ob("stops", "stop: the end follows the chunks in the queue", ok, show(ps[0].args[0], 3) if ps else "", f.where)


def ahead(P, R):
    f = P.func(TH + "__init__")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, policy=lambda *a: False)
    st = [e for e, c in flow.walk(seq) if e.kind == "store" and e.attr == "_max_pre_download" and strip(e.base).k == "self"]
    need(st, "bound of the thread")

    def least(v, depth=0):
        """smallest value it can have, None when unknown"""
        v = strip(v)
        if is_const(v) and isinstance(v.a[1], int):
            return v.a[1]
        if v.k == "call" and fname(v) == "max":
            xs = [least(x, depth) for x in (v.a[1] if len(v.a[1]) > 1 else pieces_terms(v.a[1][0]))]
            xs = [x for x in xs if x is not None]
            return max(xs) if xs else None
        if v.k == "ite":
            out = []
            for g, x in galts(v):
                l = least(x, depth)
                if l is None:
                    l = max([guard_least(y, x) for y in tm.literals(g)] + [-1])
                    l = None if l < 0 else l
                out.append(l)
            return None if None in out else min(out)
        if v.k == "poly":
            # a parameter that is known to be at least something, plus a constant
            k = 0
            for co, m in v.a[0]:
                if not m:
                    k = co
            rest = strip(tm.sub(v, const(k)))
            l = least(rest, depth)
            return None if l is None else l + k
        return None

    for e in st:
        v = strip(e.value)
        l = least(v)
        if v.k == "param":
            # as given: what is it given?
            vals = []
            for q, g in sorted(P.funcs.items()):
                for e2, c in own_events(P, g):
                    if e2.kind == "call" and e2.name == "PrepareChunksThread":
                        a = (passed(e2, f) or {}).get(v.a[0])
                        x = strip(a) if a is not None else None
                        vals.append(x)
            ok = bool(vals) and all(x is not None and isinstance(least(x), int) and least(x) >= 2 for x in vals)
            R.ob("ahead", "number of chunks the thread fetches in advance", ok, "as given by the user: with 1, the chunk that is read next isn't fetched before the last one has been released, which happens after it has been read", e.where)
        else:
            if v.k == "call" and fname(v) == "max" or v.k == "ite" or isinstance(l, int):
                R.ob("ahead", "number of chunks the thread fetches in advance", (l >= 2) if isinstance(l, int) else None, show(v, 4), e.where)
            else:
                R.ob("ahead", "number of chunks the thread fetches in advance", None, show(v, 4), e.where)


def pieces_terms(t):
    t = strip(t)
    return list(t.a[0]) if t.k in ("list", "tuple") else [t]


def guard_least(l, x):
    """lower bound a literal gives for x"""
    for n in (4, 3, 2, 1, 0):
        if implies_ge(l, x, const(n)):
            return n
    return -1


# ------------------------------------------------------------------ waiting readers
def waits(P, R):
    base = P.cls(S + "item_loader.BaseItemLoader")
    seen = set()
    n = 0
    for c in [base] + list(base.all_subclasses()):
        m = c.find("load_item_from_chunk")
        if m is None or m.qual in seen:
            continue
        seen.add(m.qual)
        seq, ev = evaluate(P, m, self_cls=c, opaque={"force_download"}, policy=lambda a, b, d: b.cls is not None and base in b.cls.mro() and d < 4 and not b.name.startswith(("_load_data", "deserialize", "_get_item")))
        for lp in all_loops(seq):
            body = list(flow.walk(lp.body))
            if not any(e.kind == "call" and e.name in ("sleep", "wait") for e, _ in body):
                continue
            n += 1
            R.unit(m.qual)
            now = {e.term for e, _ in body if e.kind == "call" and getattr(e, "term", None) is not None and (e.callee in CLOCKS or e.name in ("time", "monotonic", "perf_counter"))}

            NOW = mk("param", "the time in the loop")

            def late(t):
                """a comparison with the time waited, when that is long"""
                t = strip(t)
                if t.k in ("lt", "le"):
                    for co, mono in (t.a[0].a[0] if t.a[0].k == "poly" else ()):
                        if len(mono) == 1 and mono[0] is NOW:
                            return co < 0
                return None

            def atom(t):
                v = late(t)
                if v is not None:
                    return v
                t = strip(t)
                if t.k == "call" and fname(t).split(".")[-1] in ("exists", "isfile", "is_file"):
                    return False
                if t.k in ("lt", "le") and t.a[0].k == "poly":
                    # its size is compared with that of the chunk
                    for co, mono in t.a[0].a[0]:
                        if len(mono) == 1 and mentions_call(mono[0], "getsize", "stat"):
                            return co > 0
                return None

            def step(st, e):
                if e.kind == "call" and e.name == "force_download":
                    if e.args and strip(e.args[0]).k == "param" and strip(e.args[0]).a[0] == "chunk_index":
                        return ["asked"]
                    return ["asked-other"]
                return [st]

            def assume(flag):
                def go(st, cond):
                    def f(x):
                        if x in now:
                            return NOW
                        # the flag that remembers the request
                        if x.k == "phi" and x.a[0] == lp.lid and x.a[1] in lp.carried and is_const(strip(lp.carried[x.a[1]][0])) and isinstance(strip(lp.carried[x.a[1]][0]).a[1], bool):
                            i = strip(lp.carried[x.a[1]][0])
                            return i if flag else (FALSE if i is TRUE else TRUE)
                        if x.k == "phi" and x.a[0] == lp.lid and x.a[1] in lp.carried and mentions_call(lp.carried[x.a[1]][1], "exists", "isfile", "is_file"):
                            return FALSE
                        return None
                    return None if truth3(tm.rebuild(cond, f), atom) is False else st
                return go

            first = flow.Typestate(step, assume(True)).run(lp.body, ["-"])
            ends = {k: {s for s, _ in v} for k, v in first.items() if v}
            calls = [e for e, _ in body if e.kind == "call" and e.name == "force_download"]
            raises = [e for e, _ in body if e.kind == "raise"]
            known = bool(now) or not (calls and raises)
            asked = set().union(*[v for k, v in ends.items() if k in ("norm", "cont", "raise", "ret")]) if ends else set()
            where = raises[0].where if raises else (calls[0].where if calls else m.where)
            R.ob("waits", f"{c.name}: a chunk that doesn't come is asked for", (asked == {"asked"}) if known else None, "nobody asks the thread to fetch it" if not calls else f"{sorted(asked)}", where)
            second = flow.Typestate(step, assume(False)).run(lp.body, ["-"])
            goes_on = {k for k in ("norm", "cont", "ret", "brk") if first.get(k) or second.get(k)}
            # leaving the loop because the file is there is not excluded by what is known of phi terms at its head
            R.ob("waits", f"{c.name}: gives up in the end", (not goes_on and bool(first.get("raise"))) if known else None, "it can wait for ever", where)
    need(range(n), "loops that wait for a chunk")
    # the request is handed to the thread
    f = base.find("force_download")
    R.unit(f.qual)
    seq, ev = evaluate(P, f)
    ps = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name in ("put", "put_nowait")]
    for e, c in need(ps, "requests of waiting readers"):
        ok = queue_of(e.recv) == "forced" and strip(e.args[0]).k == "param" and strip(e.args[0]).a[0] == f.params[1]
        R.ob("waits", "force_download: the chunk is handed to the thread", ok, show(e.args[0], 3), e.where)
        bad = [g for g in c.guards if truth3(g, lambda t: True if queue_of(t) == "forced" else (False if t.k in ("is", "eq") and NONE in [strip(x) for x in t.a] and any(queue_of(x) == "forced" for x in t.a) else None)) is not True]
        R.ob("waits", "force_download: always when there is a thread", not bad, guards_str(c)[:100], e.where)


def fresh_reader(x):
    return NONE if x.k == "attr" and x.a[1] in ("_prepare_thread", "_last_chunk_index") else FALSE if is_attr(x, "_chunks_queued_for_download") else None


def remote(**more):
    def atom(t):
        t = strip(t)
        if t.k == "attr" and t.a[1] in more:
            return more[t.a[1]]
        if t.k == "attr" and t.a[1] in ("_remote_dir", "_config"):
            return True
        if t.k in ("is", "eq") and len(t.a) == 2 and NONE in [strip(x) for x in t.a]:
            o = [strip(x) for x in t.a if strip(x) is not NONE]
            if o and o[0].k == "attr" and o[0].a[1] in ("_config", "_remote_dir"):
                return False
            if o and o[0].k == "attr" and o[0].a[1] in ("_prepare_thread", "_last_chunk_index") and o[0].a[1] in more:
                return not more[o[0].a[1]]
        if t.k == "eq" and len(t.a) == 2 and any(is_attr(strip(x), "_last_chunk_index") for x in t.a):
            return more.get("same")
        if t.k == "eq" and len(t.a) == 2 and any(strip(x).k == "call" and fname(strip(x)).endswith("getpid") for x in t.a):
            return True
        return None
    return atom


def reader_read(P):
    c = P.cls(S + "reader.BinaryReader")
    m = c.find("read")
    seq, ev = evaluate(P, m, self_cls=c, opaque={"load_item_from_chunk", "download", "delete", "stop", "_decrement_local_lock", "_try_load_config", "close"})
    return c, m, seq


def attached(P, R):
    c, m, seq = reader_read(P)
    R.unit(m.qual)
    made, bad_q, bad_s = [0], [], []

    def step(st, e):
        t, q, s = st
        if e.kind == "call" and e.name == "PrepareChunksThread":
            made[0] += 1
            return [(True, False, False)]
        if e.kind == "store" and e.attr == "_force_download_queue":
            v = strip(e.value)
            return [(t, q or (v.k == "attr" and v.a[1] == "_force_download_queue"), s)]
        if e.kind == "call" and e.name == "start" and e.recv is not None and mentions(e.recv, lambda x: x.k == "new" or x.k == "attr" and x.a[1] == "_prepare_thread"):
            return [(t, q, True)]
        if e.kind == "call" and e.name == "load_item_from_chunk" and t:
            if not q:
                bad_q.append(e)
            if not s:
                bad_s.append(e)
        return [st]

    at = remote(is_last_index=False)
    flow.Typestate(step, lambda st, cond: None if excluded(tm.rebuild(cond, fresh_reader), at) else st).run(seq, [(False, False, False)])
    R.ob("waits", "a new thread serves the requests of the loader", (not bad_q) if made[0] else None, "the loader puts its requests elsewhere", bad_q[0].where if bad_q else m.where)
    R.ob("waits", "a new thread is started", (not bad_s) if made[0] else None, "", bad_s[0].where if bad_s else m.where)


def reader_requests(P, R):
    c, m, seq = reader_read(P)

    def norm_idx(t, what):
        """[chunk] handed over: which chunk"""
        t = strip(t)
        out = set()
        for x in tm.alts(t):
            x = strip(x)
            if x.k in ("list", "tuple") and len(x.a[0]) == 1:
                y = x.a[0][0]
                for z in tm.alts(strip(y)):
                    z = strip(z)
                    out.add("last" if is_attr(z, "_last_chunk_index") else "this" if is_attr(z, "chunk_index") else "?")
            elif is_attr(x, "chunk_indexes"):
                out.add("all")
            else:
                out.add("?")
        return out.pop() if len(out) == 1 else "?"

    def step(st, e):
        st = dict(st)
        if e.kind == "call" and e.recv is not None and e.name in ("download", "delete") and e.args:
            k = e.name + "-" + norm_idx(e.args[0], e.name)
            st[k] = min(2, st.get(k, 0) + 1)
            if e.name == "delete" and not st.get("loaded"):
                st["early"] = 1
        elif e.kind == "call" and e.name == "load_item_from_chunk":
            st["loaded"] = 1
        elif e.kind == "call" and e.name == "stop" and e.recv is not None:
            st["stop"] = min(2, st.get("stop", 0) + 1)
        return [tuple(sorted(st.items()))]

    def run(fresh, more):
        at = remote(**more)
        if fresh:
            # up to where the sample is loaded
            found = []

            def until(st, e):
                if e.kind == "call" and e.name == "load_item_from_chunk":
                    found.append(dict(st))
                    return []
                return step(st, e)
            flow.Typestate(until, lambda st, cond: None if excluded(tm.rebuild(cond, fresh_reader), at) else st).run(seq, [()])
            return found
        out = flow.Typestate(step, lambda st, cond: None if excluded(cond, at) else st).run(seq, [()])
        return [dict(s) for k in ("norm", "ret") for s, _ in out.get(k, ())]

    def get(s, k):
        return s.get(k, 0)

    cases = []
    for listed in (True, False):
        cases.append((f"first chunk, {'all chunks are' if listed else 'nothing is'} announced", True, {"chunk_indexes": listed, "is_last_index": False},
                      lambda s, listed=listed: get(s, "download-all") == int(listed) and get(s, "download-this") == int(not listed)))
    base = {"_prepare_thread": True, "chunk_indexes": False, "_last_chunk_index": True}
    cases.append(("another chunk, nothing was announced", False, dict(base, same=False, is_last_index=False, _chunks_queued_for_download=False), lambda s: get(s, "download-this") == 1 and get(s, "download-all") == 0))
    cases.append(("another chunk, all were announced", False, dict(base, same=False, is_last_index=False, _chunks_queued_for_download=True), lambda s: get(s, "download-this") == 0 and get(s, "download-all") == 0))
    cases.append(("the same chunk", False, dict(base, same=True, is_last_index=False), lambda s: get(s, "download-this") + get(s, "download-all") + get(s, "download-?") == 0))
    for what, fresh, more, good in cases:
        ends = run(fresh, more)
        bad = [s for s in ends if not good(s)]
        R.ob("requested", f"asked for: {what}", (not bad) if ends and not any("download-?" in s for s in ends) else None, str(bad[0]) if bad else "", m.where)
    rel = [("another chunk", dict(base, same=False, is_last_index=False), lambda s: get(s, "delete-last") == 1 and get(s, "delete-this") == 0 and not get(s, "stop")),
           ("the same chunk", dict(base, same=True, is_last_index=False), lambda s: get(s, "delete-last") + get(s, "delete-this") == 0 and not get(s, "stop")),
           ("the last sample", dict(base, same=True, is_last_index=True), lambda s: get(s, "delete-this") == 1 and get(s, "delete-last") == 0 and get(s, "stop") == 1),
           ("the last sample, of another chunk", dict(base, same=False, is_last_index=True), lambda s: get(s, "delete-this") == 1 and get(s, "delete-last") == 1 and get(s, "stop") == 1)]
    for what, more, good in rel:
        ends = run(False, more)
        bad = [s for s in ends if not good(s)]
        R.ob("requested", f"released: {what}", (not bad) if ends and not any("delete-?" in s for s in ends) else None, str(bad[0]) if bad else "", m.where)
        early = [s for s in ends if s.get("early")]
        R.ob("requested", f"released after the sample was loaded: {what}", not early, "", m.where)


def handed_on(P, R):
    n = wired(P, R, "handed-on", "max_pre_download")
    need(range(n), "calls that hand the bound on", 2)
