"""C04: merging per-worker, per-node and appended-to indexes keeps every chunk once, in a fixed order."""
from .common import *

W = "streaming.writer.BinaryWriter."
DP = "processing.data_processor."


def check(P, R):
    R.rule("merge-complete", "the merged index lists the chunks of every partial index found, each file once, without a filter on its content")
    R.rule("merge-existing", "the chunks of the dataset appended to are listed once, and only when there is such a dataset")
    R.rule("merge-order", "the partial indexes are taken in sorted order, not in directory order")
    R.rule("merge-config", "two partial indexes with different configurations are never merged: every one is compared with the first")
    R.rule("merge-delete", "a partial index is deleted only after it has been read on that path")
    R.rule("merge-wait", "merging starts only when the number of partial indexes equals ranks times workers")
    R.rule("index-name", "a worker or node index carries its rank in its name and the suffix the merge looks for")
    R.rule("node-merge", "the last node fetches the index of every other node under the name they were published, before the final merge")
    R.rule("append-wired", "the index of the dataset appended to reaches the merge, on exactly one node")
    R.rule("datasets-complete", "merging datasets lists every chunk of every dataset under the name its file was copied to")
    R.rule("datasets-names", "the new chunk names of merged datasets are distinct across datasets")
    R.rule("datasets-config", "datasets with another format, structure, compression, encryption or item loader are refused")
    R.rule("clean-start", "the folders the workers write to and read from are emptied before the workers of a run are made, so that no partial index of an earlier run is merged")
    R.part(P, merge_no_wait, merge, worker_index, node_merge, append_wired, datasets, clean_start)


def index_sink(seq):
    """json.dump events of a dict holding the chunks"""
    out = []
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.callee == "json.dump" and e.args and dict_get(e.args[0], "chunks") is not None:
            out.append((e, c))
    return out


def comp_gens(t):
    return list(t.a[2]) if t.k == "comp" else []


def merge_no_wait(P, R):
    f = P.func(W + "_merge_no_wait")
    R.unit(f.qual)
    seq, _ = evaluate(P, f)
    sinks = index_sink(seq)
    writes = lambda e: e.kind == "call" and (e.name or "") in ("dump", "dumps", "write", "write_text")
    if not sinks and not any(writes(e) for e, c in flow.walk(seq)):
        R.ob("merge-complete", "final index", False, "no merged index is written", f.where)
    need(sinks, "merged index written by _merge_no_wait")
    nr = mk("param", "node_rank")
    if not any(writes(e) and not any(e is x for x, _ in sinks) for e, c in flow.walk(seq)):
        for what, val in (("final index", True), ("node index", False)):
            hits = [e for e, c in sinks if not any(truth3(g, lambda t: val if is_none_lit(t, nr, True) else (not val) if is_none_lit(t, nr, False) else None) is False for g in c.guards)]
            R.ob("merge-complete", what + ": written", bool(hits), "no merged index is written for this case", f.where)
    ex = mk("param", "existing_index")
    for e, c in sinks:
        cond = "node index" if any(is_none_lit(g, mk("param", "node_rank"), False) for g in c.guards) else "final index"
        ps = pieces(dict_get(e.args[0], "chunks"))
        exist = [(g, k, t) for g, k, t in ps if mentions_param(t, "existing_index")]
        files = [(g, k, t) for g, k, t in ps if t.k == "comp" and mentions_ext(t, "os.listdir")]
        rest = [p for p in ps if p not in exist and p not in files]
        if rest:
            R.ob("merge-complete", cond, None, "unrecognised part " + show(rest[0][2], 6), e.where)
        ok = len(exist) == 1 and exist[0][1] == "all" and is_key(exist[0][2], "chunks", lambda b: b is ex) and \
            all(is_none_lit(x, ex, False) for x in exist[0][0])
        R.ob("merge-existing", cond, ok if not rest else (ok or None), "; ".join(f"{show(t, 5)} when {[show(x, 4) for x in g]}" for g, k, t in exist) or "not included", e.where)
        ok = len(files) == 1
        det = "; ".join(show(t, 7) for _, _, t in files) or "no part comes from the partial index files"
        if ok:
            g, k, t = files[0]
            # guards on the whole part: only those about existing_index
            ok = all(mentions_param(x, "existing_index") for x in g)
            # element: X["chunks"] of the loaded file, whole
            el = t.a[1]
            if t.a[0] == "flat":
                ok = ok and is_key(el, "chunks") and mentions_ext(el, "json.load")
            else:
                # nested comprehension over X["chunks"]
                last = comp_gens(t)[-1][0]
                ok = ok and el.k == "elem" and strip(el.a[0]) is strip(last) and is_key(strip(last), "chunks")
            # filters: only the index suffix
            for it, cnd in comp_gens(t):
                for lit in tm.literals(cnd):
                    if not suffix_filter(lit):
                        ok = False
                for b in subterms(it):
                    if b.k == "comp":
                        for _, c2 in comp_gens(b):
                            if any(not suffix_filter(l) for l in tm.literals(c2)):
                                ok = False
                    if b.k == "slice":
                        ok = False
        R.ob("merge-complete", cond, (ok or None) if rest else ok, det[:600], e.where)
        for g, k, t in files:
            it = comp_gens(t)[0][0]
            R.ob("merge-order", cond, (mentions_ext(it, "sorted") or mentions_call(it, "sort")) and full_order(it), "iterates " + show(it, 5), e.where)
    # config comparison
    raised = [(e, c) for e, c in flow.walk(seq) if e.kind == "raise" and c.loops]
    ok = False
    for e, c in raised:
        lits = [l for g in c.guards for l in tm.literals(g)]
        ne = [l for l in lits if l.k == "not" and l.a[0].k == "eq" and mentions_key(l.a[0], "config")]
        rest = [l for l in lits if l not in ne and not (l.k == "not" and (l.a[0].k == "is" or tm.is_(l.a[0], NONE)) and mentions(l, lambda x: x is NONE))]
        if ne and not rest:
            ok = True
    R.ob("merge-config", "inconsistent configurations", ok, "the loop raises when config != data['config']" if ok else
         "no raise under 'config differs' inside the loop over the partial indexes", f.where)
    # delete after read
    removes = [e for e, c in flow.walk(seq) if e.kind == "call" and e.callee in ("os.remove", "os.unlink")]
    for e in removes:
        path = strip(e.args[0])

        def step(st, ev, path=path, tgt=e):
            if ev.kind == "call" and ev.callee == "json.load" and contains(strip(ev.args[0]), path):
                return [True]
            if ev is tgt and not st:
                bad.append(ev)
            return [st]

        bad = []
        flow.Typestate(step).run(seq, [False])
        R.ob("merge-delete", "partial index", not bad, show(path, 6), e.where)


def suffix_filter(lit):
    lit = strip(lit)
    return (lit.k == "call" and lit.a[0].k == "meth" and lit.a[0].a[1] == "endswith" and mentions(lit, is_index_name)) or lit is TRUE


def is_index_name(x):
    return x.k == "const" and x.a[0] == "str" and x.a[1] in ("index.json", ".index.json", "-index.json") or (x.k == "glob" and x.a[0].endswith("_INDEX_FILENAME"))


def merge(P, R):
    f = P.func(W + "merge")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"rank", "_merge_no_wait"})
    calls = need([(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "_merge_no_wait"], "call of _merge_no_wait in merge")
    for e, c in calls:
        conds = [g for g in c.guards]
        vals = []
        for g in conds:
            for p in [x for x in subterms(g) if x.k == "phi"]:
                vals += phi_values(ev, p)
        vals += conds
        # the value that ends the wait: equality with world_size * num_workers
        eqs = [x for v in vals for x in subterms(v) if x.k in ("eq", "not", "lt", "le", "cmp") and count_cmp(x)]
        if not eqs:
            others = [v for v in vals if mentions_attr(v, "world_size")]
            R.ob("merge-wait", "merge", False if not others else None, "no comparison of the number of index files with ranks times workers guards the merge", e.where)
        else:
            good = any(full_count(x) for x in eqs)
            R.ob("merge-wait", "merge", good, "; ".join(show(x, 7) for x in eqs)[:400], e.where)


def phi_values(ev, p):
    ph = ev.phis.get(p)
    if ph is None:
        return []
    out = []
    for v in (ph if isinstance(ph, (list, tuple)) else [ph]):
        if isinstance(v, tm.T):
            out += alts(v)
    return out


def count_cmp(x):
    return mentions(x, lambda y: y.k == "call" and fname(y) == "len" and mentions_ext(y, "os.listdir")) and mentions_attr(x, "world_size")


def full_count(x):
    """len(files) == world_size * num_workers, as an equality or >="""
    if x.k == "not":
        return False
    d = tm.sub(x.a[0], x.a[1]) if x.k == "eq" and len(x.a) == 2 else None
    if d is None:
        return None
    p = tm.poly_items(strip(d))
    ln = [m for m in p if len(m) == 1 and fname(m[0]) == "len"]
    prod = [m for m in p if len(m) == 2 and any(is_attr(y, "world_size") for y in m) and any(mentions_param(y, "num_workers") for y in m)]
    return len(p) == 2 and len(ln) == 1 and len(prod) == 1 and p[ln[0]] == -p[prod[0]]


def worker_index(P, R):
    f = P.func(W + "write_chunks_index")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"rank"})
    opens = need([e for e, c in flow.walk(seq) if e.kind == "call" and e.callee == "open"], "open in write_chunks_index")
    for e in opens:
        nm = strip(e.args[0])
        R.ob("index-name", "worker index", mentions_attr(nm, "rank", "_rank") and ends_with_index(nm), show(nm, 6), e.where)
    f = P.func(W + "_merge_no_wait")
    seq, ev = evaluate(P, f)
    for e, c in index_sink(seq):
        ph = strip(e.args[1])
        if any(is_none_lit(g, mk("param", "node_rank"), False) for g in c.guards):
            R.ob("index-name", "node index", mentions_param(ph, "node_rank") and any(ends_with_index(x) for x in subterms(ph)), show(ph, 6), e.where)
        elif any(is_none_lit(g, mk("param", "node_rank")) for g in c.guards):
            R.ob("index-name", "final index", mentions(ph, lambda x: x is const("index.json")), show(ph, 6), e.where)
        else:
            R.ob("index-name", "merged index", None, guards_str(c), e.where)


def ends_with_index(t):
    if t.k == "pjoin" or t.k == "join":
        return ends_with_index(t.a[0][-1])
    if t.k == "cat":
        return ends_with_index(t.a[0][-1])
    if t.k == "call" and t.a[1]:
        return ends_with_index(t.a[1][-1])
    return t.k == "const" and t.a[0] == "str" and t.a[1].endswith("index.json")


def node_merge(P, R):
    f = P.func(DP + "DataChunkRecipe._upload_index")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"_get_fs_provider", "_wait_for_file_to_exist", "_merge_no_wait", "_upload_index"})
    merges = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "_merge_no_wait"]
    R.must("node-merge", "final merge", merges, "the per-node indexes are never merged", f.where)
    num, rank = mk("param", "num_nodes"), mk("param", "node_rank")
    for e, c in merges:
        ok = not e.args and not e.kw or all(v is NONE for v in list(e.args) + list(e.kw.values()))
        R.ob("node-merge", "final merge writes the final index", ok, repr(e), e.where)
        eqs = [g for g in c.guards if g.k == "eq" and mentions_param(g, "num_nodes") and mentions_param(g, "node_rank")]
        ok = any(tm.sub(g.a[0], g.a[1]) in (tm.sub(num, tm.add(rank, ONE)), tm.sub(tm.add(rank, ONE), num)) for g in eqs)
        R.ob("node-merge", "by the last node", ok, guards_str(c), e.where)
    fetch = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and (e.name == "download_file" or e.callee in ("shutil.copyfile", "shutil.copy"))
             and c.loops]
    R.must("node-merge", "fetch of the other nodes' indexes", fetch, "no index of another node is fetched", f.where)
    for e, c in fetch:
        src, dst = strip(e.args[0]), strip(e.args[1])
        lp = c.loops[-1]
        it = lp.iter
        idxs = [x for x in subterms(src) if x.k == "idx" or (x.k == "elem")]
        ok = bool(idxs) and ends_with_index(src)
        R.ob("node-merge", f"{e.name or e.callee} source", ok, show(src, 6), e.where)
        # covers every node but the last, which is this one
        rng = fname(strip(it)) == "range" if it is not None else False
        if rng:
            a = it.a[1]
            lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
            okr = lo is ZERO and (hi is tm.sub(num, ONE) or hi is rank) or (lo is ZERO and hi is num)
            R.ob("node-merge", f"{e.name or e.callee} range of nodes", okr, show(it, 5), e.where)
        else:
            R.ob("node-merge", f"{e.name or e.callee} range of nodes", None, show(it, 5) if it is not None else "?", e.where)
        okd = mentions_param(dst, "cache_dir") and (contains(dst, mk("call", mk("ext", "os.path.basename"), (src,), (), 0)) or mentions_call(dst, "basename") or ends_with_index(dst))
        R.ob("node-merge", f"{e.name or e.callee} target", okd, show(dst, 6), e.where)
    # order: the final merge comes after the fetching loop on every path
    first = fetch[0][0].node.lineno if fetch else 0

    def step(st, e2):
        if any(e2 is x for x, _ in fetch):
            bad.extend([e2] if st else [])
            return [st]
        if any(e2 is x for x, _ in merges):
            return [True]
        return [st]

    bad = []
    flow.Typestate(step).run(seq, [False])
    R.ob("node-merge", "fetched before merged", not bad, "an index is fetched after the merge" if bad else "", f.where)
    # after the merge the final index is published
    pub = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "_upload_index"]
    for e, c in pub:
        ok = len(e.args) >= 3 and e.args[2] is ONE
        R.ob("node-merge", "publishes the final index", ok, repr(e), e.where)
    R.must("node-merge", "publication of the merged index", pub, "the merged index is not published", f.where)
    # names agree: what a node publishes is what the last node asks for
    names = set()
    for e, c in flow.walk(seq):
        if e.kind == "call" and (e.name == "upload_file" or e.callee in ("shutil.copyfile", "shutil.copy")) and not c.loops:
            for a in alts(strip(e.args[0])):
                if mentions_param(a, "node_rank"):
                    names.add(shape(a, rank))
    want = set()
    for e, c in fetch:
        for a in alts(strip(e.args[0])):
            ids = [x for x in subterms(a) if x.k in ("idx", "elem") and mentions_ext(x, "range")]
            if ids:
                want.add(shape(a, ids[0]))
    ok = bool(names) and bool(want) and want <= names
    R.ob("node-merge", "published and fetched names agree", ok if (names and want) else None, f"published {sorted(map(str, names))}, fetched {sorted(map(str, want))}", f.where)
    # node 0..n: what _done passes
    g = P.func(DP + "DataChunkRecipe._done")
    R.unit(g.qual)
    seq, ev = evaluate(P, g, opaque={"_merge_no_wait", "_upload_index", "_get_num_nodes", "_get_node_rank", "_get_cache_dir", "load_index_file", "tree_unflatten"})
    ms = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "_merge_no_wait"]
    us = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "_upload_index"]
    R.must("node-merge", "_done merges", ms, "", g.where)
    R.must("node-merge", "_done uploads the index", us, "", g.where)
    for e, c in ms:
        nr = e.arg(0, "node_rank")
        ok = None
        if nr is not None and nr.k == "ite":
            for cond, v in galts(nr):
                if v is NONE:
                    continue
                ok = mentions_call(strip(v), "_get_node_rank")
        elif nr is None or nr is NONE:
            ok = False
        R.ob("node-merge", "_done gives a node its own index", ok, repr(e)[:300], e.where)


def shape(t, rank):
    """last path component with the rank replaced by a hole"""
    last = t
    while last.k in ("pjoin", "join") or (last.k == "call" and last.a[0].k == "ext" and last.a[0].a[0] == "os.path.join"):
        last = last.a[0][-1] if last.k != "call" else last.a[1][-1]
    return show(tm.subst(last, {rank: mk("param", "<rank>")}), 6)


def append_wired(P, R):
    g = P.func(DP + "DataChunkRecipe._done")
    seq, ev = evaluate(P, g, opaque={"_merge_no_wait", "_upload_index", "_get_num_nodes", "_get_node_rank", "_get_cache_dir", "load_index_file", "tree_unflatten"})
    for e, c in flow.walk(seq):
        if e.kind == "call" and e.name == "_merge_no_wait":
            v = e.arg(1, "existing_index")
            R.ob("append-wired", "_done passes the existing index", v is not None and mentions(v, lambda x: is_attr(x, "existing_index") or x is const("existing_index")),
                 show(v, 6) if v is not None else "not passed", e.where)
            if v is not None:
                one_node = any(x is not NONE and is_one_node(cond) for cond, x in galts(strip(v))) or is_one_node(tm.and_(*c.guards))
                R.ob("append-wired", "on exactly one node", one_node, show(v, 6), e.where)
    f = P.func("processing.functions.optimize")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"read_index_file_content", "_resolve_dir", "_get_input_dir", "run", "_assert_dir_has_index_file"}, policy=lambda *a: False)
    rec = [e for e, c in flow.walk(seq) if e.kind == "call" and (e.callee or "").endswith("LambdaDataChunkRecipe")]
    if not rec:
        rec = [x for x, c in flow.walk(seq) if x.kind == "call" and "existing_index" in x.kw]
    for e in R.must("append-wired", "optimize hands the existing index to the recipe", rec, "no recipe is created with the existing index", f.where):
        v = e.kw.get("existing_index")
        ok = v is not None and mentions_call(v, "read_index_file_content")
        R.ob("append-wired", "optimize -> recipe", ok, show(v, 6) if v is not None else "existing_index is not passed", e.where)
        if ok:
            conds = [cond for cond, x in galts(strip(v)) if x is not NONE]
            okm = all(any(is_mode(l, "append") for l in tm.literals(cd)) for cd in conds)
            R.ob("append-wired", "only in append mode", okm, show(v, 6), e.where)
    c = P.func("processing.functions.LambdaDataChunkRecipe.__init__")
    seq, ev = evaluate(P, c)
    st = [e for e, _ in flow.walk(seq) if e.kind == "store" and e.attr == "existing_index"]
    R.ob("append-wired", "recipe keeps the existing index", any(e.value is mk("param", "existing_index") for e in st), "; ".join(map(repr, st)) or "never stored", c.where)
    c = P.func("streaming.cache.Cache._merge_no_wait")
    seq, ev = evaluate(P, c, policy=lambda *a: False)
    for e, _ in flow.walk(seq):
        if e.kind == "call" and e.name == "_merge_no_wait":
            R.ob("append-wired", "Cache forwards both arguments", e.arg(0, "node_rank") is mk("param", "node_rank") and e.arg(1, "existing_index") is mk("param", "existing_index"), repr(e), e.where)


def is_mode(l, m):
    return l.k == "eq" and mentions_param(l, "mode") and mentions(l, lambda x: x is const(m))


def is_one_node(c):
    return any(l.k == "eq" and mentions_call(l, "_get_node_rank") for l in tm.literals(strip(c)))


def datasets(P, R):
    f = P.func("processing.functions.merge_datasets")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"_resolve_dir", "read_index_file_content", "_apply_copy", "_save_index"})
    saves = R.must("datasets-complete", "index of the merged dataset", [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and e.name == "_save_index" or (e.kind == "call" and e.callee and e.callee.endswith("._save_index"))], "no index is saved", f.where)
    infos = [(e, c) for e, c in flow.walk(seq) if e.kind == "call" and (e.callee or "").endswith("CopyInfo")]
    need(infos, "CopyInfo in merge_datasets")
    for e, c in saves:
        d = e.args[0]
        ch = dict_get(d, "chunks")
        ps = pieces(ch) if ch is not None else []
        R.ob("datasets-complete", "chunks of the index", full_two_level(ps), show(ch, 6) if ch is not None else "no chunks", e.where)
    for e, c in infos:
        new, old, src = e.kw.get("new_filename") or e.arg(2), e.kw.get("old_filename") or e.arg(1), e.kw.get("input_dir") or e.arg(0)
        # the index entry gets the same name
        st = [x for x, _ in flow.walk(seq) if x.kind == "setitem" and x.idx is const("filename")]
        ok = any(strip(x.value) is strip(new) and contains(strip(old), strip(x.base)) for x in st)
        if not st:
            # chunk rebuilt as a new dict
            chs = [p for ee, _ in saves for p in pieces(dict_get(ee.args[0], "chunks"))]
            ok = any(contains(strip(t), strip(new)) for _, _, t in chs)
        R.ob("datasets-complete", "entry renamed to the copied file", ok, show(new, 5), e.where)
        R.ob("datasets-complete", "copied from the recorded name", is_key(strip(old), "filename"), show(old, 5), e.where)
        # source directory and chunk come from the same dataset
        roots = [x for x in subterms(strip(old)) if x.k == "call" and fname(x).endswith("_resolve_dir")]
        R.ob("datasets-complete", "chunk and directory paired", (strip(src) in roots) if roots else None, show(src, 4), e.where)
        for a in alts(strip(new)):
            ids = [x for x in subterms(a) if x.k == "idx"]
            var = [x for x in subterms(a) if x.k == "phi" or x.k == "call" and fname(x) == "len"]
            outer = len({strip(x) for x in ids}) >= 2 or bool(var)
            flat = any(x.a[0].k == "comp" for x in ids if isinstance(x.a[0], tm.T))
            R.ob("datasets-names", "name of a copied chunk", outer or flat if ids or var else False, show(a, 6), e.where)
    # phi that numbers the chunks must not be reset per dataset: it is carried by the outer loop (see datasets-names)
    sub = [e for e, c in flow.walk(seq) if e.kind == "call" and e.name in ("submit", "map") and mentions(e.term, lambda x: x.k == "fn" and x.a[0].endswith("_apply_copy"))]
    direct = [e for e, c in flow.walk(seq) if e.kind == "call" and (e.callee or "").endswith("_apply_copy")]
    R.must("datasets-complete", "every chunk copied", sub + direct, "no chunk is copied", f.where)
    for e in sub:
        x = [a for a in e.args if mentions(a, lambda y: y.k == "elem")]
        okc = any(a.k == "elem" and full_two_level([((), "comp", strip(a.a[0]))]) for a in x)
        R.ob("datasets-complete", "every chunk submitted for copying", okc or None, show(x[0], 6) if x else repr(e)[:300], e.where)
    # configuration
    keys = {"data_format", "compression", "data_spec", "encryption", "item_loader"}
    got, left_out = {}, False
    for e, c in flow.walk(seq):
        if e.kind != "raise":
            continue
        for g in c.guards:
            for l in [l for l in tm.literals(g)] + ([x for x in g.a[0]] if g.k == "or" else []):
                if l.k == "not" and l.a[0].k == "eq" and mentions_key(l, "config"):
                    short = [cut_short(lp.iter) for lp in c.loops if lp.iter is not None and mentions(lp.iter, lambda x: x.k == "comp" or x.k == "call")]
                    if any(short):
                        left_out = True
                        continue
                    for k in keys:
                        if mentions(l, lambda x, k=k: x is const(k)):
                            got.setdefault(k, []).append(l)
                    if whole_config(l.a[0]):
                        for k in keys:
                            got.setdefault(k, []).append(l)
        # any(a != b ...) forms
        for g in c.guards:
            for l in tm.literals(g):
                if fname(l) == "any":
                    for k in keys:
                        if mentions(l, lambda x, k=k: x is const(k)) and mentions(l, lambda x: x.k == "eq"):
                            got.setdefault(k, []).append(l)
    for k in sorted(keys):
        R.ob("datasets-config", k, k in got, f"refused when {show(got[k][0], 6)}" if k in got else f"datasets with different {k} are merged" + (" (some are never compared)" if left_out else ""), f.where)


def cut_short(it):
    """the loop leaves out more than the dataset the others are compared with"""
    it = strip(it)
    while it.k == "call" and fname(it).split(".")[-1] in ("list", "tuple", "enumerate", "iter", "reversed", "sorted") and it.a[1]:
        it = strip(it.a[1][0])
    if it.k == "call" and fname(it).split(".")[-1] == "islice" and len(it.a[1]) > 1:
        lo = strip(it.a[1][1]) if len(it.a[1]) > 2 else ZERO
        return tm.is_num(lo) and lo.a[1] > 1 or (len(it.a[1]) == 2 or strip(it.a[1][2]) is not NONE)
    if it.k == "sub" and strip(it.a[1]).k == "slice":
        sl = strip(it.a[1])
        lo, hi, step = ([strip(x) for x in sl.a] + [NONE, NONE, NONE])[:3]
        if tm.is_num(lo) and lo.a[1] not in (0, 1):
            return True
        return tm.is_num(hi) or tm.is_num(step) and step.a[1] not in (1, -1)
    return False


def whole_config(eq):
    return all(is_key(strip(x), "config") for x in eq.a)


def full_two_level(ps):
    """one comprehension over datasets and their chunks, no filter, no slice"""
    if len(ps) != 1 or ps[0][1] not in ("comp",):
        return None if ps else False
    g, _, t = ps[0]
    if g:
        return False
    gens = comp_gens(t)
    if any(cn is not TRUE for _, cn in gens):
        return False
    if any(x.k == "slice" for it, _ in gens for x in subterms(it)):
        return False
    return any(is_key(strip(it), "chunks") for it, _ in gens) and len(gens) >= 2 or (t.a[0] == "flat" and is_key(strip(t.a[1]), "chunks"))


def full_order(it):
    """The sort compares the names themselves: a key that many names share leaves them in listing order."""
    for x in subterms(it):
        if x.k == "call" and fname(x) in ("sorted", "sort"):
            key = dict(x.a[2]).get("key") if len(x.a) > 2 else None
            if key is None:
                continue
            if key.k in ("ext", "const", "num") and fname(key) in ("", "len"):
                return False
            return None
    return True


def clean_start(P, R):
    f = P.func("processing.data_processor.DataProcessor.run")
    R.unit(f.qual)
    seq, ev = evaluate(P, f, opaque={"_exit_on_error", "_load_checkpoint_config", "_save_current_config", "_cleanup_checkpoints", "_create_process_workers", "_get_cache_dir", "_get_cache_data_dir", "_signal_handler", "prepare_structure"},
                       policy=lambda a, b, d: d < 3 and b.module is f.module)
    there = lambda t: True if t.k == "call" and fname(t).split(".")[-1] in ("exists", "isdir", "is_dir") else None
    seen = []

    def step(st, e):
        if e.kind == "call" and e.name == "_create_process_workers":
            seen.append((e, st))
        if e.kind == "call" and e.name in ("rmtree", "_remove_tree") and e.args:
            for x in subterms(e.args[0]):
                n = fname(x).split(".")[-1] if x.k == "call" else ""
                if n in ("_get_cache_dir", "_get_cache_data_dir"):
                    st = st | {n}
        return [st]

    flow.Typestate(step, under(there)).run(seq, [frozenset()])
    need(seen, "workers made by a run")
    for n, what in (("_get_cache_dir", "written to"), ("_get_cache_data_dir", "read from")):
        bad = [e for e, st in seen if n not in st]
        R.ob("clean-start", f"folder {what}", not bad, "it isn't emptied before the workers are made", seen[0][0].where)
