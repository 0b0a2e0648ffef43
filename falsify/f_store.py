"""C13-C15, C20: persistence."""
import copy, os, hashlib
from .common import *
from .f_scoring import snapshot

ODD = ["plain", "été", "日本語", "tab\there", "quote\"back\\slash", "nl\nin", "cr\rin", "crlf\r\nin", "ls\u2028ps\u2029nel\x85", "\u0000nul", "😀 emoji", "", " ", "\ufeffbom", "x" * 300,
       "y" * 9000, "vt\x0bff\x0c", "{\"a\": 1}", "\x7f", "ı", "\udbff\udfff".encode("utf-16", "surrogatepass").decode("utf-16")]


def gen_doc(rng, depth=0, flat=False):
    k = rng.randint(0, 5 if depth < 2 and not flat else 2)
    if k <= 1:
        return rng.choice(ODD)
    if k == 2:
        return {rng.choice(["id", "text", "é", "k\n"]): rng.choice(ODD), "n": rng.choice([1, -5, 2.5, None, True, 10 ** 12])}
    if k == 3:
        return {"nested": [gen_doc(rng, 2), {"deep": rng.choice(ODD)}], "": rng.choice(ODD)}
    return [rng.choice(ODD), rng.choice([1, 2.5, None, False]), {"a": rng.choice(ODD)}]


def vocab_docs(rng):
    docs = gen_corpus(rng)
    if rng.random() < 0.5:
        m = {}
        pool = [w for w in ODD if w]
        rng.shuffle(pool)
        for d in docs:
            for t in d:
                if t not in m:
                    m[t] = pool.pop() if pool and rng.random() < 0.6 else t
        docs = [[m[t] for t in d] for d in docs]
    return docs


@check("C13", n=(220, 2500))
class roundtrip:
    def gen(rng, i):
        docs = vocab_docs(rng)
        names = {}
        if rng.random() < 0.5:
            pool = ["a.npy", "b.data.npy", "c.npy", "v.json", "p.json", "nn.npy", "sub.corpus.jsonl", "index.params.json"]
            keys = ["data_name", "indices_name", "indptr_name", "vocab_name", "params_name", "nnoc_name"]
            ext = {"vocab_name": ".json", "params_name": ".json"}
            for j, k in enumerate(rng.sample(keys, rng.randint(1, 6))):
                names[k] = f"n{j}.{rng.choice(['x', 'index', 'y.z'])}" + ext.get(k, ".npy")
        return dict(docs=docs, p=gen_params(rng), names=names, mmap=rng.random() < 0.5, form=rng.choice(["tokens", "tuple"]), extra=rng.choice([0, 2]), empty=rng.random() < 0.8,
                    backend=rng.choice(["numpy", "numpy", "numba"]), corpus=rng.random() < 0.4, twice=rng.random() < 0.2, older=rng.choice(METHODS), strpath=rng.random() < 0.5,
                    qs=[gen_query(rng, docs) for _ in range(3)], again=rng.random() < 0.3)

    def run(c):
        import numpy as np, bm25s
        from pathlib import Path
        n = len(c["docs"])
        corpus = [f"doc {i}" for i in range(n)] if c["corpus"] else None
        r = index_form(bm25(c["p"], backend=c["backend"], corpus=corpus), c["docs"], c["form"], extra=c["extra"], create_empty_token=c["empty"])
        d = os.path.join(scratch(), "deep", "dir")
        dd = d if c["strpath"] else Path(d)
        if c["twice"]:
            o = bm25s.BM25(method=c["older"], corpus=["old"] * 3)
            o.index([["old", "apple"], ["x"], ["old"]], show_progress=False)
            o.save(dd, **c["names"])
        before = snapshot(r)
        r.save(dd, **c["names"])
        if snapshot(r) != before:
            return "saving changed the index"
        l = bm25s.BM25.load(dd, mmap=c["mmap"], load_corpus=c["corpus"], **c["names"])
        if c["again"]:
            d2 = os.path.join(scratch(), "copy")
            l.save(d2)
            l = bm25s.BM25.load(d2, mmap=c["mmap"])
        for a in ("k1", "b", "delta", "method", "idf_method", "dtype", "int_dtype", "backend"):
            if getattr(l, a) != getattr(r, a) or type(getattr(l, a)) is not type(getattr(r, a)):
                return f"parameter {a}: {getattr(l, a)!r} loaded, {getattr(r, a)!r} saved"
        for k in ("data", "indices", "indptr"):
            x, y = np.asarray(l.scores[k]), np.asarray(r.scores[k])
            if x.dtype != y.dtype or not np.array_equal(x, y):
                return f"array {k} differs: {x.tolist()[:20]} {x.dtype} loaded, {y.tolist()[:20]} {y.dtype} saved"
        if l.scores["num_docs"] != r.scores["num_docs"]:
            return f"num_docs {l.scores['num_docs']} loaded, {r.scores['num_docs']} saved"
        if dict(l.vocab_dict) != dict(r.vocab_dict):
            return "the vocabulary differs after loading"
        if l.unique_token_ids_set != r.unique_token_ids_set:
            return "the ids set differs after loading"
        x, y = l.nonoccurrence_array, r.nonoccurrence_array
        if (x is None) != (y is None) or (x is not None and (x.dtype != y.dtype or not np.array_equal(x, y))):
            return "the non-occurrence scores differ after loading"
        for q in c["qs"]:
            if not np.array_equal(l.get_scores(q), r.get_scores(q)):
                return f"query {q} scores differently after loading"
        if r.backend == "numpy":
            for k in (1, n):
                a = l.retrieve(c["qs"], k=k, show_progress=False, corpus=list(range(n)))
                b = r.retrieve(c["qs"], k=k, show_progress=False, corpus=list(range(n)))
                if not (np.array_equal(a.documents, b.documents) and np.array_equal(a.scores, b.scores)):
                    return "retrieval differs after loading"


@check("C13", n=(60, 600))
class missing_nonoccurrence:
    def gen(rng, i):
        return dict(docs=gen_corpus(rng), p=dict(gen_params(rng), method=rng.choice(["bm25l", "bm25+", "lucene", "robertson"])), name=rng.choice(["nonoccurrence_array.index.npy", "nn.npy"]),
                    mmap=rng.random() < 0.5)

    def run(c):
        import bm25s
        r = index_form(bm25(c["p"]), c["docs"], "tokens")
        d = scratch()
        r.save(d, nnoc_name=c["name"])
        p = os.path.join(d, c["name"])
        if os.path.exists(p):
            os.remove(p)
        need = c["p"]["method"] in ("bm25l", "bm25+")
        got = raises(lambda: bm25s.BM25.load(d, nnoc_name=c["name"], mmap=c["mmap"]))
        if need and not got:
            return "an index whose non-occurrence scores are missing loads without an error"
        if got and not need:
            return "an index that needs no non-occurrence scores does not load"


@check("C14", n=(250, 3000))
class corpus_roundtrip:
    def gen(rng, i):
        n = rng.choice([1, 2, 3, rng.randint(1, 12), 40])
        docs = [gen_doc(rng) for _ in range(n)]
        if rng.random() < 0.3:
            docs = [rng.choice(ODD) for _ in range(n)]
        return dict(corpus=docs, tup=rng.random() < 0.3, stored=rng.choice(["none", "same", "other", "only"]), name=rng.choice(["corpus.jsonl", "my.corpus.jsonl", "c.v2.jsonl", "docs.json"]),
                    twice=rng.random() < 0.3, container=rng.choice(["list", "tuple", "list", "gen"]), mm=rng.random() < 0.5, resave=rng.random() < 0.2)

    def run(c):
        import bm25s, numpy as np
        docs = [tuple(x) if isinstance(x, list) and c["tup"] else x for x in c["corpus"]]
        n = len(docs)
        want = [{"id": i, "text": x} if isinstance(x, str) else json.loads(json.dumps(x)) for i, x in enumerate(docs)]
        box = {"list": list, "tuple": tuple, "gen": lambda x: (y for y in x)}[c["container"]]
        arg = box(docs)
        stored = {"none": None, "same": list(docs), "other": ["wrong"] * (n + 1), "only": arg}[c["stored"]]
        r = bm25s.BM25(corpus=stored)
        r.index([["a", "b"]] * n, show_progress=False)
        d = scratch()
        if c["twice"]:
            r.save(d, corpus=["previous é"] * (n + 3) + [{"x": 1}], corpus_name=c["name"])
        if c["stored"] == "only":
            r.save(d, corpus_name=c["name"])
        else:
            r.save(d, corpus=arg, corpus_name=c["name"])
        for mm in (False, True):
            l = bm25s.BM25.load(d, load_corpus=True, mmap=mm, corpus_name=c["name"])
            if l.corpus is None or len(l.corpus) != n:
                return f"mmap={mm}: {None if l.corpus is None else len(l.corpus)} documents loaded, {n} saved"
            for i in range(n):
                g = l.corpus[i]
                if g != want[i] or json.dumps(g) != json.dumps(want[i]):
                    return f"mmap={mm}: document {i} is {g!r}, saved as {want[i]!r}"
            if c["resave"] and mm == c["mm"]:
                d2 = scratch()
                l.save(d2)
                m = bm25s.BM25.load(d2, load_corpus=True, mmap=not mm)
                if len(m.corpus) != n or any(m.corpus[i] != want[i] for i in range(n)):
                    return "saving a loaded index loses documents"
            if all(isinstance(x, (str, dict)) for x in docs):
                res = l.retrieve([["a"]], k=n, show_progress=False)
                p = bm25s.BM25.load(d).retrieve([["a"]], k=n, show_progress=False)
                for g, i in zip(res.documents[0], p.documents[0]):
                    if g != want[int(i)]:
                        return f"retrieval over the loaded corpus gives {g!r} at position {i}"


CHARS = ["a", "é", "日", "😀", "\r", "\x85", "\u2028", "\x0b", "\x0c", "\x1c", "\t", " ", "\"", "\\", "\x00", "\x7f", "ß"]


@check("C15", n=(300, 4000))
class line_positions:
    def gen(rng, i):
        n = rng.randint(1, 8)
        lines = ["".join(rng.choice(CHARS) for _ in range(rng.choice([0, 1, 3, rng.randint(0, 20)]))) for _ in range(n)]
        if rng.random() < 0.1:
            lines.insert(rng.randint(0, n), rng.choice(["é", "x", "日"]) * rng.choice([4095, 8191, 8192, 8193, 20000]))
        if all(x == "" for x in lines):
            lines[0] = "a"
        return dict(lines=lines, nl=rng.random() < 0.6, name=rng.choice(["f.jsonl", "my.jsonl.bak", "dir.with.dots/f.jsonl", "noext", "jsonl.jsonl", "a.b.jsonl"]), pathlike=rng.random() < 0.3)

    def run(c):
        from bm25s.utils import corpus as C
        from pathlib import Path
        body = "\n".join(c["lines"]) + ("\n" if c["nl"] else "")
        raw = body.encode("utf-8")
        if not raw:
            raise Skip()
        lines = raw.split(b"\n")
        if lines[-1] == b"":
            lines.pop()
        d = scratch()
        p = os.path.join(d, c["name"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(raw)
        if c["pathlike"]:
            p = Path(p)
        offs, o = [], 0
        for l in lines:
            offs.append(o)
            o += len(l) + 1
        got = C.find_newline_positions(p, show_progress=False)
        if list(got) != offs:
            return f"positions {list(got)[:20]}, expected {offs[:20]}"
        C.save_mmindex(got, p)
        back = C.load_mmindex(p)
        if list(back) != offs:
            return f"stored positions {list(back)[:20]}, expected {offs[:20]}"
        with open(p, "rb") as f:
            if f.read() != raw:
                return "the file itself was changed"
        for i in range(len(lines)):
            for ix in (i, i - len(lines)):
                t = C.get_line(p, ix, back)
                if t.encode() not in (lines[i], lines[i] + b"\n"):
                    return f"line {ix} is {t!r}, expected {lines[i]!r}"


@check("C15", n=(250, 3000))
class jsonl_corpus:
    def gen(rng, i):
        n = rng.choice([1, 2, 5, rng.randint(1, 12)])
        docs = [rng.choice([{"id": j, "t": rng.choice(ODD)}, {"k": rng.choice(ODD)}, rng.choice(ODD), rng.randint(0, 9), {"n": [1, {"x": rng.choice(ODD)}]}]) for j in range(n)]
        ops = []
        for _ in range(rng.randint(1, 10)):
            k = rng.choice(["int", "neg", "slice", "list", "tuple", "array", "array2", "reopen", "close2", "len", "iter", "oob", "nested"])
            ops.append([k, rng.randrange(n), rng.choice([None, rng.randint(-n - 2, n + 2)]), rng.choice([None, rng.randint(-n - 2, n + 2)]), rng.choice([None, 1, 2, -1, -2]),
                        [rng.randint(-n, n - 1) for _ in range(rng.choice([1, 2, 4, 6]))]])
        return dict(docs=docs, ops=ops, ascii=rng.random() < 0.3, nl=rng.random() < 0.7, pre=rng.random() < 0.4, save=rng.random() < 0.7, name=rng.choice(["c.jsonl", "my.data.jsonl", "x.jsonl.1"]),
                    spaces=rng.random() < 0.3)

    def run(c):
        import numpy as np
        from bm25s.utils import corpus as C
        p = os.path.join(scratch(), c["name"])
        body = "\n".join((" " if c["spaces"] else "") + json.dumps(x, ensure_ascii=c["ascii"]) for x in c["docs"]) + ("\n" if c["nl"] else "")
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(body)
        kw = dict(show_progress=False, verbosity=0)
        if c["pre"]:
            C.JsonlCorpus(p, **kw).close()
        j = C.JsonlCorpus(p, save_index=c["save"], **kw)
        L = list(c["docs"])
        for k, i, a, b, s, ix in c["ops"]:
            if k == "int":
                g, w = j[i], L[i]
            elif k == "neg":
                g, w = j[i - len(L)], L[i - len(L)]
            elif k == "slice":
                g, w = j[a:b:s], L[a:b:s]
            elif k == "list":
                g, w = j[ix], [L[x] for x in ix]
            elif k == "tuple":
                g, w = list(j[tuple(ix)]), [L[x] for x in ix]
            elif k == "nested":
                g, w = j[[ix, ix[:1]]], [[L[x] for x in ix], [L[ix[0]]]]
            elif k in ("array", "array2"):
                arr = np.array(ix, dtype=["int32", "int64"][i % 2])
                if k == "array2":
                    arr = arr.reshape(1, -1) if i % 2 else arr.reshape(-1, 1)
                    if len(ix) == 6 or len(ix) == 4:     # every memory layout
                        arr = np.array(ix).reshape(2, -1)
                        arr = [arr, np.asfortranarray(arr), arr.T, np.repeat(arr, 2, axis=1)[:, ::2], arr[::-1]][(i + ix[0]) % 5]
                sel = [L[x] for x in arr.flatten().tolist()]
                if len({type(x) for x in sel}) > 1 or any(isinstance(x, str) and x.endswith("\x00") for x in sel):
                    continue
                g = j[arr]
                if not isinstance(g, np.ndarray) or g.shape != arr.shape:
                    return f"array index of shape {arr.shape} gives shape {getattr(g, 'shape', None)}"
                g, w = g.flatten().tolist(), sel
            elif k == "reopen":
                j.close()
                j.load()
                if i % 2:
                    j.load()
                continue
            elif k == "close2":
                j.close()
                j.close()
                j.load()
                continue
            elif k == "len":
                g, w = len(j), len(L)
            elif k == "iter":
                g, w = [x for x in j], L
            else:
                for bad in (len(L), -len(L) - 1, len(L) + 5):
                    if not raises(lambda: j[bad], IndexError):
                        return f"index {bad} of {len(L)} documents does not raise IndexError"
                continue
            if g != w or json.dumps(g) != json.dumps(w):
                return f"{k} {(i, a, b, s, ix)}: {g!r}, expected {w!r}"
        j.close()
        j.close()
        k2 = C.JsonlCorpus(p, **kw)
        if [k2[i] for i in range(len(k2))] != L:
            return "reopening the file gives other documents"
        k2.close()


# ---------------------------------------------------------------- C20
def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = None
        for x in fs:
            p = os.path.join(r, x)
            out[os.path.relpath(p, d)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


class FakeHub:
    def __init__(self, fail=False):
        self.uploads, self.fail, self.snap, self.calls = [], fail, None, []

    def api(self):
        hub = self

        class Url(str):
            repo_id, repo_type = "user/repo", "model"

        class HfApi:
            def __init__(self, token=None, **kw):
                self.token = token

            def create_repo(self, repo_id, **kw):
                u = Url("https://hub/" + repo_id)
                u.repo_id = repo_id
                return u

            def upload_folder(self, *, repo_id, folder_path, **kw):
                hub.uploads.append(dict(repo_id=repo_id, folder=str(folder_path), tree=tree(folder_path), kw=kw))
                if hub.fail:
                    raise RuntimeError("upload failed")

            def upload_file(self, **kw):
                raise AssertionError("unexpected upload_file")

            def repo_info(self, repo_id, **kw):
                return Url(repo_id)

            def snapshot_download(self, repo_id, revision=None, token=None, local_dir=None, **kw):
                hub.calls.append((repo_id, revision, token, local_dir))
                return hub.snap
        return HfApi


class Guard:
    """Deletions outside the case's own directory are recorded and not executed."""
    def __init__(self, root):
        self.root, self.deleted, self.bad = os.path.realpath(root), [], []

    def __enter__(self):
        import shutil, tempfile
        self.saved = (shutil.rmtree, os.remove, os.unlink, os.rmdir, tempfile.tempdir)

        def wrap(f, real):
            def g(path, *a, **k):
                p = os.path.realpath(str(path))
                if k.get("dir_fd") is not None:
                    return real(path, *a, **k)
                self.deleted.append(p)
                if not p.startswith(self.root + os.sep):
                    self.bad.append(p)
                    return None
                return real(path, *a, **k)
            return g
        rm, re_, un, rd, _ = self.saved
        state = {"in": False}

        def rmtree(path, *a, **k):
            p = os.path.realpath(str(path))
            self.deleted.append(p)
            if not p.startswith(self.root + os.sep):
                self.bad.append(p)
                return None
            os.remove, os.unlink, os.rmdir = re_, un, rd
            try:
                return rm(path, *a, **k)
            finally:
                os.remove, os.unlink, os.rmdir = wrap(os.remove, re_), wrap(os.unlink, un), wrap(os.rmdir, rd)
        shutil.rmtree = rmtree
        os.remove, os.unlink, os.rmdir = wrap(os.remove, re_), wrap(os.unlink, un), wrap(os.rmdir, rd)
        tmp = os.path.join(self.root, "tmp")
        os.makedirs(tmp, exist_ok=True)
        tempfile.tempdir = tmp
        return self

    def __exit__(self, *a):
        import shutil, tempfile
        shutil.rmtree, os.remove, os.unlink, os.rmdir, tempfile.tempdir = self.saved


@check("C20", n=(220, 1500))
class hub_save:
    def gen(rng, i):
        return dict(what=["index", "vocab", "stopwords"][i % 3], dir=rng.choice(["none", "absent", "nested", "empty", "full", "full", "hidden", "subdir", "symlink"]), over=rng.random() < 0.4,
                    fail=rng.random() < 0.15, corpus=rng.random() < 0.5, readme=rng.random() < 0.7, slash=rng.random() < 0.2, n=rng.randint(1, 4), m=rng.choice(METHODS), twice=rng.random() < 0.15)

    def run(c):
        import bm25s
        import bm25s.hf as hf
        root = scratch()
        hub = FakeHub(c["fail"])
        saved_api = hf.HfApi
        hf.HfApi = hub.api()
        try:
            with Guard(root) as g:
                outside = os.path.join(root, "precious")
                os.makedirs(outside)
                open(os.path.join(outside, "keep"), "w").write("keep")
                d = os.path.join(root, "local")
                if c["dir"] == "nested":
                    d = os.path.join(root, "local", "a", "b")
                if c["dir"] in ("empty", "full", "hidden", "subdir"):
                    os.makedirs(d)
                if c["dir"] == "full":
                    open(os.path.join(d, "user.txt"), "w").write("user data")
                    open(os.path.join(d, "params.index.json"), "w").write("precious")
                if c["dir"] == "hidden":
                    open(os.path.join(d, ".hidden"), "w").write("user data")
                if c["dir"] == "subdir":
                    os.makedirs(os.path.join(d, "sub"))
                if c["dir"] == "symlink":
                    os.symlink(outside, d)
                arg = None if c["dir"] == "none" else d + ("/" if c["slash"] else "")
                nonempty = c["dir"] in ("full", "hidden", "subdir", "symlink")
                allowed = c["dir"] != "none" and (not nonempty or c["over"])
                if c["what"] == "index":
                    o = hf.BM25HF(method=c["m"])
                    o.index([["a", "b"], ["b"], ["c"]][:c["n"]] or [["a"]], show_progress=False)
                    cor = [f"t{i}" for i in range(min(c["n"], 3))] if c["corpus"] else None
                    fn = lambda: o.save_to_hub("user/repo", token="t", local_dir=arg, corpus=cor, overwrite_local=c["over"], include_readme=c["readme"], commit_message="msg")
                    ref = os.path.join(root, "ref")
                    o.save(ref, corpus=cor)
                else:
                    o = hf.TokenizerHF(stopwords=["the", "of"])
                    o.tokenize(["the cat sat", "dogs of war"][:c["n"]], show_progress=False)
                    f = o.save_vocab_to_hub if c["what"] == "vocab" else o.save_stopwords_to_hub
                    fn = lambda: f("user/repo", token="t", local_dir=arg, overwrite_local=c["over"], commit_message="msg")
                    ref = os.path.join(root, "ref")
                    (o.save_vocab if c["what"] == "vocab" else o.save_stopwords)(ref)
                reft = tree(ref)
                before_all = {k: v for k, v in tree(root).items()}
                before_dirs = set(before_all)
                g.deleted.clear()
                err = None
                try:
                    fn()
                except RuntimeError as e:
                    err = e
                if g.bad:
                    return f"tried to delete {g.bad}"
                if c["fail"] != (err is not None):
                    return f"upload failure was {'swallowed' if c['fail'] else repr(err)}"
                if len(hub.uploads) != 1:
                    return f"{len(hub.uploads)} uploads"
                up = hub.uploads[0]
                after = tree(root)
                if up["repo_id"] != "user/repo" or up["kw"].get("commit_message") != "msg":
                    return f"uploaded as {up['repo_id']}, {up['kw']}"
                real_up = os.path.realpath(up["folder"])
                miss = {k for k in reft if up["tree"].get(k) != reft[k]}
                if miss:
                    return f"the uploaded directory lacks what was to be saved: {sorted(miss)}"
                lost = {k for k in before_all if k not in after}
                if lost:
                    return f"deleted {sorted(lost)}"
                changed = {k for k in before_all if after[k] != before_all[k]}
                rel = os.path.relpath(os.path.realpath(d), os.path.realpath(root))
                if allowed:
                    if real_up != os.path.realpath(d):
                        return f"uploaded {up['folder']}, not the allowed local directory"
                    if g.deleted:
                        return f"deleted {g.deleted} although the local directory was used"
                    stray = {k for k in changed | (set(after) - before_dirs) if not (k.rstrip("/") == rel or k.startswith(rel + "/") or rel.startswith(k))}
                    if stray:
                        return f"wrote outside the local directory: {sorted(stray)}"
                    if not os.path.isdir(d) or any(tree(d).get(k) != reft[k] for k in reft):
                        return "the local directory does not hold what was saved"
                else:
                    if changed:
                        return f"changed existing files {sorted(changed)}"
                    new = {k for k in set(after) - before_dirs}
                    if c["dir"] != "none" and any(k.startswith("local") or k.startswith("precious") for k in new):
                        return f"wrote into the non-empty local directory: {sorted(new)}"
                    if c["dir"] != "none" and real_up == os.path.realpath(d):
                        return "uploaded the non-empty local directory"
                    if os.path.relpath(real_up, os.path.realpath(root)) + "/" in before_dirs:
                        return "the temporary directory is not new"
                    other = [x for x in g.deleted if x != real_up and not x.startswith(real_up + os.sep)]
                    if other:
                        return f"deleted {other}, not only the temporary directory {real_up}"
        finally:
            hf.HfApi = saved_api


@check("C20", n=(60, 400))
class hub_load:
    def gen(rng, i):
        return dict(docs=gen_corpus(rng), m=rng.choice(METHODS), mmap=rng.random() < 0.5, corpus=rng.random() < 0.5, rev=rng.choice([None, "v2"]), local=rng.choice([None, "x"]))

    def run(c):
        import bm25s, bm25s.hf as hf, numpy as np
        hub = FakeHub()
        saved = hf.HfApi
        hf.HfApi = hub.api()
        try:
            root = scratch()
            hub.snap = os.path.join(root, "snap")
            n = len(c["docs"])
            r = hf.BM25HF(method=c["m"], k1=1.1)
            r.index(c["docs"], show_progress=False)
            r.save(hub.snap, corpus=[f"d{i}" for i in range(n)])
            t = hf.TokenizerHF(stopwords=["the"])
            t.tokenize(["the quick fox", "lazy dogs"], show_progress=False)
            t.save_vocab(hub.snap)
            t.save_stopwords(hub.snap)
            a = hf.BM25HF.load_from_hub("user/repo", revision=c["rev"], token="tok", local_dir=c["local"], load_corpus=c["corpus"], mmap=c["mmap"])
            if hub.calls != [("user/repo", c["rev"], "tok", c["local"])]:
                return f"downloaded {hub.calls}"
            b = hf.BM25HF.load(hub.snap, load_corpus=c["corpus"], mmap=c["mmap"])
            if type(a) is not type(b) or snapshot(a) != snapshot(b) or (a.k1, a.method, a.idf_method) != (b.k1, b.method, b.idf_method):
                return "the index loaded from the hub differs from loading its snapshot"
            if isinstance(a.scores["data"], np.memmap) != isinstance(b.scores["data"], np.memmap):
                return "memory mapping differs"
            ca, cb = (None if x.corpus is None else [x.corpus[i] for i in range(len(x.corpus))] for x in (a, b))
            if ca != cb:
                return f"corpus {ca} from the hub, {cb} from the snapshot"
            t2 = hf.TokenizerHF(stopwords=[])
            t2.load_vocab_from_hub("user/repo", revision=c["rev"], token="tok", local_dir=c["local"])
            t2.load_stopwords_from_hub("user/repo", revision=c["rev"], token="tok", local_dir=c["local"])
            if hub.calls != [("user/repo", c["rev"], "tok", c["local"])] * 3:
                return f"downloaded {hub.calls}"
            if (t2.word_to_id, t2.stem_to_sid, t2.word_to_stem, list(t2.stopwords)) != (t.word_to_id, t.stem_to_sid, t.word_to_stem, list(t.stopwords)):
                return "the tokenizer loaded from the hub differs"
        finally:
            hf.HfApi = saved
