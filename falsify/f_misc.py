"""C21, C22."""
import os
from .common import *


def gen_qrels(rng, pre=""):
    qs = [f"{pre}q{rng.choice(['', '-', '_x'])}{i}" for i in range(rng.randint(1, 5))]
    rows = []
    for q in qs:
        for d in rng.sample(range(12), rng.randint(1, 6)):
            rows.append([q, f"d{d}", rng.choice([0, 1, 1, 2, 3, -1])])
    rng.shuffle(rows)
    return rows


@check("C21", n=(250, 2500))
class qrels:
    def gen(rng, i):
        return dict(rows=gen_qrels(rng), split=rng.choice(["train", "dev", "test"]), nl=rng.random() < 0.7, default=rng.random() < 0.2)

    def run(c):
        from bm25s.utils import beir
        d = scratch()
        split = "test" if c["default"] else c["split"]
        p = os.path.join(d, "ds", "qrels")
        os.makedirs(p)
        body = "query-id\tcorpus-id\tscore\n" + "\n".join("\t".join(map(str, r)) for r in c["rows"]) + ("\n" if c["nl"] else "")
        open(os.path.join(p, split + ".tsv"), "w").write(body)
        for other in {"train", "dev", "test"} - {split}:
            open(os.path.join(p, other + ".tsv"), "w").write("query-id\tcorpus-id\tscore\nWRONG\tWRONG\t9\n")
        kw = {} if c["default"] else dict(split=split)
        want = {}
        for q, x, s in c["rows"]:
            want.setdefault(q, {})[x] = s
        got = beir.load_qrels("ds", save_dir=d, show_progress=False, **kw)
        if got != want:
            return f"judgements {got}, expected {want}"
        lst = beir.load_qrels("ds", save_dir=d, show_progress=False, return_dict=False, **kw)
        if [tuple(x) for x in lst] != [tuple(r) for r in c["rows"]]:
            return f"judgement list {lst}, expected {c['rows']}"
        if not raises(lambda: beir.load_qrels("ds", split="valid", save_dir=d, show_progress=False)):
            return "an unknown split was accepted"


@check("C21", n=(250, 2500))
class postprocess:
    def gen(rng, i):
        nq, k = rng.randint(1, 5), rng.randint(1, 6)
        return dict(ids=[f"q{j}" for j in rng.sample(range(50), nq)], hits=[[f"d{x}" for x in rng.sample(range(20), k)] for _ in range(nq)],
                    scores=[[rng.choice([0.0, 1.5, rng.uniform(-1, 9)]) for _ in range(k)] for _ in range(nq)], arr=rng.random() < 0.7, dt=rng.choice(["float32", "float64"]))

    def run(c):
        import numpy as np
        from bm25s.utils import beir
        S = np.array(c["scores"], dtype=c["dt"])
        H = np.array(c["hits"]) if c["arr"] else [list(h) for h in c["hits"]]
        got = beir.postprocess_results_for_eval(H, S if c["arr"] else S.tolist(), list(c["ids"]))
        want = {q: {d: float(s) for d, s in zip(h, row)} for q, h, row in zip(c["ids"], c["hits"], S)}
        if got != want or [list(got[q]) for q in want] != [list(want[q]) for q in want]:
            return f"{got}, expected {want}"
        if any(type(s) is not float for h in got.values() for s in h.values()):
            return "scores are not plain floats"


@check("C21", n=(60, 600))
class merge:
    def gen(rng, i):
        subs = rng.sample(["android", "english", "gis", "tex", "web_x", "a-b"], rng.randint(1, 4))
        return dict(subs={s: dict(corpus=[{"_id": str(j), "title": rng.choice(["t", "é", ""]), "text": rng.choice(["x", "y \"q\"", "日本", "ls\u2028"])} for j in range(rng.randint(1, 4))],
                                  queries=[{"_id": str(j), "text": f"q {j}", "metadata": {"n": j}} for j in range(rng.randint(1, 3))],
                                  qrels=[[str(rng.randint(0, 2)), str(j), rng.choice([1, 1, 2, 0])] for j in range(rng.randint(1, 4))]) for s in subs}, twice=rng.random() < 0.3,
                    nl=rng.random() < 0.7, strpath=rng.random() < 0.5, pre=rng.random() < 0.2)

    def run(c):
        from bm25s.utils import beir, json_functions as J
        from pathlib import Path
        d = os.path.join(scratch(), "cqadupstack")
        end = "\n" if c["nl"] else ""
        for s, x in c["subs"].items():
            os.makedirs(os.path.join(d, s, "qrels"))
            for nm in ("corpus", "queries"):
                open(os.path.join(d, s, nm + ".jsonl"), "w", encoding="utf-8").write("\n".join(json.dumps(r) for r in x[nm]) + end)
            open(os.path.join(d, s, "qrels", "test.tsv"), "w").write("query-id\tcorpus-id\tscore\n" + "\n".join("\t".join(map(str, r)) for r in x["qrels"]) + end)
        src = {p: open(p, "rb").read() for p in map(str, Path(d).rglob("*")) if os.path.isfile(p)}
        for _ in range(2 if c["twice"] else 1):
            beir.merge_cqa_dupstack(d if c["strpath"] else Path(d))
        for p, b in src.items():
            if open(p, "rb").read() != b:
                return f"source file {p} was changed"
        key = lambda r: json.dumps(r, sort_keys=True)
        for nm in ("corpus", "queries"):
            with open(os.path.join(d, nm + ".jsonl"), encoding="utf-8", newline="\n") as f:
                got = [json.loads(l) for l in f if l.strip()]
            want = [dict(r, _id=f"{s}_{r['_id']}") for s, x in c["subs"].items() for r in x[nm]]
            if sorted(map(key, got)) != sorted(map(key, want)):
                return f"merged {nm}: {got}, expected {want}"
            per = {}
            for r in got:
                for s in c["subs"]:
                    if r["_id"].startswith(s + "_"):
                        per.setdefault(s, []).append(r["_id"])
            for s, l in per.items():
                if l != [f"{s}_{r['_id']}" for r in c["subs"][s][nm]]:
                    return f"merged {nm}: the records of {s} changed order: {l}"
        lines = open(os.path.join(d, "qrels", "test.tsv")).read().split("\n")
        if lines[0].split("\t") != ["query-id", "corpus-id", "score"]:
            return f"header {lines[0]!r}"
        got = [tuple(l.split("\t")) for l in lines[1:] if l]
        want = [(f"{s}_{q}", f"{s}_{x}", str(n)) for s, y in c["subs"].items() for q, x, n in y["qrels"]]
        if sorted(got) != sorted(want):
            return f"merged judgements {got}, expected {want}"
        q = beir.load_qrels("cqadupstack", save_dir=os.path.dirname(d), show_progress=False)
        w = {}
        for a, b, s in want:
            w.setdefault(a, {})[b] = int(s)
        dup = len({(a, b) for a, b, _ in want}) != len(want)
        if not dup and q != w:
            return f"loaded merged judgements {q}, expected {w}"


@check("C22", n=(600, 8000))
class timer:
    def gen(rng, i):
        names = rng.choice([["a"], ["a", "b"], ["a", "b", "c c"]])
        ops = []
        for _ in range(rng.randint(1, 25)):
            ops.append([rng.choice(["start", "pause", "resume", "stop", "stop", "pause", "resume", "illegal_start", "illegal_stop", "read", "dict"]), rng.choice(names), rng.choice([0, 1, 1, 2, 7, 1000, 3600 * 64]) / 64])
        return dict(ops=ops, t0=rng.choice([0.0, 12.5, 100000.25]), prec=rng.choice([None, 4, 6]))

    def run(c):
        import time
        from bm25s.utils import benchmark
        now = [c["t0"]]
        saved = {k: getattr(time, k) for k in ("monotonic", "time", "perf_counter", "process_time")}
        for k in saved:
            setattr(time, k, lambda: now[0])
        local = {k: getattr(benchmark, k) for k in saved if callable(getattr(benchmark, k, None))}
        for k in local:
            setattr(benchmark, k, lambda: now[0])
        try:
            T = benchmark.Timer() if c["prec"] is None else benchmark.Timer(precision=c["prec"])
            st, total, since = {}, {}, {}
            for op, n, dt in c["ops"]:
                now[0] += dt
                s = st.get(n)
                what = f"{op}({n!r}) at {now[0]} after {st}"
                if op == "start" and s is None:
                    T.start(n)
                    st[n], total[n], since[n] = "running", 0.0, now[0]
                elif op == "pause" and s == "running":
                    T.pause(n)
                    total[n] += now[0] - since[n]
                    st[n] = "paused"
                elif op == "resume" and s in ("paused", "stopped"):
                    T.resume(n)
                    since[n] = now[0]
                    st[n] = "running"
                elif op == "stop" and s in ("running", "paused"):
                    if s == "running":
                        total[n] += now[0] - since[n]
                    got = T.stop(n)
                    st[n] = "stopped"
                    if got != total[n]:
                        return f"{what}: stop returns {got}, the timer ran for {total[n]}"
                    if T.elapsed(n) != round(total[n], 4 if c["prec"] is None else c["prec"]) or T.elapsed(n, precision=9) != round(total[n], 9):
                        return f"{what}: elapsed is {T.elapsed(n)}, the timer ran for {total[n]}"
                elif op == "illegal_start" and s is not None:
                    if not raises(lambda: T.start(n), ValueError):
                        return f"{what}: a second start was accepted"
                elif op == "illegal_stop":
                    if not raises(lambda: T.stop("never" + n), ValueError):
                        return f"{what}: stopping a name never started was accepted"
                    if s is None and not raises(lambda: T.stop(n), ValueError):
                        return f"{what}: stopping a name never started was accepted"
                elif op == "dict":
                    d = T.to_dict()
                    for v in d.values():
                        if isinstance(v, dict):
                            v["elapsed"] = -1e9
                            v.pop("last", None)
                for m in st:
                    if st[m] == "stopped" and T.elapsed(m, precision=9) != round(total[m], 9):
                        return f"{what}: timer {m!r} reports {T.elapsed(m, precision=9)}, it ran for {total[m]}"
            for m in st:
                now[0] += 0.5
                if st[m] == "running":
                    total[m] += now[0] - since[m]
                if st[m] in ("running", "paused"):
                    got = T.stop(m)
                    if got != total[m]:
                        return f"final stop of {m!r} returns {got}, the timer ran for {total[m]}"
        finally:
            for k, f in saved.items():
                setattr(time, k, f)
            for k, f in local.items():
                setattr(benchmark, k, f)
