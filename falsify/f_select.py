"""C06, C07: top-k selection."""
from .common import *
import inspect


def gen_vec(rng, n=None):
    n = n or rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(5, 60), 200])
    st = rng.randint(0, 6)
    if st == 0:
        v = [0.0] * n
    elif st == 1:
        v = [float(rng.randint(0, 2)) for _ in range(n)]
    elif st == 2:
        v = [rng.uniform(-5, 5) for _ in range(n)]
    elif st == 3:
        v = [-abs(rng.gauss(0, 1)) - 0.1 for _ in range(n)]
    elif st == 4:
        v = [1.0 + rng.randint(0, 5) * 2.0 ** -40 for _ in range(n)]
    elif st == 5:
        v = [rng.choice([float("inf"), float("-inf"), 0.0, -0.0, 1.0, 1e30, -1e30]) for _ in range(n)]
    else:
        v = sorted((rng.uniform(0, 1) for _ in range(n)), reverse=rng.random() < 0.5)
    return v


def verify_topk(vec, scores, idx, k, is_sorted):
    import numpy as np
    scores, idx = np.asarray(scores), np.asarray(idx)
    if scores.shape != (k,) or idx.shape != (k,):
        return f"shapes {scores.shape} and {idx.shape}, expected ({k},)"
    il = [int(x) for x in idx]
    if len(set(il)) != k or any(not 0 <= x < len(vec) for x in il):
        return f"positions {il} are not {k} distinct positions"
    for s, x in zip(scores, il):
        if not (s == vec[x]):
            return f"score {s!r} reported for position {x} whose score is {vec[x]!r}"
    chosen = set(il)
    rest = [vec[x] for x in range(len(vec)) if x not in chosen]
    if rest and k and max(rest) > min(vec[x] for x in il):
        return f"an unselected score {max(rest)!r} is higher than a selected one {min(vec[x] for x in il)!r}"
    if is_sorted and any(scores[i] < scores[i + 1] for i in range(k - 1)):
        return f"scores are not in non-increasing order: {scores.tolist()[:20]}"


@check("C06", n=(900, 10000))
class topk:
    def gen(rng, i):
        v = gen_vec(rng)
        n = len(v)
        return dict(v=v, k=rng.choice([1, n, rng.randint(1, n), rng.randint(1, n), max(1, n - 1)]), dt=rng.choice(["float32", "float64", "float64"]),
                    sorted=rng.random() < 0.6, backend=["numpy", "numpy", "auto", "jax"][i % 4], strided=rng.random() < 0.15)

    def run(c):
        import numpy as np
        from bm25s import selection
        vec = np.array(c["v"], dtype=c["dt"])
        if c["strided"]:
            vec = np.repeat(vec, 2)[::2]
        keep = vec.copy()
        s, i = selection.topk(vec, c["k"], backend=c["backend"], sorted=c["sorted"])
        if not np.array_equal(vec, keep):
            return "the score vector was modified"
        return verify_topk(vec, s, i, c["k"], c["sorted"])


def big_vec(seed, n):
    """A long vector, given by its seed so that the recorded case stays small."""
    import random
    rng = random.Random(seed)
    st = seed % 5
    if st == 0:
        return [rng.gauss(0, 1) for _ in range(n)]
    if st == 1:
        return [float(rng.randint(0, 40)) for _ in range(n)]
    if st == 2:
        return [float(i) for i in range(n)]
    if st == 3:
        return [float(-i) for i in range(n)]
    return [rng.uniform(0, 1) if rng.random() < 0.05 else 0.0 for _ in range(n)]


def gen_big(rng, i):
    n = rng.choice([300, 1000, 2047, 4097, 9000, 20000, rng.randint(200, 30000)])
    return dict(seed=rng.randint(0, 10 ** 6), n=n, k=rng.choice([1, 10, 100, 1000, n - 1, n, n // 2, rng.randint(1, n)]), dt=rng.choice(["float32", "float64"]),
                sorted=rng.random() < 0.7, backend=["numpy", "jax", "auto"][i % 3])


@check("C06", n=(60, 500))
class topk_long_vectors:
    gen = gen_big

    def run(c):
        import numpy as np
        from bm25s import selection
        k = min(c["k"], c["n"])
        vec = np.array(big_vec(c["seed"], c["n"]), dtype=c["dt"])
        s, i = selection.topk(vec, k, backend=c["backend"], sorted=c["sorted"])
        return verify_topk(vec.tolist(), s.tolist(), i, k, c["sorted"])


@check("C07", n=(60, 500))
class numba_topk_long_vectors:
    gen = gen_big

    def run(c):
        import numpy as np
        from bm25s.numba import selection
        n = c["n"] if JIT else min(c["n"], 3000)
        vec = np.array(big_vec(c["seed"], n), dtype=c["dt"])
        s, i = selection.topk(vec, c["k"], backend="numba", sorted=c["sorted"])
        return verify_topk(vec.tolist(), s.tolist(), i, min(c["k"], n), c["sorted"])


@check("C06", n=(60, 400))
class topk_rejects:
    def gen(rng, i):
        n = rng.randint(1, 20)
        return dict(n=n, over=rng.choice([1, 1, 2, 100]), backend=rng.choice(["numpy", "jax", "auto"]), bad=rng.choice(["cupy", "", "NUMPY", "numba", "np", "torch"]),
                    sorted=rng.random() < 0.5)

    def run(c):
        import numpy as np
        from bm25s import selection
        v = np.arange(c["n"], dtype="float32")
        if not raises(lambda: selection.topk(v, c["n"] + c["over"], backend=c["backend"], sorted=c["sorted"])):
            return f"k={c['n'] + c['over']} accepted for {c['n']} scores by backend {c['backend']}"
        if not raises(lambda: selection.topk(v, 1, backend=c["bad"], sorted=c["sorted"])):
            return f"backend {c['bad']!r} accepted"


@check("C06", n=(120, 1000))
class topk_via_retrieve:
    def gen(rng, i):
        docs = gen_corpus(rng)
        return dict(docs=docs, p=gen_params(rng), q=gen_query(rng, docs), k=rng.randint(1, len(docs)), sorted=rng.random() < 0.7,
                    backend=rng.choice(["numpy", "auto", "jax"]))

    def run(c):
        r = index_form(bm25(c["p"]), c["docs"], "tokens")
        vec = r.get_scores(c["q"]) if c["q"] else None
        if vec is None:
            raise Skip()
        res = r.retrieve([c["q"]], k=c["k"], sorted=c["sorted"], show_progress=False, backend_selection=c["backend"])
        m = verify_topk(vec, res.scores[0], res.documents[0], c["k"], c["sorted"])
        if m:
            return m
        if not raises(lambda: r.retrieve([c["q"]], k=len(c["docs"]) + 1, show_progress=False, backend_selection=c["backend"])):
            return "a k larger than the corpus was accepted"


@check("C07", n=(700, 8000))
class numba_topk:
    def gen(rng, i):
        v = gen_vec(rng)
        n = len(v)
        return dict(v=v, k=rng.choice([1, n, rng.randint(1, n), rng.randint(1, n), n + 1, n + 7]), dt=["float32", "float64"][i % 2],
                    sorted=rng.random() < 0.6, inner=rng.random() < 0.3)

    def run(c):
        import numpy as np
        from bm25s.numba import selection
        vec = np.array(c["v"], dtype=c["dt"])
        keep = vec.copy()
        if c["inner"] and hasattr(selection, "_numba_sorted_top_k"):
            try:
                s, i = selection._numba_sorted_top_k(vec, c["k"], c["sorted"])
            except TypeError:        # a private helper with other parameters
                raise Skip()
        else:
            s, i = selection.topk(vec, c["k"], backend="numba", sorted=c["sorted"])
        if not np.array_equal(vec, keep):
            return "the score vector was modified"
        return verify_topk(vec, s, i, min(c["k"], len(vec)), c["sorted"])


HEAP_PARAMS = {"heap_push": ["values", "indices", "value", "index", "length"], "heap_pop": ["values", "indices", "length"],
               "sift_up": ["values", "indices", "pos", "length"], "sift_down": ["values", "indices", "startpos", "pos"]}


def is_heap(v, n):
    return all(v[(i - 1) >> 1] <= v[i] for i in range(1, n))


@check("C07", n=(500, 6000))
class heap_ops:
    def gen(rng, i):
        return dict(init=gen_vec(rng, rng.randint(1, 14)), ops=[rng.choice(["push", "pop", "replace", "push"]) for _ in range(rng.randint(1, 12))],
                    vals=[rng.choice([0.0, 1.0, rng.uniform(-3, 3), rng.uniform(-3, 3)]) for _ in range(12)], py=rng.random() < 0.6)

    def run(c):
        import numpy as np
        from bm25s.numba import selection as S
        f = lambda n: getattr(getattr(S, n), "py_func", getattr(S, n)) if c["py"] else getattr(S, n)
        for nm in ("heap_push", "heap_pop", "sift_up", "sift_down"):
            if not hasattr(S, nm) or list(inspect.signature(getattr(getattr(S, nm), "py_func", getattr(S, nm))).parameters) != HEAP_PARAMS[nm]:
                raise Skip()
        cap = len(c["init"]) + len(c["ops"]) + 3
        vals, idx = np.full(cap, 777.0), np.full(cap, -7, dtype="int32")
        n = 0
        bag = []
        tag = 0

        def check_state(what):
            if not is_heap(vals, n):
                return f"{what}: heap order broken: {vals[:n].tolist()}"
            if sorted(zip(vals[:n].tolist(), idx[:n].tolist())) != sorted(bag):
                return f"{what}: contents {sorted(zip(vals[:n].tolist(), idx[:n].tolist()))}, expected {sorted(bag)}"

        for v in c["init"]:
            f("heap_push")(vals, idx, v, tag, n)
            bag.append((float(v), tag)); tag += 1; n += 1
            m = check_state("push")
            if m:
                return m
        for op, v in zip(c["ops"], c["vals"]):
            if op == "push":
                f("heap_push")(vals, idx, v, tag, n)
                bag.append((float(v), tag)); tag += 1; n += 1
            elif n == 0:
                continue
            elif op == "pop":
                a, b = f("heap_pop")(vals, idx, n)
                if (float(a), int(b)) not in bag or a != min(x for x, _ in bag):
                    return f"pop returned {(a, b)}, not a smallest element of {bag}"
                bag.remove((float(a), int(b)))
                n -= 1
                vals[n], idx[n] = 777.0, -7
            else:
                bag.remove((float(vals[0]), int(idx[0])))
                vals[0], idx[0] = v, tag
                f("sift_up")(vals, idx, 0, n)
                bag.append((float(v), tag)); tag += 1
            m = check_state(op)
            if m:
                return m


@check("C07", n=(40, 200))
class numba_topk_rejects:
    def gen(rng, i):
        return dict(bad=rng.choice(["numpy", "", "jax", "auto", "NUMBA"]))

    def run(c):
        import numpy as np
        from bm25s.numba import selection
        return None if raises(lambda: selection.topk(np.arange(4.0), 2, backend=c["bad"])) else f"backend {c['bad']!r} accepted"
