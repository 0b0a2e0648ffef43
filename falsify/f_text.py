"""C16-C19: tokenization and JSON."""
import copy, os, re
from .common import *
from .f_store import ODD, gen_doc

TW = ["The", "the", "cat", "Cats", "cat", "running", "run", "a", "is", "été", "STRASSE", "ß", "日本語", "x", "42", "007", "of", "İstanbul", "don't", "co-op", "foo_bar", "zz", "e\u0301", "ﬁn", "I"]
PATTERNS = [r"(?u)\b\w\w+\b", r"(?u)\b\w\w+\b", r"\w+", r"[a-z]+", r"\S+", r"(\w)\w*", r"\w*", r"[A-Za-z']+", r"(?:\w\w\w)"]


def gen_text(rng):
    k = rng.random()
    if k < 0.08:
        return ""
    if k < 0.16:
        return rng.choice([" ", "!!!", "a", ".", "\n", "- -", "the of"])
    return rng.choice([" ", "  ", ", ", "\n"]).join(rng.choice(TW) for _ in range(rng.randint(1, 9)))


def gen_texts(rng, n=None):
    return [gen_text(rng) for _ in range(n or rng.choice([1, 2, 3, rng.randint(1, 8)]))]


def stem1(w):
    """A many-to-one stemmer."""
    for suf in ("ning", "s", "ing"):
        if w.endswith(suf) and len(w) > len(suf) + 1:
            return w[:-len(suf)]
    return w


def stem2(w):
    return w[:2]


def stem3(w):
    return "" if w in ("cat", "x", "42") else w


STEMS = {"none": None, "suffix": stem1, "two": stem2, "toempty": stem3}


class Stemmer:
    """PyStemmer-like object."""
    def __init__(self, f):
        self.f = f

    def stemWord(self, w):
        return self.f(w)

    def stemWords(self, ws):
        return [self.f(w) for w in ws]


STOPS = {"en": "en", "english": "english", "none": None, "false": False, "list": ["cat", "run", "日本語"], "empty": [], "tuple": ("x", "42"), "de": "de", "set": None, "plus": "en_plus", "true": True}


def stop_words(k):
    from bm25s import stopwords as S
    return {"en": S.STOPWORDS_EN, "english": S.STOPWORDS_EN, "true": S.STOPWORDS_EN, "de": S.STOPWORDS_GERMAN, "plus": S.STOPWORDS_EN_PLUS}.get(k) or (STOPS[k] or [])


@check("C16", n=(600, 8000))
class functional:
    def gen(rng, i):
        return dict(texts=gen_texts(rng), pattern=rng.choice(PATTERNS), lower=rng.random() < 0.7, stop=rng.choice(list(STOPS)), stem=rng.choice(["none", "none", "suffix", "two", "toempty"]),
                    obj=rng.random() < 0.5, allow=rng.random() < 0.7, single=rng.random() < 0.1, big=i % 150 == 75)

    def run(c):
        import bm25s
        texts = c["texts"]
        if c["big"]:
            texts = texts + [" ".join(f"w{j}" for j in range(k, k + 40)) for k in range(0, 800, 20)]
        f = STEMS[c["stem"]]
        stemmer = None if f is None else Stemmer(f) if c["obj"] else (lambda ws: [f(w) for w in ws])
        kw = dict(lower=c["lower"], token_pattern=c["pattern"], stopwords=STOPS[c["stop"]], stemmer=stemmer, show_progress=False, allow_empty=c["allow"])
        if c["single"]:
            texts = texts[:1]
        arg = texts[0] if c["single"] else list(texts)
        ids = bm25s.tokenize(arg, **kw)
        strs = bm25s.tokenize(texts[0] if c["single"] else list(texts), return_ids=False, **kw)
        if not c["single"] and arg != texts:
            return "the list of texts was modified"
        sw = set(stop_words(c["stop"]))
        want = []
        for t in texts:
            t = t.lower() if c["lower"] else t
            ws = re.compile(c["pattern"]).findall(t)
            if not ws and not c["allow"]:
                ws = [""]
            ws = [w for w in ws if w not in sw]
            want.append([f(w) if f else w for w in ws])
        if strs != want:
            return f"string result {strs}, expected {want}"
        if len(ids.ids) != len(texts):
            return f"{len(ids.ids)} rows for {len(texts)} texts"
        V = ids.vocab
        toks = {w for d in want for w in d}
        if set(V) != toks or sorted(V.values()) != list(range(len(toks))):
            return f"vocabulary {V} is not one-to-one from {sorted(toks)} onto 0..{len(toks) - 1}"
        rev = {v: k for k, v in V.items()}
        for d in ids.ids:
            for x in d:
                if x not in rev:
                    return f"id {x} is not in the vocabulary"
        back = [[rev[x] for x in d] for d in ids.ids]
        if back != strs:
            return f"ids translate back to {back}, the string result is {strs}"
        conv = bm25s.tokenization.convert_tokenized_to_string_list(ids)
        if conv != strs:
            return f"convert_tokenized_to_string_list gives {conv}"


def make_tokenizer(c):
    import bm25s
    f = STEMS[c["stem"]]
    st = None if f is None else Stemmer(f) if c["obj"] else f
    sp = c["pattern"] if not c["callable"] else re.compile(c["pattern"]).findall
    return bm25s.tokenization.Tokenizer(lower=c["lower"], splitter=sp, stopwords=STOPS[c["stop"]], stemmer=st)


def gen_tok(rng):
    return dict(stem=rng.choice(["none", "none", "suffix", "two", "toempty"]), obj=rng.random() < 0.5, callable=rng.random() < 0.3, lower=rng.random() < 0.7, pattern=rng.choice(PATTERNS),
                stop=rng.choice(list(STOPS)))


MODES = [True, True, False, "never", "if_empty"]


@check("C17", n=(400, 6000))
class history:
    def gen(rng, i):
        c = gen_tok(rng)
        c["calls"] = [[gen_texts(rng), rng.choice(MODES), rng.choice(["ids", "stream", "stream_part", "tuple", "string", "streaming", "interleave"]), rng.random() < 0.7, gen_texts(rng, 3)]
                      for _ in range(rng.randint(1, 6))]
        c["big"] = i % 60 == 30
        return c

    def run(c):
        T = make_tokenizer(c)
        calls = c["calls"]
        if c["big"]:
            calls = [[[" ".join(f"w{j}" for j in range(k, k + 30)) for k in range(0, 400, 25)], True, "ids", True, []]] + calls
        for n, (texts, mode, ret, allow, more) in enumerate(calls):
            v0 = dict(T.get_vocab_dict())
            w0 = dict(T.word_to_id)
            rows = []
            kw = dict(update_vocab=mode, allow_empty=allow, show_progress=False)
            streaming_mode = mode if mode != "if_empty" else True
            eff = (len(w0) == 0) if mode == "if_empty" else mode
            if ret == "ids":
                rows = T.tokenize(list(texts), **kw)
            elif ret == "tuple":
                t = T.tokenize(list(texts), return_as="tuple", **kw)
                rows = t.ids
                if any(x not in set(t.vocab.values()) for d in rows for x in d):
                    return f"call {n}: an id of the tuple result is not in its vocabulary"
            elif ret == "string":
                T.tokenize(list(texts), return_as="string", **kw)
            elif ret in ("stream", "stream_part"):
                g = T.tokenize(iter(list(texts)) if ret == "stream" else list(texts), return_as="stream", **kw)
                for k, row in enumerate(g):
                    rows.append(row)
                    if ret == "stream_part" and k >= len(texts) // 2:
                        break
                    bad = vocab_problem(T, v0, w0, rows)
                    if bad:
                        return f"call {n}, while streaming: {bad}"
                del g
            elif ret == "streaming":
                eff = streaming_mode
                rows = list(T.streaming_tokenize(list(texts), update_vocab=streaming_mode, allow_empty=allow))
            else:
                eff = streaming_mode
                a = T.streaming_tokenize(list(texts), update_vocab=streaming_mode, allow_empty=allow)
                b = T.streaming_tokenize(list(more), update_vocab=streaming_mode, allow_empty=allow)
                its = [a, b]
                while its:
                    for g in list(its):
                        try:
                            rows.append(next(g))
                        except StopIteration:
                            its.remove(g)
            bad = vocab_problem(T, v0, w0, rows)
            if bad:
                return f"call {n} {(texts, mode, ret, allow)}: {bad}"
            v1 = T.get_vocab_dict()
            if eff is not True and dict(v1) != v0:
                return f"call {n} with update_vocab={mode!r} added {sorted(set(v1) - set(v0))} to the vocabulary"
            if eff == "never" and T.word_to_id != w0:
                return f"call {n} with update_vocab='never' added word mappings {sorted(set(T.word_to_id) - set(w0))}"
            if mode == "if_empty" and len(w0) == 0 and ret in ("ids", "tuple", "string", "stream"):
                f = STEMS[c["stem"]]
                sw = set(stop_words(c["stop"]))
                ws = {w for t in texts for w in re.compile(c["pattern"]).findall(t.lower() if c["lower"] else t) if w not in sw}
                if any(w not in T.word_to_id for w in ws):
                    return f"call {n}: update_vocab='if_empty' on an empty vocabulary did not add {sorted(ws - set(T.word_to_id))}"


def vocab_problem(T, v0, w0, rows):
    v1 = T.get_vocab_dict()
    for k, v in v0.items():
        if v1.get(k) != v:
            return f"vocabulary entry {k!r}: id {v} became {v1.get(k)}"
    for k, v in w0.items():
        if T.word_to_id.get(k) != v:
            return f"word {k!r}: id {v} became {T.word_to_id.get(k)}"
    if len(set(v1.values())) != len(v1):
        return f"two vocabulary entries share an id: {v1}"
    ids = set(v1.values())
    for row in rows:
        for x in row:
            if x not in ids:
                return f"emitted id {x} is not in the vocabulary {v1}"
    for w, x in T.word_to_id.items():
        if x not in ids:
            return f"word {w!r} has id {x}, which is not in the vocabulary"
    return None


@check("C18", n=(450, 6000))
class words_in_order:
    def gen(rng, i):
        c = gen_tok(rng)
        c.update(first=gen_texts(rng), texts=gen_texts(rng), allow=rng.random() < 0.7, mode=rng.choice([True, True, True, False, "never"]), warm=rng.random() < 0.8, allow0=rng.random() < 0.7)
        return c

    def run(c):
        import bm25s
        T = make_tokenizer(c)
        f = STEMS[c["stem"]] or (lambda w: w)
        sw = set(stop_words(c["stop"]))
        if c["warm"]:
            T.tokenize(list(c["first"]), update_vocab=True, show_progress=False, allow_empty=c["allow0"])
        words = [re.compile(c["pattern"]).findall(t.lower() if c["lower"] else t) for t in c["texts"]]
        voc, known = set(T.get_vocab_dict()), set(T.word_to_id)
        if sw & known or (c["mode"] is True and "" in sw):
            raise Skip()
        import copy as cp
        Ts = [cp.deepcopy(T) for _ in range(4)]
        kw = dict(update_vocab=c["mode"], allow_empty=c["allow"], show_progress=False)
        ids = Ts[0].tokenize(list(c["texts"]), return_as="ids", **kw)
        tup = Ts[1].tokenize(list(c["texts"]), return_as="tuple", **kw)
        strs = Ts[2].tokenize(list(c["texts"]), return_as="string", **kw)
        stream = list(Ts[3].tokenize(list(c["texts"]), return_as="stream", **kw))
        if ids != tup.ids or ids != stream:
            return f"id, tuple and stream results differ: {ids}, {tup.ids}, {stream}"
        if dict(tup.vocab) != dict(Ts[0].get_vocab_dict()):
            return "the tuple's vocabulary differs from the tokenizer's"
        if Ts[0].decode(ids) != strs or bm25s.tokenization.convert_tokenized_to_string_list(tup) != strs:
            return f"ids decode to {Ts[0].decode(ids)}, string result {strs}"
        empty_known = "" in known or (c["allow"] and c["mode"] is True)
        if len(ids) != len(c["texts"]):
            return f"{len(ids)} results for {len(c['texts'])} texts"
        cur_words, cur_voc = set(known), set(voc)
        if c["allow"] and c["mode"] is True:
            cur_words.add("")
            cur_voc.add("")
        for t, ws, got in zip(c["texts"], words, strs):
            if not ws and c["allow"]:
                ws = [""]
            want = []
            for w in ws:
                s = w if w == "" and w in cur_words else f(w)
                if w in sw and w not in cur_words:
                    continue
                if c["mode"] is True:
                    ok = True
                    cur_words.add(w)
                elif c["mode"] == "never":
                    ok = w in cur_words
                else:
                    ok = w in cur_words or (c["stem"] != "none" and s in cur_voc)
                if ok:
                    want.append(s)
            if not want and c["allow"] and empty_known:
                want = [""]
            if got != want:
                return f"text {t!r} gives {got}, expected {want} (update_vocab={c['mode']!r}, allow_empty={c['allow']})"
            if c["allow"] and empty_known and not got:
                return f"text {t!r} gives an empty id list although empty output is allowed and the empty word is known"


@check("C18", n=(60, 400))
class bad_arguments:
    def gen(rng, i):
        return dict(ret=rng.choice(["id", "", "list", None]), mode=rng.choice(["always", "", None, "True", 2]))

    def run(c):
        import bm25s
        T = bm25s.tokenization.Tokenizer()
        if not raises(lambda: T.tokenize(["a cat"], return_as=c["ret"], show_progress=False)):
            return f"return_as={c['ret']!r} accepted"


@check("C19", n=(220, 2500))
class tokenizer_state:
    def gen(rng, i):
        c = gen_tok(rng)
        c.update(a=gen_texts(rng), b=gen_texts(rng) + [" ".join(w for w in ODD if w)[:200]], mode=rng.choice([True, False, "never", "if_empty"]), vn=rng.choice(["vocab.tokenizer.json", "v.json"]),
                 sn=rng.choice(["stopwords.tokenizer.json", "s.x.json"]), oddstops=rng.random() < 0.4, other=gen_texts(rng), more=[[gen_texts(rng), rng.choice([False, "never", True, False])] for _ in range(rng.choice([0, 1, 2]))])
        return c

    def run(c):
        import bm25s
        T = make_tokenizer(c)
        if c["oddstops"]:
            T.stopwords = [w for w in ODD if w]
        T.tokenize(list(c["a"]) + [" ".join(x for x in ODD)], show_progress=False)
        for texts, mode in c["more"]:
            T.tokenize(list(texts), update_vocab=mode, show_progress=False)
        d = os.path.join(scratch(), "x", "y")
        T.save_vocab(d, vocab_name=c["vn"])
        T.save_stopwords(d, stopwords_name=c["sn"])
        before = (dict(T.word_to_id), dict(T.stem_to_sid), dict(T.word_to_stem))
        U = make_tokenizer(dict(c, stop="none"))
        U.tokenize(list(c["other"]), show_progress=False)
        U.load_vocab(d, vocab_name=c["vn"])
        U.load_stopwords(d, stopwords_name=c["sn"])
        if (U.word_to_id, U.stem_to_sid, U.word_to_stem) != before:
            return "the loaded maps differ from the saved ones"
        if list(U.stopwords) != list(T.stopwords):
            return f"stopwords {list(U.stopwords)[:9]} loaded, {list(T.stopwords)[:9]} saved"
        kw = dict(update_vocab=c["mode"], show_progress=False)
        x, y = T.tokenize(list(c["b"]), **kw), U.tokenize(list(c["b"]), **kw)
        if x != y:
            return f"texts {c['b']} tokenize to {y} after loading, {x} before"
        if (U.word_to_id, U.stem_to_sid) != (T.word_to_id, T.stem_to_sid):
            return "the vocabularies grow differently after loading"


def json_value(rng, depth=0):
    k = rng.randint(0, 8 if depth < 3 else 5)
    if k <= 1:
        return rng.choice(ODD + ["\u007f\u0080", "\uffff", "\U0010ffff", "\\u00e9", "</script>"])
    if k == 2:
        return "".join(chr(rng.choice([rng.randint(0, 127), rng.randint(128, 0xD7FF), rng.randint(0xE000, 0xFFFF), rng.randint(0x10000, 0x10FFFF)])) for _ in range(rng.randint(0, 12)))
    if k == 3:
        return rng.choice([0, -1, 2 ** 53, -2 ** 63, 1.5, 1e-300, 0.1, True, False, None])
    if k in (4, 5):
        return rng.randint(-1000, 1000)
    if k == 6:
        return [json_value(rng, depth + 1) for _ in range(rng.randint(0, 4))]
    return {rng.choice(ODD + ["k", "é\\", "😀"]): json_value(rng, depth + 1) for _ in range(rng.randint(0, 4))}


@check("C19", n=(700, 8000))
class json_helpers:
    def gen(rng, i):
        return dict(v=json_value(rng), ascii=rng.choice([True, False, None]))

    def run(c):
        import json as std
        from bm25s.utils import json_functions as J
        v = c["v"]
        kw = {} if c["ascii"] is None else dict(ensure_ascii=c["ascii"])
        fns = {"dumps": J.dumps}
        for nm in ("dumps_with_builtin", "dumps_with_orjson"):
            if hasattr(J, nm) and (nm != "dumps_with_orjson" or getattr(J, "ORJSON_AVAILABLE", True)):
                fns[nm] = getattr(J, nm)
        for nm, f in fns.items():
            t = f(v, **kw)
            if not isinstance(t, str):
                return f"{nm} returns {type(t)}"
            if c["ascii"] is not False and not t.isascii():
                return f"{nm} with ASCII escaping gives {t!r}"
            for ln, load in (("json.loads", std.loads), ("loads", J.loads)):
                back = load(t)
                if back != v or std.dumps(back) != std.dumps(v):
                    return f"{nm}{kw} then {ln}: {back!r}, expected {v!r} (text {t!r})"


@check("C19", n=(15, 60))
class json_builtin_path:
    """The helpers without orjson."""
    def gen(rng, i):
        return dict(v=json_value(rng), ascii=rng.choice([True, False, None]))

    def run(c):
        import importlib.util, sys, json as std
        import bm25s.utils.json_functions as J
        saved = sys.modules.get("orjson")
        sys.modules["orjson"] = None
        try:
            spec = importlib.util.spec_from_file_location("jf_builtin", J.__file__)
            M = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(M)
        finally:
            if saved is None:
                del sys.modules["orjson"]
            else:
                sys.modules["orjson"] = saved
        kw = {} if c["ascii"] is None else dict(ensure_ascii=c["ascii"])
        t = M.dumps(c["v"], **kw)
        if M.loads(t) != c["v"] or std.loads(t) != c["v"]:
            return f"without orjson: {t!r} does not parse back to {c['v']!r}"
        if c["ascii"] is not False and not t.isascii():
            return f"without orjson: {t!r} is not ASCII"
