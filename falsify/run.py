"""run.py PROP --seed N --tier quick|thorough --budget S   |   run.py --replay FILE"""
import argparse, json, os, shutil, sys, tempfile, logging, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("PYDV_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
real_stdout = os.dup(1)
if "--replay" not in sys.argv:
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)     # the code under test may print
if "--replay" in sys.argv and json.load(open(sys.argv[sys.argv.index("--replay") + 1])).get("nojit"):
    os.environ["NUMBA_DISABLE_JIT"] = "1"
ap = argparse.ArgumentParser()
ap.add_argument("prop", nargs="?")
ap.add_argument("--seed", default="1")
ap.add_argument("--tier", default="quick")
ap.add_argument("--budget", type=float, default=100)
ap.add_argument("--replay")
ap.add_argument("--only")
a = ap.parse_args()
root = os.environ.get("FALSIFY_SCRATCH")
mine = None
if not root:
    mine = root = tempfile.mkdtemp(prefix="bm25s-falsify-")
    os.environ["FALSIFY_SCRATCH"] = root
os.environ.setdefault("NUMBA_CACHE_DIR", os.path.join(root, "numba"))
for k, v in dict(JAX_PLATFORMS="cpu", HF_HUB_OFFLINE="1", TQDM_DISABLE="1").items():
    os.environ.setdefault(k, v)
os.chdir(root)
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
rc = 0
try:
    import numpy as np
    np.seterr(all="ignore")
    from falsify import common
    from falsify import f_scoring, f_select, f_retrieve, f_store, f_text, f_misc
    if a.replay:
        rep = json.load(open(a.replay))
        if "case" not in rep:
            print("this replay file names a failed proof obligation; it carries no concrete input")
            rc = 2
        else:
            cls = {n: c for n, c, _, _ in common.REG[rep["property"]]}[rep["check"]]
            msg = common.eval_case(cls, rep["case"])
            print(f"property {rep['property']} / {rep['check']}: {msg or 'holds on this input'}")
            rc = 1 if msg and msg is not common.SKIP else 0
    else:
        if a.only:
            common.REG[a.prop] = [x for x in common.REG[a.prop] if x[0] == a.only]
        res = common.run_property(a.prop, a.seed, a.tier, a.budget)
        os.write(real_stdout, (json.dumps(res) + "\n").encode())
finally:
    os.chdir("/")
    if mine:
        shutil.rmtree(mine, ignore_errors=True)
sys.stdout.flush()
os._exit(rc)
