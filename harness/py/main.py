"""Python harness: main.py <driver>.  One JSON operation per line in, one JSON observation per line out.
The modules under test are loaded from /repo/src (their package __init__ needs the compiled extension: an empty package stands for it)."""
import sys, os, json, types, importlib
sys.dont_write_bytecode = True
REPO = os.environ.get("REPO") or os.environ.get("VERIF_REPO", "/repo")
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
real_out = os.dup(1)
os.dup2(2, 1)                       # what the code prints does not mix with the observations
import warnings; warnings.simplefilter("ignore")
import stub; stub.install(REPO + "/src")
drv = importlib.import_module("drv_" + sys.argv[1])
out = os.fdopen(real_out, "w")
for line in sys.stdin:
    o = json.loads(line)
    if o[0] == "@reset":
        drv.reset(); r = ["reset"]
    else:
        try: r = drv.op(o)
        except Exception as e: r = ["exc", type(e).__name__]
    out.write(json.dumps(r) + "\n"); out.flush()
if hasattr(drv, "finish"): drv.finish()
os._exit(0)
