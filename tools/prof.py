"""Development: where a scenario variant forks. prof.py PROP SCENARIO 'json params' [max paths]"""
import collections, importlib, json, sys, traceback, time
sys.path.insert(0, "/verif")
from sx import engine as E, explore, instrument, scen, common, runner
from sx.symsession import SymSession
import index; idx = index.INDEX[sys.argv[1]]
explore.setup_process()
for m in idx["modules"]:
    importlib.import_module("harness." + m)
sc = [s for s in scen.REG[sys.argv[1]] if s.name == sys.argv[2]][0]
params = json.loads(sys.argv[3]) if len(sys.argv) > 3 else sc.variants["quick"][0]
maxp = int(sys.argv[4]) if len(sys.argv) > 4 else 5
class C(object):
    def ask(self, r): return {"status": "done", "fails": [], "covers": [], "obs": [], "known": []}
    def stop(self): pass
job = explore.Job(sys.argv[1], "", sc, params, "quick", 1); job.conc = C()
en = E.Engine(max_steps=sc.steps, max_decisions=sc.decisions)
S = SymSession(en, job)
cnt = collections.Counter()
orig = en.fork
def fork(cond, hint=None):
    p = len(en.decisions)
    r = orig(cond, hint)
    if len(en.decisions) > p:
        st = [f for f in traceback.extract_stack() if "/sx/" not in f.filename and "prof.py" not in f.filename][-1]
        sx = [f for f in traceback.extract_stack() if "values.py" in f.filename]
        d = en.decisions[-1]
        cnt[(st.filename.split("/")[-1], st.lineno, sx[-1].lineno if sx else 0, d.other)] += 1
    return r
en.fork = fork
from harness import stubs
for i in range(maxp):
    en.start_path(); S.reset(); instrument.purge(common.REPO_TOPS); E.CURRENT = en
    t = time.time()
    st = "done"
    try:
        try:
            stubs.install(S); sc.fn(S, **params)
        finally:
            en.pending = None; en.steps = -1<<60
            stubs.uninstall()
    except BaseException as e:
        st = "%s %s" % (type(e).__name__, e)
        if not isinstance(e, E.Control) or "-v" in sys.argv: traceback.print_exc()
    print("path", i, st, "decisions", len(en.decisions), "steps", en.steps, "t %.2f" % (time.time() - t), "q", en.stats["queries"])
    en.pending = None
    if not en.backtrack(): break
E.CURRENT = None
for k, v in cnt.most_common(25): print(v, k)
print(job.tried)
