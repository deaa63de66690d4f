"""Writes harness/sigs.json: arguments and defaults of the constructors, as they are now.  The file is committed: it is the
oracle of C37, and is not rewritten by any check.  usage: SUT_REPO=/repo tools/sigs.py (run by Jython, see run.sh)"""
import sys, json, inspect, os
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
sys.path.insert(0, H)
import worker
out = {}
for t in sorted(worker.CLASSES):
  c = worker.load(t)
  try: a = inspect.getargspec(c.__init__)
  except TypeError: continue
  d = a.defaults or ()
  n = len(a.args) - len(d)
  known = [f[0] for f in worker.CLASSES[t][2]]
  out[t] = [[x, None] if i < n else [x, {"d": worker.dump(d[i - n])}] for i, x in enumerate(a.args) if i > 0 and x in known]
f = open(os.path.join(H, "sigs.json"), "w")
f.write("{\n" + ",\n".join('"%s": %s' % (t, json.dumps(out[t], sort_keys=True)) for t in sorted(out) if out[t]) + "\n}\n")
f.close()
