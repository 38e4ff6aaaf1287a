"""Builds the runner and lets SANY read every module."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print("runner:", vlib.build())
bad = 0
for m in sorted(glob.glob(vlib.SPEC + "/*.tla")):
    r = subprocess.run(["java", "-cp", vlib.tlc_classpath(), "tla2sany.SANY", os.path.basename(m)], cwd=vlib.SPEC,
                       capture_output=True, text=True)
    ok = "Semantic errors" not in r.stdout and "Parse Error" not in r.stdout and "*** Errors" not in r.stdout
    print("%-24s %s" % (os.path.basename(m), "ok" if ok else r.stdout[-1500:]))
    bad += not ok
sys.exit(1 if bad else 0)
