"""setup_cmd: the tools are there and the specifications parse. Checks build what they need from /repo themselves."""
import os
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common

for t in ("java", "cargo", "apalache-mc"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
for f in sorted(os.listdir(common.SPEC)):
    if f.endswith(".tla"):
        rc, out, err = common.run(["java", "-cp", common.JAVA[-1], "tla2sany.SANY", f], cwd=common.SPEC)
        if rc != 0 or "*** Errors" in out:
            sys.exit("%s does not parse:\n%s" % (f, out + err))
print("ok")
