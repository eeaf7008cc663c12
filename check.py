#!/usr/bin/env python3
"""check.py <property>: decides one property of /verif/properties.jsonl for the
code in /repo. Exit 0 held, 1 violated (VIOLATION line), 2 could not be decided."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
import hist
import props


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        common.TIER = sys.argv[2]
    try:
        rep = common.Report(prop, "model_checking")
        getattr(props, prop)(rep)
        rc = rep.finish()
        if rc == 0 and hist.unexplained():
            raise common.ToolError("histories that do not fit: %s" % hist.unexplained()[:5])
        return rc
    except common.ToolError as e:
        print("ERROR: " + str(e), flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
