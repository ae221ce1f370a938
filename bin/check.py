#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property on /repo's working
tree.  Exit 0: held on everything explored; 1: VIOLATION; 2: could not run."""
import importlib, os, sys, traceback
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2].replace("--", "").replace("tier=", "")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import vp
from checks import registry

def main():
    pid = sys.argv[1]
    try:
        rc = registry.CHECKS[pid](pid)
    except vp.CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    vp.cleanup()
    sys.stdout.flush()
    os._exit(rc)

main()
