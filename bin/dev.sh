#!/bin/bash
# dev.sh FLAGS -- SUITES: builds the harness once into a persistent dev home
export VP_CACHE=/root/vpcache
cd /verif && python3 - "$@" <<'PY'
import sys; sys.path[:0]=['/verif','/verif/lib']; sys.dont_write_bytecode=True
import vp
from checks import rt
a=sys.argv[1:]
try:
    x,p,b=rt.build([f for f in a if f.startswith('-')])
except rt.BuildFailed as e:
    print(e.what, e.out[-4000:]); vp.cleanup(); sys.exit(1)
r,o=rt.run_prog(b,p,600,[f for f in a if not f.startswith('-')])
print(o[-4000:])
for v in r['violations'] or []: print('V',v['key'],'::',v['what'][:1200])
PY
