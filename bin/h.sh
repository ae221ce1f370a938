#!/bin/bash
# h.sh NAME suite=depth... : builds and runs an in-process harness (development)
cd /verif && python3 - "$@" <<'PY'
import sys; sys.path[:0]=['/verif','/verif/lib']; sys.dont_write_bytecode=True
import os, vp
from checks import inproc, rt
name=sys.argv[1]
into={'c25':'./cmd/xgo'}.get(name)
try:
    b=inproc.build(name, into, os.environ.get("HFLAGS","").split())
except vp.CheckError as e:
    print(e); vp.cleanup(); sys.exit(1)
r,o=rt.run_prog(b,vp.scratch(),600,sys.argv[2:],env={"VP_SCRATCH":inproc.mem_scratch(),"VP_REPO":vp.REPO,"VERIF_HARNESS":"1"})
print(o[-int(os.environ.get("HOUT","6000")):])
for v in r['violations'] or []: print('V',v['key'],'::',v['what'][:1500])
vp.cleanup()
PY
