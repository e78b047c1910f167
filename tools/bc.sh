#!/bin/bash
# tools/bc.sh PROP HARNESS OUT.bc : keep the linked bitcode of one harness
cd "$(dirname "$0")/.." && python3 - "$@" <<'P'
import sys, shutil, os
sys.argv, (prop, name, out) = [sys.argv[0]], sys.argv[1:4]
import check, concurrent.futures as cf
from checks import CHECKS
h=[h for h in CHECKS[prop]["harnesses"] if h["name"]==name][0]
os.makedirs("/tmp/bcw",exist_ok=True)
bc,err=check.build_harness(dict(h),cf.ThreadPoolExecutor(8),"/tmp/bcw",False)
print(err or bc); 
if bc: shutil.copy(bc,out)
P
