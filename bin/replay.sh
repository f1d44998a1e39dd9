#!/bin/bash
# replay a counterexample against the real code in /repo: replay.sh FILE
python3 - "$1" <<'P'
import json,sys,subprocess,os
r=json.load(open(sys.argv[1]))
if r.get('values') is None:
    print('no failing input; failed obligation:',r['obligation'],r['what']); print(r.get('verifier_output','')); sys.exit(1)
h=r.get('harness') or r['obligation']
sys.exit(subprocess.run([r['runner'],'replay',h,r['values']]).returncode)
P
