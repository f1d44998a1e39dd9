#!/bin/bash
# developer helper: k.sh CRATE FEATURE [kani args]
c=$1; f=$2; shift 2
export CARGO_NET_OFFLINE=true PGRX_HOME=/opt/vp/pgrx-home TSDBTK_VERIF=/verif/hooks
unset RUSTUP_TOOLCHAIN CARGO_TARGET_DIR; export RUSTFLAGS="--cfg tsdbtk_verif"
cd /verif/$c && cargo kani --features $f -Z stubbing -Z unstable-options -j 6 --output-format=terse --target-dir /verif/build/$c --export-json /tmp/o.$f.json "$@" > /tmp/k.$f.log 2>&1
grep -E "^error" -A12 /tmp/k.$f.log | head -60
python3 - $f <<'P'
import json,sys
try: d=json.load(open(f'/tmp/o.{sys.argv[1]}.json'))
except Exception as e: print(e); sys.exit()
pd={x['harness_id']:x['property_details'] for x in d['property_details']}
ed={x['harness_id']:x for x in d['error_details']}
for r in sorted(d['verification_results']['results'],key=lambda r:r['harness_id']):
    p=pd[r['harness_id']]
    bad=[c for c in r['checks'] if c['status'] not in('Success','Satisfied','Unreachable') and not c['description'].startswith('NaN on ')]
    print(r['harness_id'],r['status'] if bad or r['status']=='Success' or not r['checks'] else 'Success(nan-ignored)',round(r['duration_ms']/1000,1),'s',p.get('total_properties'),'cover',p.get('satisfied'),'/',(p.get('satisfied')or 0)+(p.get('unsatisfiable') or 0), ed[r['harness_id']].get('exit_status',''))
    for c in bad: print('    ',c['status'],c['category'],c['description'],c['location'].get('file','')[-40:],c['location'].get('line'))
P
