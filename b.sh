#!/bin/bash
# dev helper: build one property's harness in both profiles and run it (b.sh 04 [args])
id=$1; shift
cd /verif/harness
for p in ${PROF:-rel chk}; do
  CARGO_TARGET_DIR=/verif/target cargo build --offline --quiet --profile $p --bin c$id 2>&1 | grep -E "^(error|warning: unused)" -A14 | head -${LINES_MAX:-80}
  [ ${PIPESTATUS[0]} = 0 ] || exit 1
  /verif/target/$p/c$id work --profile $p --out /tmp/vh-$id-$p.json "$@" || { echo "exit $?"; continue; }
  python3 - $p /tmp/vh-$id-$p.json <<'P'
import json,sys
for s in json.load(open(sys.argv[2])):
    print(sys.argv[1],s['sub'],'evals',s['evaluations'],'nontriv',s['nontrivial'],'distinct',s['distinct'],'%.1fs'%s['wall_s'],'known',s['known'])
    if sys.argv[1]=='rel': print('   ',s['labels'])
    if s['failure']: print('   FAIL',s['failure']['sig'],s['failure']['msg'],json.dumps(s['failure']['case'])[:1500])
P
done
