#!/bin/bash
# mk.sh ID PROPERTY "needs" "breaks": seeded/ID from /tmp/seed/ID.diff (or the current diff of /repo) and /tmp/seed/ID.rs
set -e
T=$(cd "$(dirname "$0")" && pwd); S=$T/../../seeded/$1; H=$T/../../harness/dex/src
mkdir -p $S/demo/src
if [ -f /tmp/seed/$1.diff ]; then cp /tmp/seed/$1.diff $S/patch.diff; else git -C /repo diff > $S/patch.diff; fi
cp $T/Cargo.toml $T/Cargo.lock $S/demo/; cp $T/demo.sh $S/
cp $T/src/dm.rs $H/rt.rs $H/world.rs $H/vsigner.in $H/srm.in $H/msrm.in $S/demo/src/
(printf '#![allow(dead_code, static_mut_refs, unused_imports, unused_macros, unexpected_cfgs)]\n#[macro_use]\nmod rt;\n#[macro_use]\nmod world;\nmod dm;\nuse dm::*;\nuse world::*;\n'; cat /tmp/seed/$1.rs) > $S/demo/src/main.rs
python3 - "$S/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1],'w'),indent=1)
P
