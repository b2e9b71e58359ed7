#!/bin/bash
# try.sh PROP... : builds and runs some seconds of a property (SEED, MS)
. /opt/vp/env.sh; export GRAPH_DIM=8 CARGO_TARGET_DIR=/verif/target/lib CARGO_INCREMENTAL=0 RUSTFLAGS="--cfg vmon_small_chunks"
if [ -n "$GPL" ]; then F="--features gpl"; unset GRAPH_DIM; export CARGO_TARGET_DIR=/verif/target/gpl; fi
cd /verif/harness/core && $CARGO build --release --offline $F 2>&1 | grep -E "^(error|warning: unused)" -A12 | head -${LINES_MAX:-60}
[ ${PIPESTATUS[0]} = 0 ] || exit 1
for P in "$@"; do
mkdir -p /tmp/vs/$P-${SEED:-1}
timeout 300 $CARGO_TARGET_DIR/release/vmon run --prop $P --seed ${SEED:-1} --shard ${SHARD:-0} --cases ${CASES:-1000000} --budget-ms ${MS:-8000} --dir /tmp/vs/$P-${SEED:-1} --out /tmp/vs/$P-${SEED:-1}.json; echo "$P rc $?"
python3 -c "
import json;r=json.load(open('/tmp/vs/$P-${SEED:-1}.json'));print(r['cases'],r['wall_ms'],len(r['distinct']),r['counters']);print(r.get('violation','')or r.get('error',''))"
done
