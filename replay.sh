#!/bin/bash
# replay.sh FILE.json : run one reported counterexample against the natively built code (dev profile).
set -e
cd "$(dirname "$0")"
eval "$(python3 - "$1" <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
print(f"H={d['harness']} E={d['entry']} P={','.join(map(str,d['params'])) or '-'} I={d['input']}")
P
)"
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$PWD/target
(cd harness/$H && cargo build --offline --features native -q)
f=$(mktemp); echo "$E $P $I" > $f; target/debug/$H $f; rm -f "$f"
