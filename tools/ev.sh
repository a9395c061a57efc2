#!/bin/bash
# ev.sh BIN TIER SEED PROP... : runs monitors and prints what they observed
cd "$(dirname "$0")/../harness" || exit 2
b=$1 t=$2 s=$3; shift 3
export VERIF_SCRATCH=$(mktemp -d)
for p in "$@"; do echo "== $p"; rm -f /tmp/o.json; timeout 900 target/debug/$b $p $t $s /tmp/o.json 2>&1 | tail -12 | cut -c1-900; [ -f /tmp/o.json ] && python3 -c "
import json;d=json.load(open('/tmp/o.json'));print(d['events'])"; done
rm -rf "$VERIF_SCRATCH"
