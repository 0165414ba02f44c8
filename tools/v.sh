#!/bin/bash
# run the verifier on some properties, short output
for p in "$@"; do echo "== $p"; timeout 900 python3-vt -m engine.verify $p /tmp/w/o_$p.json --jobs ${JOBS:-8} -v 2>&1 | cut -c1-${W:-300} | tail -${N:-12}; done
