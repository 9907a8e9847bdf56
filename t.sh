#!/bin/bash
# dev helper: build and run some properties
. /verif/env.sh; cd /verif/core && cargo build --offline 2>&1 | grep -E "^(error|warning: unused)" -A9 | head -${LINES_MAX:-80}
mkdir -p /tmp/v; cp /verif/KNOWN_FINDINGS.txt /tmp/v 2>/dev/null
for p in "$@"; do timeout 900 /verif/target/debug/verif_core run $p ${TIER:-quick} ${SEED:-1} /tmp/v | tail -40; done
