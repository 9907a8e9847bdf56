#!/bin/bash
# builds the harnesses once, offline
cd "$(dirname "$0")" || exit 2
. ./env.sh
for c in core bevy; do
  [ -d $c ] && { (cd $c && cargo build --offline --quiet) || exit 1; }
done
exit 0
