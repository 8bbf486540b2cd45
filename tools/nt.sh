#!/bin/bash
# dev helper: nt.sh PROP [build] [N] [NAME...]  runs native contracts (all when none given)
P=$1; shift; export MIRVER_DEV=1; cd /verif; B=.build/t-native/debug/n-${P,,}
if [ "$1" = build ]; then shift; python3-vt mirver/build.py native $P >/tmp/nt.log 2>&1 || { tail -40 /tmp/nt.log; exit 1; }; grep -q DROPPED /tmp/nt.log && grep -A7 'DROPPED\|^error' /tmp/nt.log | head -60; fi
N=${1:-20000}; shift
NAMES="$@"; [ -z "$NAMES" ] && NAMES=$($B list 2>/dev/null)
printf '%s\n' $NAMES | xargs -P 6 -I{} bash -c "timeout 120 $B run {} ${SEED:-1} $N ${S:-10} 2>/dev/null | cut -c1-${W:-1500} | tail -${L:-6}"
