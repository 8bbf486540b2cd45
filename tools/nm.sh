#!/bin/bash
# dev helper: nm.sh PROP NAME [build]: shortest failing inputs of a native contract
P=$1; cd /verif; export MIRVER_DEV=1; B=.build/t-native/debug/n-${P,,}
[ "$3" = build ] && { python3-vt mirver/build.py native $P >/tmp/nt.log 2>&1 || { grep -A9 '^error' /tmp/nt.log|head -60; exit 1; }; grep -A7 DROPPED /tmp/nt.log; }
timeout 300 $B min $2 ${SEED:-1} ${N:-100000} ${S:-30} 2>/dev/null | cut -c1-${W:-3000} | head -${L:-120}
