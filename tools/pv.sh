#!/bin/bash
# dev helper: pv.sh PROP [export] VC...   proves the named contracts (all when none given)
P=$1; shift
export MIRVER_DEV=1; cd /verif
if [ "$1" = export ]; then shift; python3-vt mirver/build.py export $P || exit 1; fi
VCS="$@"
[ -z "$VCS" ] && VCS=$(python3-vt -c "import json;print(chr(10).join(x.split(chr(58))[-1] for x in json.load(open(\".build/$P.mir.json\"))[\"roots\"] if x.split(chr(58))[-1].startswith(\"vc_\")))" | sort -u)
printf '%s\n' $VCS | xargs -P 6 -I{} bash -c "timeout 400 python3-vt mirver/prove.py .build/$P.mir.json {} /tmp/pv_{}.json ${BUDGET:-60} -v > /tmp/pv_{}.log 2>&1; head -1 /tmp/pv_{}.log; grep -v ' ok \[\]' /tmp/pv_{}.log | tail -n +2 | cut -c1-${W:-300} | head -${N:-12}"
