#!/bin/bash
# dev.sh <check> [target...]: build and run each target with seed ${S:-1} (development only)
cd "$(dirname "$(readlink -f "$0")")/.."; V=$PWD; c=$1; shift; python3 tools/build.py $c > /tmp/dev.log 2>&1 || { grep -E "error|undefined" /tmp/dev.log | grep -v ccache | head -${L:-15}; exit 1; }
v=$(grep -m1 -oE "variant: (rt|san)" $V/checks/$c.cc | cut -d' ' -f2)
mkdir -p /tmp/devcwd; cd /tmp/devcwd
for s in ${S:-1}; do for t in ${@:-ALL}; do o="--only $t"; [ $t = ALL ] && o=; timeout ${T:-120} $V/_build/$v/bin/$c --seed $s --tier ${TIER:-quick} --property $c $o --known $V/known_findings.txt --replays $V/replays --out /tmp/e.json 2>&1 | cut -c1-${W:-400} | head -${L:-25}; done; done
