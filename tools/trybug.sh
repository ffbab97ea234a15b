#!/bin/bash
# trybug.sh BUG|FILE.diff|- FROM TO [PROFILE]: runs plain seeds against a scratch
# copy of the repository with a planted change ("-": the copy's current state).
# Development aid; the checks themselves always use /repo.
. /opt/vp/env.sh
SIMSRC=${SIMSRC:-/verif/sim}
W=${TRYDIR:-/tmp/try}
if [ ! -d $W/repo ]; then mkdir -p $W; git clone -q /repo $W/repo; fi
cd $W/repo || exit 2
if [ "$1" != - ]; then
  git checkout -q -- . ; git fetch -q; git reset -q --hard origin/HEAD
  f=/verif/seeded/$1/patch.diff; [ -f "$1" ] && f=$1
  git apply "$f" || exit 2
fi
sed "s#/repo/interchaintest#$W/repo/interchaintest#; s#/repo\$#$W/repo#; s#/verif/sim#$SIMSRC#" $SIMSRC/go.work > $W/go.work
[ -f $SIMSRC/go.work.sum ] && cp $SIMSRC/go.work.sum $W/go.work.sum
(cd $SIMSRC/../seams && GOWORK=off go build -o $W/seamgen .) && $W/seamgen $W/repo $SIMSRC $W/overlay || exit 2
cd $SIMSRC && GOWORK=$W/go.work go build -overlay $W/overlay/overlay.json -o $W/sim . || exit 2
shift
A=$1; B=$2; shift 2
N=8; S=$(( (B-A+N-1)/N ))
for i in $(seq 0 $((N-1))); do
  x=$((A+i*S)); y=$((x+S)); [ $y -gt $B ] && y=$B; [ $x -ge $y ] && continue
  $W/sim seeds $x $y "$@" > $W/out.$i 2>&1 &
done
wait
cat $W/out.* | grep -a "^seed\|^panic" | cut -c1-240 | sort | head -${LINES_MAX:-3}
echo "$(cat $W/out.* | grep -ac '^seed') of $((B-A)) seeds; by property: $(cat $W/out.* | grep -a "^prop" | cut -d' ' -f2 | sort | uniq -c | awk '{printf "%s:%s ",$2,$1}')"
rm -f $W/out.*
