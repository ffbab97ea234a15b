#!/bin/bash
# seeds.sh FROM TO [profile]: run seeds in 8 processes (development aid)
a=$1; b=$2; n=$(( (b-a+7)/8 ))
for i in 0 1 2 3 4 5 6 7; do
  f=$((a+i*n)); t=$((f+n)); [ $t -gt $b ] && t=$b
  [ $f -lt $t ] && timeout 900 ${SIM:-/verif/build/sim} seeds $f $t "$3" > /tmp/seeds.$i 2>&1 &
done; wait
cat /tmp/seeds.? | grep -v "^map" | cut -c1-420
