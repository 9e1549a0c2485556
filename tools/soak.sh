#!/bin/bash
# soak.sh FROM TO PROP... : run quick checks for many seeds, keep the output of those which are not quiet
a=$1; b=$2; shift 2
for s in $(seq $a $b); do for p in "$@"; do
  VERIF_SEED=$s flock -s /tmp/repo.lock /verif/check $p >/tmp/soak.$p.$s.out 2>&1; rc=$?
  if [ $rc != 0 ]; then echo "seed $s $p rc=$rc $(tail -1 /tmp/soak.$p.$s.out | cut -c1-150)"; else rm -f "/tmp/soak.$p.$s.out"; fi
done; done; echo soak done $a $b "$@"
