#!/bin/bash
# tools/determinism.sh CRATE PROP N: same runs in several processes and worker counts must log identically.
b=/verif/target/$1/release/$1; ref=
for seed in 1 7 42; do ref=
for w in 1 3 8 8 5; do
  h=$(VERIF_SEED=$seed SIM_WORKERS=$w $b determinism $2 $3 | sha256sum)
  [ -z "$ref" ] && ref=$h; [ "$h" = "$ref" ] || { echo "DIVERGED $2 seed=$seed workers=$w"; exit 1; }
done; done; echo "deterministic $2 ($3 runs x 5 processes x 3 seeds)"
