#!/bin/bash
# Development only: run a check against a scratch copy of /repo with a patch applied.
# usage: tools/mut.sh PATCH PID [PID...]
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo "$d/repo"
git -C "$d/repo" apply "$p" || { echo "does not apply"; exit 2; }
for pid in "$@"; do
    out=$(PYTHONPATH="$d/repo/src:/verif" VERIF_SEED=${VERIF_SEED:-1} /opt/venv/bin/python /verif/checks/${pid,,}.py 2>&1)
    echo "$pid exit $? $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -m2 -E '^--- |HARNESS' | cut -c1-220)"
done
find "$d" -delete
