#!/bin/bash
# Runs every check under several seeds on a copy of the unchanged tree (or of REPO), in a
# scratch copy of /verif, and prints what was not quiet.
# tools/quiet.sh "SEED..." ["CHECK..."]
S=$(mktemp -d); trap 'rm -rf "${S:?}"' EXIT
mkdir "$S/verif"
cp -a "${REPO:-/repo}" "$S/repo"
cp -a "${VERIF:-/verif}"/{harness,corpus,check.sh,build.sh,known-findings.txt,MANIFEST.json,properties.jsonl,target} "$S/verif/"
sed -i "s#path = \"[^\"]*repo\"#path = \"$S/repo\"#" "$S/verif/harness/Cargo.toml"
all=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$S/verif/MANIFEST.json'))['checks']])" 2>/dev/null)
for seed in $1; do
  for c in ${2:-$all}; do
    t=$SECONDS
    out=$(VERIF_SEED=$seed "$S/verif/check.sh" "$c" quick 2>&1); rc=$?
    echo "seed $seed $c rc=$rc $((SECONDS - t))s"
    [ $rc != 0 ] && echo "$out" | cut -c1-600 | tail -12
  done
done
