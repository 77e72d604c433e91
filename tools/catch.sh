#!/bin/bash
# Runs checks on planted bugs, in a scratch copy of /verif and /repo.
# tools/catch.sh ["ID..." ["CHECK..."]]: default all planted bugs; the checks of their properties
S=$(mktemp -d); trap 'rm -rf "${S:?}"' EXIT
mkdir "$S/verif"
cp -a "${REPO:-/repo}" "$S/repo"
cp -a "${VERIF:-/verif}"/{harness,corpus,check.sh,build.sh,known-findings.txt,MANIFEST.json,properties.jsonl,target} "$S/verif/"
sed -i "s#path = \"[^\"]*repo\"#path = \"$S/repo\"#" "$S/verif/harness/Cargo.toml"
cd "$S/repo"; git checkout -q -- .
bugs=${1:-$(ls ${SEEDED:-/verif/seeded})}
[ $# -gt 0 ] && shift
for id in $bugs; do
  p=$(python3 -c "import json;print(json.load(open('${SEEDED:-/verif/seeded}/$id/meta.json'))['property'])")
  git apply "${SEEDED:-/verif/seeded}/$id/patch.diff" || continue
  for c in ${1:-$p}; do
    out=$("$S/verif/check.sh" "$c" quick 2>&1); rc=$?
    echo "$id [$p] $c rc=$rc $(echo "$out" | grep -m1 -o '^VIOLATION property=[^ ]*')"
    [ $rc -gt 1 ] && echo "$out" | tail -5
  done
  git checkout -q -- .
done
