#!/bin/bash
# Confirms planted bugs in a scratch copy of /repo: the patch applies, the tree builds, the
# stable tests pass, the demonstration passes without it and fails with it.
# tools/confirm.sh [ID...]
S=$(mktemp -d); trap 'rm -rf "${S:?}"' EXIT
cp -a "${REPO:-/repo}" "$S/repo"; cd "$S/repo"
[ $# = 0 ] && set -- $(ls ${SEEDED:-/verif/seeded})
for id in "$@"; do
  d=${SEEDED:-/verif/seeded}/$id; git checkout -q -- .
  bash "$d/demo.sh" >"$S/clean" 2>&1; c=$?
  git apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; continue; }
  if ! cargo build --offline -q 2>"$S/b"; then echo "$id: DOES NOT BUILD"; head -20 "$S/b"; continue; fi
  cargo test --offline >"$S/t" 2>&1; t=$?
  bash "$d/demo.sh" >"$S/patched" 2>&1; p=$?
  if [ $c = 0 ] && [ $t = 0 ] && [ $p != 0 ]; then echo "$id: ok"; else
    echo "$id: BAD clean=$c tests=$t patched=$p"; grep -E "^test .*FAILED|panicked" "$S/t" | head -5; [ $c != 0 ] && tail -5 "$S/clean"; fi
done
