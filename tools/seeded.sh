#!/bin/bash
# seeded.sh [id...]: confirm each planted bug in a scratch copy of /repo (it applies, builds, passes the
# stable tests, its demo passes without and fails with it). Not used by any check.
ids=${*:-$(ls /verif/seeded)}
one() {
  id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/seeded.XXXXXX); r=$w/repo
  git clone -q /repo "$r" && cp /repo/Cargo.lock "$r/" 2>/dev/null
  cd "$r" || exit
  cp -a "$d" "$w/demo"
  bash "$w/demo/demo.sh" >"$w/o1" 2>&1; a=$?
  git apply "$d/patch.diff" >"$w/o2" 2>&1; ap=$?
  t=$(CARGO_TARGET_DIR=$w/t cargo test --workspace --no-fail-fast --offline -- --test-threads 4 2>&1 | tee "$w/o3" | grep "^test result" | awk '{p+=$4; f+=$6} END {print p"/"f}')
  bash "$w/demo/demo.sh" >"$w/o4" 2>&1; b=$?
  ok=BAD; [ $a = 0 ] && [ $ap = 0 ] && [ $b != 0 ] && [ $b != 3 ] && [ "$t" = 27/0 ] && ok=ok
  echo "$ok $id unpatched=$a apply=$ap tests=$t patched=$b :: $(grep -v '^note' "$w/o4" | tail -2 | tr '\n' ' ' | cut -c1-150)"
  [ $ok = BAD ] && { mkdir -p /tmp/plant/bad; cat "$w/o1" "$w/o2" > /tmp/plant/bad/$id.txt; grep -E "^error|FAILED|panicked" -A4 "$w/o3" | head -40 >> /tmp/plant/bad/$id.txt; tail -5 "$w/o4" >> /tmp/plant/bad/$id.txt; }
  rm -rf "$w"
}
export -f one
printf '%s\n' $ids | xargs -P 6 -I{} bash -c 'one {}'
