#!/bin/bash
# Demonstrates the defects of the base commit that were repaired by the fix: commits.
# usage: run.sh [repo]   (a scratch copy of the repository; default /repo)
here=$(cd "$(dirname "$0")" && pwd); repo=${1:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
o=$(mktemp)
cat > "$o" <<J
{"Replace": {
"$repo/zz_defects_test.go": "$here/main_defects_test.go",
"$repo/balance/zz_defects_test.go": "$here/balance_defects_test.go",
"$repo/cache/zz_defects_test.go": "$here/cache_defects_test.go",
"$repo/codec/zz_defects_test.go": "$here/codec_defects_test.go",
"$repo/codec/hyperjson/zz_defects_test.go": "$here/hyperjson_defects_test.go"}}
J
cd "$repo" && for t in $(grep -ho 'TestDefect_[A-Za-z]*' "$here"/*_test.go | sort -u); do
  if go test -overlay "$o" -vet=off -count=1 -timeout 120s -run "^$t\$" ./... >/tmp/defect.out 2>&1; then echo "ok   $t"; else echo "FAIL $t: $(grep -m1 -E '_test.go:|fatal error' /tmp/defect.out)"; fi
done
rm -f "$o" /tmp/defect.out
