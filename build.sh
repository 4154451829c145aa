#!/bin/bash
# Builds the simulation binaries from /repo's current working tree and /verif/src.
# Prints the directory that holds them. Exit 2 on failure.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
OUT="$HERE/.build"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on CGO_ENABLED=0
mkdir -p "$OUT"
fail() { echo "build: $*" >&2; exit 2; }
key() {
  { go version
    (cd "$REPO" && find . -name .git -prune -o -type f \( -name '*.go' -o -name go.mod -o -name go.sum -o -name '*.s' \) ! -name '*_test.go' -print0 | sort -z | xargs -0 sha256sum)
    (cd "$HERE" && find src build.sh -type f -print0 | sort -z | xargs -0 sha256sum)
  } | sha256sum | cut -c1-24
}
exec 9>"$OUT/lock"
flock 9
K="$(key)" || fail "hashing"
D="$OUT/$K"
if [ -f "$D/ok" ]; then touch "$D/ok"; echo "$D"; exit 0; fi
# keep the disk small: drop all but the two latest builds
ls -1dt "$OUT"/*/ok 2>/dev/null | tail -n +3 | while read -r f; do d="$(dirname "$f")"; case "$d" in "$OUT"/?*) rm -rf "$d";; esac; done
rm -rf "$D"; mkdir -p "$D/w/pol" || fail "mkdir"
(
  set -e
  cp "$REPO/go.mod" "$D/w/pol/list.mod"; cp "$REPO/go.sum" "$D/w/pol/list.sum"
  (cd "$HERE/src/instr" && go build -o "$D/polinstr" .)
  "$D/polinstr" "$REPO" "$D/w/pol" > "$D/uninstrumented.txt"
  rm "$D/w/pol/list.mod" "$D/w/pol/list.sum"
  cp "$REPO/go.mod" "$D/w/pol/go.mod"; cp "$REPO/go.sum" "$D/w/pol/go.sum"
  cp -r "$HERE/src/simrt" "$D/w/simrt"
  cp -r "$HERE/src/sim" "$D/w/sim"
  M="$(cd "$REPO" && go list -m -f '{{.Dir}}' github.com/IBM/mathlib)"
  cp -r "$M" "$D/w/mathlib"; chmod -R u+w "$D/w/mathlib"
  cp "$HERE/src/ideal/bn254.go" "$D/w/mathlib/driver/gurvy/bn254.go"
  for m in pol mathlib; do
    (cd "$D/w/$m" && go mod edit -require=simrt@v0.0.0 -replace=simrt=../simrt)
  done
  (cd "$D/w/pol" && go mod edit -replace=github.com/IBM/mathlib=../mathlib)
  cd "$D/w/sim"
  cp go.mod.in go.mod
  for v in ideal real; do
    cp go.mod.in go.$v.mod; cp "$REPO/go.sum" go.$v.sum
    sed -n '/^require/,/^)/p' "$REPO/go.mod" >> go.$v.mod
    go mod edit -require=pol@v0.0.0 -replace=pol=../pol -require=simrt@v0.0.0 -replace=simrt=../simrt go.$v.mod
    [ $v = real ] || go mod edit -replace=github.com/IBM/mathlib=../mathlib go.$v.mod
    go build -modfile=go.$v.mod -o "$D/polsim-$v" .
  done
) >"$D/log" 2>&1 || { cat "$D/log" >&2; fail "see $D/log"; }
rm -rf "$D/w/mathlib"
touch "$D/ok"
echo "$D"
