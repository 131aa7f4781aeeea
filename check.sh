#!/bin/bash
# Usage: ./check.sh <property> [--case NAME] [--list]
# Rebuilds harness and command from /repo's working tree, runs one property's
# monitors and exits 0 (held), 1 (violation) or 2 (inconclusive).
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property id}; shift
export HOME=${HOME:-/root} PATH="/usr/local/bin:/usr/local/go/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
tier=${VERIF_TIER:-quick}; seed=${VERIF_SEED:-1}
extra=()
while [ $# -gt 0 ]; do
  case "$1" in
    --case) extra+=(-case "$2"); shift 2;;
    --list) extra+=(-list); shift;;
    *) echo "unknown argument $1"; exit 2;;
  esac
done
S=$(mktemp -d /tmp/verif-XXXXXX) || exit 2
chmod 755 "$S"
trap 'rm -rf "$S"' EXIT
race=()
cgo=0
if [ "$prop" = C21 ]; then race=(-race); cgo=1; fi
mkdir -p "$S/bin" "$S/w"
out=${VERIF_OUT:-$here}
mkdir -p "$out/evidence" "$out/replays"
rm -f "$out/evidence/$prop.json"
# VERIF_REPO (development only) points the build at a scratch copy of /repo.
repo=${VERIF_REPO:-/repo}
mod=()
if [ "$repo" != /repo ]; then
  sed "s#=> /repo#=> $repo#" "$here/harness/go.mod" >"$S/alt.mod"; cp "$here/harness/go.sum" "$S/alt.sum"; mod=(-modfile "$S/alt.mod")
fi
# For the chunk counter: the harness with a look at functions inside the crypto
# package, as far as there are any of these names and types.
built=
case $prop in C09|C10)
  for tags in inpkg,inpkgnonce inpkg ''; do
    [ -n "$tags" ] || break
    map="\"$repo/crypto/zz_verif_seal.go\":\"$here/harness/inpkg/seal.go\""
    [ "$tags" = inpkg ] || map="$map,\"$repo/crypto/zz_verif_nonce.go\":\"$here/harness/inpkg/nonce.go\""
    printf '{"Replace":{%s}}' "$map" >"$S/inpkg.json"
    (cd "$here/harness" && CGO_ENABLED=0 go build -mod=readonly "${mod[@]}" -tags "$tags" -overlay "$S/inpkg.json" -o "$S/bin/harness" .) 2>"$S/inpkg.err" && { built=1; break; }
  done
esac
[ -n "$built" ] || (cd "$here/harness" && CGO_ENABLED=$cgo go build -mod=readonly "${mod[@]}" "${race[@]}" -o "$S/bin/harness" .) || { echo "INCONCLUSIVE: harness does not build"; exit 2; }
(cd "$repo" && CGO_ENABLED=0 go build -mod=readonly -o "$S/bin/psignify" ./cmd/psignify) || { echo "INCONCLUSIVE: command does not build"; exit 2; }
# A variant of the harness whose base64 package is a buffered stand-in, for
# messages of gigabytes; where it does not build, those workloads take the
# slow way.
fast=
case $prop in C07|C08|C09|C10|C27)
  map=
  for f in "$repo"/base64/*.go; do
    case $f in *_test.go) continue;; esac
    to=; [ -n "$map" ] || to=$here/harness/fast/coding.go
    map="$map${map:+,}\"$f\":\"$to\""
  done
  printf '{"Replace":{%s}}' "$map" >"$S/fast.json"
  (cd "$here/harness" && CGO_ENABLED=0 go build -mod=readonly "${mod[@]}" -overlay "$S/fast.json" -o "$S/bin/harness-fast" .) 2>"$S/fast.err" && fast=$S/bin/harness-fast && chmod 755 "$fast"
esac
# The same for a 32-bit platform whose programs run here.
if [ "$prop" = C27 ]; then
  export GOARCH=386
  mkdir -m 755 "$S/bin/32"
  (cd "$here/harness" && CGO_ENABLED=0 go build -mod=readonly "${mod[@]}" -o "$S/bin/32/harness" .) || { echo "INCONCLUSIVE: 32-bit harness does not build"; exit 2; }
  (cd "$repo" && CGO_ENABLED=0 go build -mod=readonly -o "$S/bin/32/psignify" ./cmd/psignify) || { echo "INCONCLUSIVE: 32-bit command does not build"; exit 2; }
  (cd "$here/harness" && CGO_ENABLED=0 go build -mod=readonly "${mod[@]}" -overlay "$S/fast.json" -o "$S/bin/32/harness-fast" .) 2>"$S/fast.err"
  chmod 755 "$S"/bin/32/*
  unset GOARCH
fi
chmod 755 "$S/bin" "$S/bin/psignify" "$S/w"
"$S/bin/harness" run -prop "$prop" -tier "$tier" -seed "$seed" -cli "$S/bin/psignify" -fast "$fast" -scratch "$S/w" \
  -evidence "$out/evidence/$prop.json" -replaydir "$out/replays" -known "$here/known-findings.txt" "${extra[@]}"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || rc=2
exit $rc
