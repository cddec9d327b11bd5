#!/bin/bash
# check.sh <property>: builds the harness against /repo's working tree and
# decides one property (VERIF_TIER=quick|thorough, VERIF_REPLAY=<file> to re-run one case).
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*'
prop="$1"
repo=/repo
mkdir -p .build evidence
case "$prop" in
  C10|C11|C12|C24|C27) pkg=conc ;;
  *) pkg=seq ;;
esac
bin="$VERIF_ROOT/.build/$pkg-$prop.test"
log="$VERIF_ROOT/.build/$prop.buildlog"
built=
if [ $pkg = conc ]; then
  # instrumented copies of the sources, built in place of the originals
  gen="$VERIF_ROOT/.build/mc-$prop"
  rm -rf "$VERIF_ROOT/.build/mc-$prop"; mkdir -p "$gen"
  if [ -z "$VH_NOINSTR" ] && (cd harness && go run ./mcgen -out "$gen" $repo $repo/tcpnetwork &&
      go test -c -vet=off -overlay "$gen/overlay.json" -o "$bin" ./conc) >"$log" 2>&1; then
    built=1
  else
    echo "check $prop: the instrumented sources do not build; using the originals" >&2
    tail -5 "$log" >&2
  fi
fi
if [ -z "$built" ] && ! (cd harness && go test -c -vet=off -o "$bin" "./$pkg") >"$log" 2>&1; then
  cat "$log" >&2
  echo "check $prop: the harness does not build against /repo" >&2
  exit 2
fi
VH_PROP="$prop" exec "$bin"
