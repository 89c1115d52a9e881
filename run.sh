#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds the checker against /repo's current working tree and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_DIR=$here
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export GOGC=50
id=$1
rm -f "$here/evidence/$id.json"
mkdir -p "$here/bin" "$here/evidence"
work=$(mktemp -d /tmp/verif-run-XXXXXX)
trap 'rm -rf "$work"' EXIT
repo=${VERIF_REPO:-/repo} # a developer may point the check at a scratch copy
sed "s#=> /repo\$#=> $repo#" "$here/engine/go.mod" >"$work/go.mod"; cp "$here/engine/go.sum" "$work/go.sum"
cd "$here/engine" || exit 2
fail() { cat "$work/err"; echo "ERROR: the checker does not build against /repo"; exit 2; }
bin=verifa; ov=; tags=; ovf=
case "$id" in
R04|T01|T02|T03|T04|P05|G01)
  tags="-tags overlay"; ovf=mkov_o.sh ;;
P01|P02|P03|P04|D01|E02)
  tags="-tags emuov"; bin=verife; ovf=mkov_e.sh ;;
U*|K02|K04|D02)
  bin=verifn; export VERIF_ENGINE=$here/engine VERIF_MODFILE=$work/go.mod ;;
esac
if [ -n "$ovf" ]; then
  go build -modfile "$work/go.mod" -o "$work/mkoverlay" ./cmd/mkoverlay 2>"$work/err" || fail
  mkdir "$work/ov"
  g=$repo/circuits/gadgets o=$work/ov
  cp ovsrc/pairing_verif.go.txt "$o/pairing_verif.go"; cp ovsrc/ed25519_verif.go.txt "$o/ed25519_verif.go"
  . "$here/tools/$ovf"
  "$work/mkoverlay" "$work/ov" $ovargs >"$work/err" 2>&1 || fail
  ov="-overlay $work/ov/overlay.json"
fi
go build -modfile "$work/go.mod" $tags $ov -o "$work/$bin" "./cmd/$bin" 2>"$work/err" || fail
"$work/$bin" "$id"
