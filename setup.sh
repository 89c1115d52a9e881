#!/bin/bash
# Warms the Go build cache; every check builds what it needs itself.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d /tmp/verif-setup-XXXXXX); trap 'rm -rf "$work"' EXIT
cp "$here/engine/go.mod" "$here/engine/go.sum" "$work/"
cd "$here/engine" && go build -modfile "$work/go.mod" -o "$work/verifa" ./cmd/verifa
go build -modfile "$work/go.mod" -o "$work/verifn" ./cmd/verifn
