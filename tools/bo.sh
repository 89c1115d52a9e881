#!/bin/bash
# developer helper: build bin/verifo (overlay build)
. /opt/vp/env.sh
cd "$(dirname "$0")/../engine" && o=/tmp/ov && mkdir -p $o && g=${VERIF_REPO:-/repo}/circuits/gadgets && cp ovsrc/pairing_verif.go.txt $o/pairing_verif.go && . ../tools/mkov_o.sh && go run ./cmd/mkoverlay $o $ovargs && go build -tags overlay -overlay $o/overlay.json -o ../bin/verifo ./cmd/verifa
