#!/bin/bash
# developer helper: build bin/verife (emulated-field overlay build)
. /opt/vp/env.sh
cd "$(dirname "$0")/../engine" && mkdir -p /tmp/ove && g=${VERIF_REPO:-/repo}/circuits/gadgets && o=/tmp/ove && cp ovsrc/pairing_verif.go.txt $o/pairing_verif.go && cp ovsrc/ed25519_verif.go.txt $o/ed25519_verif.go && . ../tools/mkov_e.sh && go run ./cmd/mkoverlay $o $ovargs && go build -tags emuov -overlay $o/overlay.json -o ../bin/verife ./cmd/verife
