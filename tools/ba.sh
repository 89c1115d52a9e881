#!/bin/bash
. /opt/vp/env.sh
cd "$(dirname "$0")/../engine" && go build -o ../bin/verifa ./cmd/verifa
