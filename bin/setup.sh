#!/bin/bash
# Nothing is installed: every check builds its driver from /repo's working tree.
# This only makes sure that the tools are there, and warms the Go build cache.
set -e
cd "$(dirname "$0")/../harness"
source /opt/vp/env.sh 2>/dev/null || true
command -v java >/dev/null
command -v python3 >/dev/null
GOWORK=off go build -o /dev/null .
