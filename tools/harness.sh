#!/bin/bash
# run replay harnesses against /repo: harness.sh ID...
cd "$(dirname "$0")/.."; . /opt/vp/env.sh 2>/dev/null
for id in "$@"; do ./check.sh --replay $id 2>&1 | tail -${LINES_MAX:-15}; done
