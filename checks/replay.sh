#!/bin/bash
# replay.sh <violation file>: runs the recorded schedule against /repo, printing every system call and the API events
set -e
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
H="$(cd "$(dirname "$0")/../harness" && pwd)"
B=build.sh; if grep -q '^# python' "$1"; then B=pybuild.sh; export VP_PYPKG=$D VP_PYOPS=$H; fi
"$H/$B" "${VERIF_REPO:-/repo}" "$D" >/dev/null
grep -v '^#' "$1" > "$D/s.scn"
"$D/driver" replay "$D/s.scn" "$(sed -n 's/^scenario //p' "$1" | head -1)" $(sed -n 's/^# plan: //p' "$1")
