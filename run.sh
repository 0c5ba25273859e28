#!/bin/bash
# Builds the simulator's orchestrator and runs it: run.sh check PROPERTY quick|thorough,
# run.sh replay FILE, run.sh determinism [PROPERTY...].
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export VSIM_VERIF="$here"
bin="$(mktemp -d)/vsim" || exit 2
trap 'rm -rf "${bin%/vsim}"' EXIT
(cd "$here/sim" && go build -o "$bin" ./cmd/vsim) || exit 2
"$bin" "$@"
exit $?
