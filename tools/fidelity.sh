#!/bin/bash
# fidelity.sh [CASES [SEED]]: runs the processes of the plans the checks draw, without injected faults, with
# the transformed tools in the simulator and with the real tools on the real kernel (as an
# unprivileged user in a scratch root directory) and compares trees, output and exit status.
# Development only: it validates the transformation and the simulated machine; no check needs it.
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/fidelity-build.XXXXXX)
trap 'rm -rf "$W"' EXIT
export PATH=/opt/vp/bin:/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off
bash "$HERE/sim/build.sh" "$W/b" >"$W/log" 2>&1 || { cat "$W/log"; exit 2; }
mkdir "$W/real"
(cd /repo && for t in buildifier buildozer unused_deps generatetables; do CGO_ENABLED=0 go build -o "$W/real/$t" ./$t; done)
[ -d /repo/warn/docs/proto ] && (cd /repo && CGO_ENABLED=0 go build -o "$W/real/docs" ./warn/docs)
"$W/b/simcheck" -fidelity "$W/real" -cases "${1:-60}" -seed "${2:-1}"
