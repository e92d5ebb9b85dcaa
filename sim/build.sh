#!/bin/bash
# build.sh OUT [race]: transforms the sources of $SIM_REPO (default /repo) as they are now and builds the simulator
# OUT/simcheck (and OUT/simrace, with the race detector). Everything happens below OUT.
set -e
OUT=$1
MODE=${2:-plain}
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${SIM_REPO:-/repo}
export PATH=/opt/vp/bin:/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=readonly CGO_ENABLED=${CGO_ENABLED:-1}
export HOME=${HOME:-/root}
mkdir -p "$OUT/src" "$OUT/mod"
(cd "$REPO" && tar cf - --exclude=./.git --exclude='*_test.go' --exclude=testdata .) | tar xf - -C "$OUT/src"
if [ ! -f "$OUT/src/warn/docs/proto/docs.pb.go" ] && [ -f "$OUT/src/warn/docs/docs.proto" ]; then
  (cd "$OUT/src" && mkdir -p warn/docs/proto && protoc --go_out=. --go_opt=module=github.com/bazelbuild/buildtools warn/docs/docs.proto) >&2 || echo "protoc failed; the documentation generator is left out" >&2
fi
(cd "$HERE/xform" && go build -o "$OUT/xform" .)
"$OUT/xform" -src "$OUT/src" -out "$OUT/mod"
cp "$OUT/src/go.mod" "$OUT/src/go.sum" "$OUT/mod/"
mkdir -p "$OUT/mod/zsim"
cp -r "$HERE"/zsim/. "$OUT/mod/zsim/"
cp "$OUT/src/launcher.js" "$OUT/launcher.js" 2>/dev/null || true
cp "$OUT/src/buildozer/npm/index.js" "$OUT/index.js" 2>/dev/null || true
cp "$HERE/launcher/launchsim.js" "$HERE/launcher/bindsim.js" "$OUT/"
cd "$OUT/mod"
if [ "$MODE" = race ]; then
  # uninstrumented packages would otherwise allocate without telling the race detector
  GOEXPERIMENT=nosizespecializedmalloc go build -trimpath -race -gcflags=fmt=-race=false -gcflags=strconv=-race=false -gcflags=internal/strconv=-race=false -gcflags=unicode/utf8=-race=false '-gcflags=github.com/bazelbuild/buildtools/zsim/...=-race=false -l' -o "$OUT/simcheck" ./zsim/simcheck
else
  go build -trimpath -o "$OUT/simcheck" ./zsim/simcheck
fi
rm -rf "$OUT/src"
