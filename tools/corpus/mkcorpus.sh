#!/bin/bash
# mkcorpus.sh: regenerates sim/zsim/simcheck/corpus.json from the tests of /repo (development only).
set -e
T=$(mktemp -d /tmp/mkcorpus.XXXXXX)
trap 'rm -rf "$T"' EXIT
H=$(cd "$(dirname "$0")" && pwd)
sed -n '/^## TEST INPUTS/,$p' /repo/buildozer/buildozer_test.sh | grep -v '^run_suite' > "$T/body.sh"
mkdir "$T/s"
cat > "$T/drv.sh" <<X
run() { python3 -c 'import sys,json; f=open("$T/bz.jsonl","a"); json.dump(sys.argv[1:],f); f.write("\n")' "\$@"; }
run_with_current_workspace() { :; }
for f in assert_equals assert_output assert_err assert_no_output assert_no_diff assert_any_line expect_log die; do eval "\$f() { :; }"; done
source $T/body.sh
for f in \$(declare -F | awk '{print \$3}' | grep '^test'); do ( cd $T/s; TEST_TMPDIR=\$PWD \$f ) >/dev/null 2>&1; done
X
bash "$T/drv.sh" || true
sort -u "$T/bz.jsonl" -o "$T/bz.jsonl"
echo '{"Replace": {"/repo/zzcorpus/main.go": "'$H/mkcorpus.go'"}}' > "$T/o.json"
cd /repo && go build -overlay "$T/o.json" -o "$T/mk" ./zzcorpus
"$T/mk" /repo "$T/bz.jsonl"
