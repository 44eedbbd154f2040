#!/bin/bash
# usage: check.sh <property id>
# Decides one property over /repo's current source. Exit 0: held; exit 1 with
# a VIOLATION line: broken, or undecided (nothing else is ever returned).
id="$1"
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/evidence"
fail() {
	echo "$1" | tee "$here/evidence/$id.violations.txt"
	cat > "$here/evidence/$id.json" <<J
{"property":"$id","tier":"${VERIF_TIER:-quick}","seed":${VERIF_SEED:-1},"level":"other","coverage":{"explanation":"the analysis did not complete: $1"},"wall_s":0,"violations":1}
J
	echo "VIOLATION property=$id replay=$here/evidence/$id.violations.txt"
	exit 1
}
"$here/setup.sh" > "$here/evidence/build.log" 2>&1 || fail "the analyzer could not be built"
limit=400
[ "$VERIF_TIER" = thorough ] && limit=800
ulimit -v 25000000
timeout -k 5 $limit "$here/bin/gcheck" -prop "$id" -verif "$here" 2> "$here/evidence/$id.stderr"
rc=$?
case $rc in
0 | 1) exit $rc ;;
*) fail "the analysis ended abnormally (status $rc)" ;;
esac
