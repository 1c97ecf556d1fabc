#!/bin/bash
# run.sh <property id> [quick|thorough]: build the checker if needed, then decide one
# property from /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property id}
tier=${2:-${VERIF_TIER:-quick}}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on GOSUMDB=off CGO_ENABLED=0
export VERIF_DIR="$here"
unset GOOS GOARCH
bin=$(mktemp -d /tmp/verifchk.XXXXXX) || exit 1
trap 'find "$bin" -delete' EXIT
log="$bin/build.log"
if ! (cd "$here/checker" && go build -o "$bin/checker" . ) >"$log" 2>&1; then
	cat "$log"
	mkdir -p "$here/evidence"
	cp "$log" "$here/evidence/$id.report.txt"
	echo "checker does not build"
	echo "VIOLATION property=$id replay=$here/evidence/$id.report.txt"
	exit 1
fi
"$bin/checker" "$id" "$tier"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	echo "checker ended with status $rc (undecided)"
	echo "VIOLATION property=$id replay=$here/evidence/$id.report.txt"
	exit 1
fi
exit $rc
