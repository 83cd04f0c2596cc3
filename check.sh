#!/bin/bash
# check.sh PROPERTY       run the check of one property (VERIF_TIER=quick|thorough, VERIF_SEED)
# check.sh build          build only (setup)
# check.sh replay FILE    run one replay file: prints FAILS or PASSES
# VERIF_REPO names another tree of meilihao/water to check (default /repo).
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
export WCHECK_KNOWN=$here/known-findings.txt
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS= CGO_ENABLED=1
go=go1.27.3
command -v $go >/dev/null || go=go

work=$(mktemp -d "${TMPDIR:-/tmp}/wcheck.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT

cp "$here/harness/go.sum" "$work/go.sum"
sed "s|=> /repo\$|=> $repo|" "$here/harness/go.mod" > "$work/go.mod"

build() { # output, flags
	out=$1; shift
	(cd "$here/harness" && $go build -modfile="$work/go.mod" "$@" -o "$out" .) || { echo "CHECK-ERROR: build failed"; exit 2; }
}

case "${1:-}" in
build)
	build "$work/wcheck"
	build "$work/wcheck-race" -race
	;;
replay)
	race=()
	if grep -q '"family": "race"' "$2"; then race=(-race); fi
	build "$work/wcheck" ${race[@]+"${race[@]}"}
	GORACE="halt_on_error=1 exitcode=66" "$work/wcheck" -replay "$2"
	exit $?
	;;
[A-Z][0-9][0-9])
	race=()
	if [ "$1" = L02 ]; then
		build "$work/wcheck-race" -race
		race=(-race-bin "$work/wcheck-race")
	fi
	build "$work/wcheck"
	"$work/wcheck" -property "$1" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$here" ${race[@]+"${race[@]}"}
	exit $?
	;;
*)
	echo "usage: check.sh PROPERTY|build|replay FILE" >&2
	exit 2
	;;
esac
