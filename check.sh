#!/bin/bash
# check.sh PROPERTY [TIER]      decide one property (exit 0 held, 1 violation, 2 trouble)
# check.sh replay FILE          re-execute a saved violation
# check.sh build                build everything once, to warm the build cache
# check.sh selftest [ARGS]      determinism of the simulator itself
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GO111MODULE=on CGO_ENABLED=0
export HOME="${HOME:-/root}"
command -v go >/dev/null || export PATH="$PATH:/usr/local/go/bin:/usr/local/sbin:/usr/local/bin"
B="$(mktemp -d "${TMPDIR:-/tmp}/gtctl.XXXXXXXX")" || exit 2
trap 'rm -rf "$B"' EXIT
(cd "$V/sim" && go build -o "$B/simctl" ./ctl) || { echo "check.sh: cannot build the orchestrator" >&2; exit 2; }
R="${VERIF_REPO:-/repo}"
case "${1:-}" in
replay) "$B/simctl" replay -verif "$V" -repo "$R" "$2" ;;
build) mkdir "$B/b" && "$B/simctl" build "$V/sim" "$R" "$B/b" ;;
selftest) shift; "$B/simctl" selftest -verif "$V" -repo "$R" "$@" ;;
*) "$B/simctl" check -verif "$V" -repo "$R" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
