#!/bin/bash
# check.sh PROPERTY        explore one property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE     run a replay file again
# check.sh selftest [ID..] determinism test of the simulator
# check.sh warm            build everything once
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here" GO111MODULE=off GOFLAGS= GOTOOLCHAIN=local GOPROXY=off GOENV=off
if [ -z "$HOME" ]; then export HOME=/tmp; fi
bin=$(mktemp /tmp/simctl.XXXXXX) || exit 2
trap 'rm -f "$bin"' EXIT
(cd "$here/sim/simctl" && CGO_ENABLED=0 go build -o "$bin" .) || exit 2
case "$1" in
replay|selftest|warm|build) "$bin" "$@" ;;
*) "$bin" check "$@" ;;
esac
exit $?
