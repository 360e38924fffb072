#!/bin/bash
# run.sh PROP [quick|thorough]   decide one property
# run.sh replay FILE [-trace]    replay a recorded failure
# run.sh build                   build everything once
cd /verif || exit 2
export HOME=${HOME:-/root}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=1
mkdir -p .build/bin
go build -o .build/bin/check ./cmd/check || exit 2
case "$1" in
build) exec .build/bin/check -build ;;
replay) f=$2; shift 2; exec .build/bin/check -replay "$f" "$@" ;;
*) exec .build/bin/check -prop "$1" -tier "${2:-quick}" ${3:+-runs $3} ;;
esac
