#!/bin/bash
# Builds the checker when needed and runs one check: run.sh ID quick|thorough
set -e
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_REPO="${VERIF_REPO:-/repo}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOTOOLCHAIN=local GOWORK=off
cd "$VERIF_DIR"
mkdir -p bin evidence
go build -o bin/vc.$$ ./cmd/vc
mv bin/vc.$$ bin/vc
case "$1" in
setup) exit 0 ;;
replay) exec bin/vc replay "$2" ;;
run|list) exec bin/vc "$@" ;;
esac
exec bin/vc check "$1" "${2:-quick}"
