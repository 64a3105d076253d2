#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
# run.sh --build: builds the checker only.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off CGO_ENABLED=0
unset GOROOT GOOS GOARCH
bin=$here/.bin/checker
mkdir -p "$here/.bin" || exit 2
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -name '*.go' -newer "$bin" -print -quit)" ]; then
  (cd "$here/checker" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "the checker does not build" >&2; exit 2; }
fi
[ "${1:-}" = --build ] && exit 0
VERIF_GOROOT=$(go env GOROOT)
export VERIF_GOROOT
exec "$bin" -repo "${VERIF_REPO:-/repo}" -verif "$here" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
