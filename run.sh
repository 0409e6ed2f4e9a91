#!/bin/bash
# usage: run.sh check ID [quick|thorough] | run.sh replay FILE | run.sh setup
# Builds the engine from /verif/engine when no up-to-date binary exists, then
# runs it against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
unset GOFLAGS
bin="$here/.build/gosym"
build() {
  local sum
  sum=$(cat "$here"/engine/*.go "$here"/engine/go.mod | sha256sum | cut -c1-32)
  if [ ! -x "$bin" ] || [ "$(cat "$bin.sum" 2>/dev/null)" != "$sum" ]; then
    mkdir -p "$here/.build"
    local tmp="$bin.$$"
    (cd "$here/engine" && GOFLAGS=-mod=mod go build -o "$tmp" .) || return 1
    mv -f "$tmp" "$bin" && echo "$sum" > "$bin.sum"
  fi
}
case "$1" in
setup)
  build || exit 1
  # warm the build cache with the packages the replay binaries link
  "$bin" -warm -verif "$here" -repo /repo
  exit 0 ;;
check)
  if ! build; then echo "engine did not build"; exit 2; fi
  exec "$bin" -prop "$2" -tier "${3:-${VERIF_TIER:-quick}}" -verif "$here" -repo /repo ;;
replay)
  build || exit 2
  exec "$bin" -replay "$2" -verif "$here" -repo /repo ;;
esac
echo "usage: $0 setup | check ID [tier] | replay FILE"; exit 2
