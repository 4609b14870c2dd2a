#!/bin/bash
# Builds the verifier and runs it: run.sh check PROP | fn NAME... | lemma NAME... | driver PROP
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
export VERIF_DIR="$here"
bin="$here/build/vcg"
mkdir -p "$here/build"
(cd "$here/vcg" && go build -o "$bin" .) || { echo "cannot build the verifier" >&2; exit 2; }
[ "$1" = build ] && exit 0
exec "$bin" "$@"
