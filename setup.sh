#!/bin/bash
# Builds the analyser from the committed files and warms the build cache.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=readonly GOWORK=off
mkdir -p "$here/.bin" "$here/evidence"
cd "$here/checker"
go build -o "$here/.bin/orchverif" ./cmd/orchverif
unset GOFLAGS GOWORK
"$here/.bin/orchverif" -repo /repo -verif "$here" -tier quick J01 >/dev/null || true
