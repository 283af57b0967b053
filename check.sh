#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the analyser (cached) and decides PROPERTY on /repo's current working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=readonly GOWORK=off
id="$1"; tier="${2:-quick}"
bin="$here/.bin/orchverif"
mkdir -p "$here/.bin" "$here/evidence"
if ! (cd "$here/checker" && go build -o "$bin.$$" ./cmd/orchverif && mv "$bin.$$" "$bin"); then
  echo "cannot build the analyser" >&2
  exit 3
fi
unset GOFLAGS GOWORK
exec "$bin" -repo /repo -verif "$here" -tier "$tier" "$id"
