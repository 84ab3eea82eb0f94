#!/bin/bash
# setup.sh builds the verifier from /verif/gvc (offline).
V="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh || exit 2
mkdir -p "$V/.bin"
cd "$V/gvc" && GOFLAGS=-mod=mod go build -o "$V/.bin/gvc.$$" . && mv "$V/.bin/gvc.$$" "$V/.bin/gvc"
