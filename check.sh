#!/bin/bash
# check.sh ID quick|thorough: decides one property on /repo's current tree.
V="$(cd "$(dirname "$0")" && pwd)"
P0="$PATH"
. /opt/vp/env.sh || exit 2
export PATH="$PATH:$P0" # lean is not on the path that env.sh sets
for d in /app/lean4*/build/release/stage1/bin /usr/local/bin; do [ -x "$d/lean" ] && PATH="$PATH:$d"; done
if [ ! -x "$V/.bin/gvc" ] || [ -n "$(find "$V/gvc" -name '*.go' -newer "$V/.bin/gvc" -print -quit)" ]; then
	bash "$V/setup.sh" || exit 2
fi
VERIF_DIR="$V" VERIF_REPO=/repo exec "$V/.bin/gvc" check "$1" "${2:-quick}"
