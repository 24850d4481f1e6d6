#!/bin/bash
# check.sh PROPERTY : builds the engine and the harness from the current tree
# and decides the property. Tier from VERIF_TIER (quick or thorough).
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p out/bin evidence || exit 2
bin="out/bin/engine.$$"
trap 'rm -f "$VERIF_ROOT/$bin"' EXIT
(cd engine && go build -o "../$bin" .) || exit 2
case "$1" in replay|run) "$bin" "$@" ;; *) "$bin" check "$1" ;; esac
exit $?
