#!/bin/bash
# usage: run.sh ID...   decides the given properties for /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
bin="$here/bin/checker"
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" \( -name '*.go' -o -name '*.txt' \) -newer "$bin" | head -1)" ]; then
  bash "$here/setup.sh" >/dev/null || { for id in "$@"; do echo "VIOLATION property=$id replay=$here/setup.sh"; done; exit 1; }
fi
exec "$bin" -repo "${REPO:-/repo}" -verif "$here" "$@"
