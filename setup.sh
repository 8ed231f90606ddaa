#!/bin/bash
# Builds the checker from /verif/checker (offline).
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/bin" "$here/evidence"
cd "$here/checker" && go build -o "$here/bin/checker" .
