#!/bin/bash
# Builds the verifier into /verif/build (ignored by git) and prints its path.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/build"
cd "$here/gvc"
GOFLAGS=-mod=mod go build -o "$here/build/gvc" . >&2
echo "$here/build/gvc"
