#!/bin/bash
# ./check.sh <property>: decides one property on /repo's current tree (VERIF_TIER, VERIF_SEED).
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
bin=$("$here/setup.sh") || { echo "cannot build gvc"; exit 2; }
cd /repo || exit 2
exec "$bin" check -repo /repo -verif "$here" -prop "$1"
