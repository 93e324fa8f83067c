#!/bin/bash
# Renew harness/literals.txt from /repo's sources (after a commit there).
set -e
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
git -C /repo diff --quiet HEAD -- src
"$here/check.sh" build
"$here/target/debug/core" literals >"$here/harness/literals.txt.new"
mv "$here/harness/literals.txt.new" "$here/harness/literals.txt"
