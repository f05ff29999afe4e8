#!/bin/bash
# Nothing has to be prepared: every check builds its own harness from /repo's
# working tree.  This warms the build cache.
cd "$(dirname "$0")" || exit 1
exec ./check --build-all
