#!/bin/bash
# builds the simulator once and runs its own self-test
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/build.sh" || exit 2
"$REL" selftest
