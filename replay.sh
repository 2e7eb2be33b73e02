#!/bin/bash
# replay.sh FILE: replays a recorded violation against /repo's current working tree (exit 1: it happens again)
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/build.sh" || exit 2
if grep -q '^build checked' "$1"; then exec "$CHK" replay "$1"; else exec "$REL" replay "$1"; fi
