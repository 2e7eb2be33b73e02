#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds the simulator against /repo's working tree and runs one property's check
set -u
V="$(cd "$(dirname "$0")" && pwd)"
P="$1"; TIER="${2:-quick}"
. "$V/build.sh" || exit 2
#            release runs   checked+traced runs (quick)
case "$P" in
 C01) N=24000; A=5000;;  C02) N=8000;  A=16000;; C03) N=20000; A=12000;; C04) N=18000; A=10000;;
 C05) N=20000; A=5000;;  C06) N=36000; A=16000;; C07) N=4000;  A=14000;; C08) N=16000; A=14000;;
 C09) N=24000; A=18000;;  C10) N=20000; A=8000;;  C11) N=30000; A=12000;;
 *) echo "unknown property $P" >&2; exit 2;;
esac
CAP=200
if [ "$TIER" = thorough ]; then N=$((N * 40)); A=$((A * 40)); CAP=480; fi
exec "$REL" check --prop "$P" --seed "${VERIF_SEED:-1}" --tier "$TIER" --runs "$N" --dir "$V" --max-secs "$CAP" --alt "$CHK" --alt-runs "$A"
