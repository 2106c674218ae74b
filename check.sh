#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [engine flags...]
# Builds the engine when needed and decides one property on /repo's tree.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && PATH=$d:$PATH && break
done
export PATH
new=$(ls -t engine/*.go engine/go.mod engine/go.sum 2>/dev/null | head -1)
if [ ! -x bin/semsym ] || [ "$new" -nt bin/semsym ]; then
  bash engine/build.sh "$V/bin/semsym" || { echo "ERROR: the engine does not build"; exit 2; }
fi
p=$1; t=${2:-${VERIF_TIER:-quick}}
shift 2
exec ./bin/semsym check -prop "$p" -tier "$t" -repo "${VERIF_REPO:-/repo}" -verif "$V" "$@"
