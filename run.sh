#!/bin/bash
# run.sh ID [TIER]: decides one property from the source in /repo.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
"$here/setup.sh" >/dev/null || { echo "cannot build the checker"; "$here/setup.sh"; exit 2; }
exec "$here/bin/verifcheck" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${VERIF_REPO:-/repo}" -dir "$here"
