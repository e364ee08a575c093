#!/bin/bash
# Decides one property: bin/check.sh PROPERTY. Seed and tier come from VERIF_SEED and VERIF_TIER.
root=$(cd "$(dirname "$0")/.." && pwd)
case "$1" in
C15 | C16 | C23 | C24) pkg=dst-runner ;;
C25) pkg=dst-pip ;;
*) pkg=dst ;;
esac
"$root/bin/build.sh" $pkg || exit 2
exec "$root/target/release/$pkg" check "$1"
