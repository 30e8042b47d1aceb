#!/bin/bash
# regenerates the TLA+ modules that TLC checks from the Quint sources
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here}
tmp=$(mktemp -d)
cd "$tmp"
gen() { # file main init-invariant
  quint compile --target tlaplus --main "$2" --invariant "$3" "$here/../$1" 2>/dev/null | sed -n '/^-----.*MODULE/,$p' > "$out/$2.tla"
  printf 'INIT q_init\nNEXT q_step\nINVARIANT q_inv\nCHECK_DEADLOCK FALSE\n' > "$out/$2.cfg"
}
gen cells.qnt sharing discipline
gen latch.qnt latch latchOk
cd /
rm -rf "$tmp"
