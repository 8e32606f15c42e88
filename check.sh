#!/bin/bash
# usage: check.sh build | check.sh PROPERTY [quick|thorough] | check.sh replay FILE
cd "$(dirname "$0")" || exit 2
mkdir -p harness/target evidence/replay
prop=$1
[ "$1" = replay ] && prop=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
# one binary per area: an interface change in one part of the library cannot disturb the checks of another
case "$prop" in
  build) bins="mc_cell mc_pg mc_tab mc_num mc_sg mc_py" ;;
  C0[1-7] | C1[2-4]) bins=mc_cell ;;
  C08 | C09) bins=mc_pg ;;
  C10 | C24) bins=mc_tab ;;
  C11 | C25) bins=mc_num ;;
  C23 | C33) bins=mc_py ;;
  *) bins=mc_sg ;;
esac
build() {
  # Cargo goes by modification time; go by content so that every tree state is rebuilt from source.
  local now b old
  now=$( { find /repo/src /repo/.cargo /repo/Cargo.toml /repo/Cargo.lock harness/src harness/Cargo.toml -type f 2>/dev/null | sort | xargs sha256sum; rustc -V; } | sha256sum)
  old=$(cat harness/target/.content 2>/dev/null)
  if [ "$now" != "$old" ]; then
    rm -f harness/target/.content harness/target/.built.*
    find harness/target/release/.fingerprint -maxdepth 1 \( -name 'cryst-symm-*' -o -name 'mc-*' \) -exec rm -rf {} + 2>/dev/null
    echo "$now" >harness/target/.content
  fi
  for b in $bins; do
    if [ ! -f "harness/target/.built.$b" ] || [ ! -x "harness/target/release/$b" ]; then
      (cd harness && cargo build --release --offline --bin "$b" >target/build.log 2>&1) || { cat harness/target/build.log >&2; echo "build failed" >&2; return 2; }
      touch "harness/target/.built.$b"
    fi
  done
}
exec 9>harness/target/.lock
flock 9
build || exit 2
[ "$prop" = build ] && exit 0
# run a private copy so that a rebuild by another check cannot change a running one
find harness/target -maxdepth 1 -name 'run.*' -mmin +600 -exec rm -rf {} + 2>/dev/null
run=$(mktemp -d "$PWD/harness/target/run.XXXXXX") || exit 2
trap 'rm -rf "$run"' EXIT
cp "harness/target/release/$bins" "$run/$bins" || exit 2
if [ "$bins" = mc_py ]; then
  cp harness/target/release/deps/libcrystsymm.so "$run/crystsymm.so" || exit 2
fi
flock -u 9
ulimit -v 16000000
if [ "$1" = replay ]; then
  "$run/$bins" replay "$2"
else
  "$run/$bins" "$1" "${2:-${VERIF_TIER:-quick}}"
fi
