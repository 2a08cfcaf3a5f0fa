#!/bin/bash
# Copies the demo kit (library-facing modules of the harness) beside every demo.
H=$(cd "$(dirname "$0")/../.." && pwd)
K="$H/tools/demo_kit"
for d in "$H"/seeded/*/; do
  mkdir -p "$d/kit/src"
  cp "$H"/harness/src/{adv,field,recfs,runner,spec,sys,tpc}.rs "$d/kit/src/"
  cp "$K/src/lib.rs" "$d/kit/src/lib.rs"
  sed -e 's#name = "zokverif"#name = "kit"#' -e 's#path = "/repo"#path = "@REPO@"#' -e "s/^opt-level = .*/opt-level = 0/" "$H/harness/Cargo.toml" > "$d/kit/Cargo.toml"
  sed -e 's#name = "zokverif"#name = "kit"#' "$H/harness/Cargo.lock" > "$d/kit/Cargo.lock"
  cp "$K/demo.sh" "$d/demo.sh"; chmod +x "$d/demo.sh"
done
