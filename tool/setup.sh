#!/bin/bash
# nothing to install: show that the verifier answers and that a false statement is refused
set -e
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > "$d/t.rs" <<'R'
use vstd::prelude::*;
verus! { fn f(x: u32) -> (r: u32) requires x < 10 ensures r == x + 1 { x + 1 } }
R
cat > "$d/u.rs" <<'R'
use vstd::prelude::*;
verus! { fn f(x: u32) -> (r: u32) requires x < 10 ensures r == x { x + 1 } }
R
cd "$d"
verus --crate-type lib t.rs > t.out 2>&1 || { cat t.out; exit 1; }
if verus --crate-type lib u.rs > u.out 2>&1; then echo "a false postcondition was accepted"; exit 1; fi
python3 -c "import json" && cargo --version && verus --version | head -3
