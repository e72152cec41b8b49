#!/bin/bash
# trial.sh <patch> [property...]: tries a planted bug on scratch copies of /repo and the harness;
# prints whether it builds and passes the tests, and which checks report it.
patch="$(readlink -f "$1")"; shift
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=(C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28)
d="$(mktemp -d /tmp/trial-XXXXXX)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/repo" "$d/v"
git -C /repo archive HEAD | tar x -C "$d/repo"
cp -a /verif/harness "$d/v/harness" 2>/dev/null; cp /verif/known_findings.txt "$d/v/"
[ -e /repo/Cargo.lock ] && cp /repo/Cargo.lock "$d/repo/"
(cd "$d/repo" && git init -q . && git apply "$patch") || { echo "patch does not apply"; exit 2; }
sed -i "s#path = \"/repo\"#path = \"$d/repo\"#" "$d/v/harness/Cargo.toml"
if [ -z "$NOTESTS" ]; then
  (cd "$d/repo" && CARGO_TARGET_DIR="$d/t" cargo test --offline --lib >"$d/tests.log" 2>&1); grep -E "^error|test result|FAILED|failed" "$d/tests.log" | head -5
fi
cd "$d/v/harness"; find target -path '*/.fingerprint/*' -maxdepth 6 -type d \( -name 'lolcode*' -o -name 'lcmon*' \) -exec rm -rf {} + 2>/dev/null
RUSTFLAGS="--cfg lolcode_verif" cargo build --offline >"$d/b.log" 2>&1 || { grep -A5 ^error "$d/b.log" | head -20; echo "NO BUILD"; exit 2; }
export LCMON_ROOT="$d/v" LCMON_REPO="$d/repo"
for i in "${ids[@]}"; do
  out="$(./target/debug/lcmon check $i 2>&1)"; c=$?
  case $c in 0) echo "$i quiet" >>"$d/out";; 1) echo "$i CAUGHT: $(echo "$out" | grep "^$i:" | head -1 | cut -c1-160)" ;; *) echo "$i code $c $(echo "$out" | tail -1 | cut -c1-300)";; esac
done
echo "quiet: $(sed 's/ quiet//' "$d/out" 2>/dev/null | tr '\n' ' ')"
