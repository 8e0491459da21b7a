#!/bin/bash
# Runs the test in demo.rs (beside this file) against the pallet's current source, in a scratch copy of the sources.
# cwd: /repo, after the build. Exit 0: the test passes.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/demo.conf"   # PALLET=<folder under pallets>
repo=$(pwd)
S=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$S"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.81.0-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$repo/target" SKIP_WASM_BUILD=1 CARGO_TERM_COLOR=never RUST_LOG=off
for t in pallets macros polimec-common runtimes nodes integration-tests README.md LICENSE; do cp -a "$repo/$t" "$S/$t"; done
cp "$repo/Cargo.lock" "$S/"
python3 - "$repo/Cargo.toml" "$S/Cargo.toml" <<'P'
import re, sys
t = open(sys.argv[1]).read()
m = ["pallets/democracy", "pallets/elections-phragmen", "pallets/on-slash-vesting", "macros", "macros/tests"]
t = re.sub(r"^members\s*=\s*\[[^\]]*\]", "members = [\n" + "".join(f'    "{x}",\n' for x in m) + "]", t, count=1, flags=re.M)
t = re.sub(r"^default-members\s*=\s*\[[^\]]*\]", "", t, count=1, flags=re.M)
open(sys.argv[2], "w").write(t)
P
case $PALLET in
democracy)
	cp "$here/demo.rs" "$S/pallets/democracy/src/tests/vp_demo.rs"
	echo 'mod vp_demo;' >> "$S/pallets/democracy/src/tests.rs" ;;
elections-phragmen)
	# the tests of this pallet are a module at the end of lib.rs: the demonstration goes inside it
	python3 - "$S/pallets/elections-phragmen/src/lib.rs" "$here/demo.rs" <<'P'
import re, sys
t = open(sys.argv[1]).read()
i = re.search(r"^mod tests \{", t, re.M).end()
open(sys.argv[1], "w").write(t[:i] + "\nmod vp_demo {\nuse super::*;\n" + open(sys.argv[2]).read() + "\n}\n" + t[i:])
P
	;;
on-slash-vesting)
	cp "$here/demo.rs" "$S/pallets/on-slash-vesting/src/vp_demo.rs"
	printf '#[cfg(test)]\nmod vp_demo;\n' >> "$S/pallets/on-slash-vesting/src/lib.rs" ;;
esac
cd "$S" && cargo test --workspace --lib --offline vp_demo > "$S/log" 2>&1
rc=$?
grep -E "^test .*vp_demo|panicked|^error" -A3 "$S/log" | head -40
grep -q "test .*vp_demo.* \.\.\. ok" "$S/log" || { tail -30 "$S/log"; exit 1; }
exit $rc
