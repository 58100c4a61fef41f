#!/bin/bash
# run.sh ID: build the checker against /repo's working tree and explore property ID (tier: $VERIF_TIER)
# run.sh build: only build
cd "$(dirname "$0")" || exit 2
export KX_ROOT="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
# cargo goes by file times; a tree laid down with old ones must be rebuilt all the same
sum=$(cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
	rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/kiss-xml-* "$CARGO_TARGET_DIR"/release/.fingerprint/kiss_xml-*
	rm -rf "$CARGO_TARGET_DIR"/pre/release/.fingerprint/kiss-xml-* "$CARGO_TARGET_DIR"/pre/release/.fingerprint/kiss_xml-*
fi
log=$(mktemp) || exit 2
if ! (cd mc && cargo build --release --offline >"$log" 2>&1); then
	echo "ERROR: build failed"; tail -40 "$log"; rm -f "$log"; exit 2
fi
# C31 also needs the library compiled with a call at every basic block
if [ "$1" = build ] || [ "$1" = C31 ]; then
	if ! (cd mc/pre && RUSTC_WRAPPER="$PWD/rustc.sh" CARGO_TARGET_DIR="$CARGO_TARGET_DIR/pre" cargo build --release --offline >"$log" 2>&1); then
		echo "ERROR: build failed"; tail -40 "$log"; rm -f "$log"; exit 2
	fi
fi
rm -f "$log"
echo "$sum" >"$CARGO_TARGET_DIR/repo.sum"
[ "$1" = build ] && exit 0
exec ./target/release/kxmc check "$1"
