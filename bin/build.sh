#!/bin/bash
# Builds the simulator against /repo's current working tree. Usage: bin/build.sh [package ...]
# (default: dst). Output goes to /verif/target (ignored by git).
set -u
root=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$root/target
mkdir -p "$root/target"
exec 9>"$root/target/.lock"
flock 9
pkgs=("$@")
[ ${#pkgs[@]} -eq 0 ] && pkgs=(dst)
# cargo decides by modification times; a restored file can be older than the last build, so the contents decide
now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -type f -print0 |
	sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
for p in "${pkgs[@]}"; do
	stamp=$root/target/.stamp.$p
	if [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$now" ]; then
		find "$root/target/release" -maxdepth 2 \( -name 'libquantum_sparse_sim-*' -o -name 'libqir_backend-*' -o -name 'libqir_stdlib-*' -o -name 'librunner-*' \
			-o -name 'quantum-sparse-sim-*' -o -name 'qir-backend-*' -o -name 'qir-stdlib-*' -o -name 'runner-*' -o -name 'dst-runner-*' \) -exec rm -rf {} + 2>/dev/null
	fi
	log=$root/target/build.$p.log
	if ! (cd "$root/$p" && cargo build --release --offline --locked >"$log" 2>&1); then
		cat "$log" >&2
		echo "build of $p failed" >&2
		exit 2
	fi
	echo "$now" >"$stamp"
done
