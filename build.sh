#!/bin/bash
# Builds the simulated kernel, the driver and, from /repo's working tree, the programs under test.
# usage: build.sh [lib]      (lib: also the driver program that calls svdtools as a library)
set -e
V=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
T=$V/target
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$V/build" "$T/release" "$V/evidence" "$V/replays"
exec 9>"$V/build/lock"
flock 9

if [ ! -e "$V/build/libsim.so" ] || [ "$(cat "$V/build/sim.stamp" 2>/dev/null)" != "$(sha256sum < "$V/simkernel/sim.c")" ]; then
    gcc -O2 -g -shared -fPIC -fvisibility=hidden -fno-builtin -w -o "$V/build/libsim.so.new" "$V/simkernel/sim.c" -ldl -lpthread
    mv "$V/build/libsim.so.new" "$V/build/libsim.so"
    sha256sum < "$V/simkernel/sim.c" > "$V/build/sim.stamp"
fi

# cargo goes by modification times; a copied or patched tree is recognised by its content instead
stamp() { (cd "$1" && find . \( -name target -o -name .git -o -name tests -o -name .venv -o -name __pycache__ \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum); }
fresh() { # name of stamp, directory, packages
    local s; s=$(stamp "$2"; sha256sum < "$V/simkernel/rustc-wrap.sh")
    if [ "$(cat "$V/build/$1.stamp" 2>/dev/null)" != "$s" ]; then
        rm -f "$V/build/$1.stamp"
        local p
        for p in $3; do rm -rf "$T"/release/.fingerprint/$p-*; done
    fi
    STAMP=$s
}
fresh driver "$V/driver" driver
(cd "$V/driver" && cargo build -q --release --offline --target-dir "$T" 2>"$V/build/driver.log") || { cat "$V/build/driver.log"; exit 3; }
echo "$STAMP" > "$V/build/driver.stamp"

export RUSTC_WRAPPER=$V/simkernel/rustc-wrap.sh
fresh repo "$R" "svdtools libdriver"
(cd "$R" && CARGO_PROFILE_RELEASE_OPT_LEVEL=1 cargo build -q --release --offline --bin svdtools --target-dir "$T" 2>"$V/build/repo.log") || { cat "$V/build/repo.log"; exit 3; }
echo "$STAMP" > "$V/build/repo.stamp"

if [ "$1" = lib ]; then
    fresh libdriver "$V/libdriver" libdriver
    (cd "$V/libdriver" && cargo build -q --release --offline --target-dir "$T" 2>"$V/build/libdriver.log") || { cat "$V/build/libdriver.log"; exit 3; }
    echo "$STAMP" > "$V/build/libdriver.stamp"
fi
