#!/bin/bash
# run.sh PROPERTY: builds the harness from /repo's working tree and runs one check.
# run.sh setup: builds only.
# Exit 0 held, 1 violated, 2 and above inconclusive.
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$V PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/root/.cargo/bin HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$V/evidence" "$V/target"

# Modification times cannot be trusted in restored copies: path crates are
# rebuilt whenever the contents of their sources changed.
sources() {
    (cd /repo && find Cargo.toml crates -type f \( -name '*.rs' -o -name '*.toml' -o -path '*/src/*' -o -path '*/data/*' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
     cd "$V" && find fw a $1 $([ "$1" = a ] || echo shim/lib shim/Cargo.toml) -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.der' \) -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum
}
build() { # build NAME: crate $V/NAME into target/NAME
    local t=$V/target/$1 now
    mkdir -p "$t"
    exec 9>"$t/lock"; flock 9
    now=$(sources "$1")
    if [ "$now" != "$(cat "$t/stamp" 2>/dev/null)" ]; then
        find "$t" -maxdepth 3 -type d -path '*/.fingerprint/*' \( -name 'tlsn-*' -o -name 'tls-*' -o -name 'vh-*' -o -name 'vb-*' -o -name 'vm-*' -o -name 'vfw-*' -o -name 'aead-*' -o -name 'aes-gcm-*' -o -name 'bcs-*' -o -name 'bimap-*' -o -name 'blake3-*' -o -name 'eccore-*' -o -name 'itybity-*' -o -name 'k256-*' -o -name 'opaque-debug-*' -o -name 'p256-*' -o -name 'rangeset-*' -o -name 'rs_merkle-*' -o -name 'spansy-*' -o -name 'sdkpart-*' -o -name 'spki-*' -o -name 'tiny-keccak-*' -o -name 'zeroize_derive-*' -o -name 'mpz*' -o -name 'serio-*' -o -name 'aes-*' -o -name 'ctr-*' -o -name 'ghash-*' -o -name 'futures-plex-*' -o -name 'rand06-compat-*' -o -name 'web-spawn-*' \) -exec rm -rf {} +
    fi
    if ! (cd "$V/$1" && CARGO_TARGET_DIR=$t cargo build --offline >"$t/build.log" 2>&1); then
        grep -E '^error' -A12 "$t/build.log" | head -60
        echo "INCONCLUSIVE: the harness $1 does not build against this tree"
        exec 9>&-
        return 1
    fi
    echo "$now" >"$t/stamp"
    exec 9>&-
}
bin_of() { case $1 in [TF]*) echo a/debug/vh;; C*) echo b/debug/vb;; M*) echo c/debug/vm;; *) return 1;; esac; }

if [ "$1" = setup ]; then
    build a || exit 2
    build b || exit 2
    build c || exit 2
    exit 0
fi
P=$1
if [ "$P" = replay ]; then
    P=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
fi
B=$(bin_of "$P") || { echo "unknown property $P"; exit 2; }
build "${B%%/*}" || exit 2
ulimit -c 0
ERR=$V/evidence/.stderr-$P
rm -f "$V/evidence/.case-$P"
"$V/target/$B" "$@" 2>"$ERR"
rc=$?
tail -c 2000 "$ERR" >&2
# A crash of the process (stack overflow, abort, memory fault) happened in the code under test.
case $rc in
134 | 135 | 136 | 139)
    mkdir -p "$V/evidence/replay"
    f=$V/evidence/replay/$P-crash.json
    read -r idx section 2>/dev/null <"$V/evidence/.case-$P"
    printf '{"property":"%s","section":"%s","index":%s,"seed":%s,"tier":"%s","signature":"process crash","detail":"the process was ended by signal %s"}\n' \
        "$P" "$section" "${idx:-0}" "${VERIF_SEED:-1}" "${VERIF_TIER:-quick}" $((rc - 128)) >"$f"
    echo "  violated: $section/$idx: the process was ended by signal $((rc - 128))"
    echo "VIOLATION property=$P replay=$f"
    exit 1
    ;;
esac
exit $rc
