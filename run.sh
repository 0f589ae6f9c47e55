#!/bin/bash
# run.sh build            build the simulator against /repo's working tree
# run.sh <ID> [tier]      build, then check one property (tier: quick or thorough)
# run.sh replay <file>    build, then execute a replay file again
set -u
cd "$(dirname "$0")/sim" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS="-Awarnings" RUSTC_WRAPPER="$PWD/wrap.sh"
unset RUST_BACKTRACE
mkdir -p target
exec 9>target/.lock
flock 9
# cargo compares times of files; copies of the tree may carry any, so compare contents
now=$( (cd /repo && find src util/dcgen/src util/infistream/src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cat "$OLDPWD"/src/*.rs "$OLDPWD"/build.rs "$OLDPWD"/wrap.sh "$OLDPWD"/Cargo.toml) | sha256sum)
if [ "$now" != "$(cat target/.tree 2>/dev/null)" ]; then
    rm -f target/.tree
    cargo clean --offline --release -p chopper -p chopsim >/dev/null 2>&1
fi
# the programs under util are compiled in; if one of them does not build, only its own property has no answer
built=
for f in dcgen,infistream dcgen infistream ""; do
    if cargo build --offline --release --quiet --features "$f" >target/build.log 2>&1; then
        built=1
        break
    fi
    cat target/build.log >&2
done
if [ -z "$built" ]; then
    echo "the simulator does not build" >&2
    exit 2
fi
echo "$now" >target/.tree
flock -u 9
exec 9>&-
case "${1:-}" in
build) exit 0 ;;
replay) exec target/release/chopsim replay "$2" ;;
*) exec target/release/chopsim check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" --verif "$(cd .. && pwd)" ;;
esac
