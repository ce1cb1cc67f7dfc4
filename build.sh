#!/bin/bash
# build.sh core|cli : builds the explorer (and the stuart binary) from /repo's current working tree.
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
mkdir -p "$V/target"
exec 9>"$V/target/lock"
flock 9
export CARGO_TARGET_DIR
# cargo decides by modification times; decide by content as well, so that a change is never missed
hash=$(cd /repo && { find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.js' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
log="$V/target/build-$1.log"
: > "$log"
stamp() { [ "$(cat "$V/target/$1.hash" 2>/dev/null)" = "$hash" ] || { rm -f "$V/target/$1.hash"; find "$V/target/$1" -maxdepth 4 -path '*/.fingerprint/stuart*' -prune -exec rm -rf {} + 2>/dev/null; }; }
mc() {
    stamp mc
    CARGO_TARGET_DIR="$V/target/mc"
    (cd "$V/mc" && cargo build --release --offline) >>"$log" 2>&1 || return 1
    echo "$hash" > "$V/target/mc.hash"
}
cli() {
    gcc -O1 -Wall -Wno-unused-result -Wno-nonnull-compare -fno-delete-null-pointer-checks -shared -fPIC -o "$V/target/fs.so.new" "$V/shim/fs.c" -ldl >>"$log" 2>&1 && mv "$V/target/fs.so.new" "$V/target/fs.so" || return 1
    stamp cli
    CARGO_TARGET_DIR="$V/target/cli"
    (cd /repo && CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo build -p stuart --all-features --offline --locked) >>"$log" 2>&1 || return 1
    echo "$hash" > "$V/target/cli.hash"
}
plug() {
    echo 'int stuart_no_plugin;' > "$V/target/empty.c"
    gcc -shared -fPIC -o "$V/target/empty.so" "$V/target/empty.c" >>"$log" 2>&1 || return 1
    stamp plug
    CARGO_TARGET_DIR="$V/target/plug"
    (cd "$V/plug" && cargo build --release --offline) >>"$log" 2>&1 || return 1
    echo "$hash" > "$V/target/plug.hash"
}
case $1 in
    core) mc ;;
    cli) mc & p=$!; plug & q=$!; cli; r=$?; wait $p && wait $q && [ $r = 0 ] ;;
esac
r=$?
[ $r = 0 ] || { echo "build failed:"; grep -E -A12 '^error' "$log" | head -60; tail -5 "$log"; }
exit $r
