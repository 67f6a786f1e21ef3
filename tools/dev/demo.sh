#!/bin/bash
# builds demo.rs (beside this file) against the library in the current directory
# and runs it in a scratch directory of its own.  usage: cd /repo && demo.sh
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$PWD/target
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
cargo build --offline --lib --message-format=json > "$tmp/build.json" 2> "$tmp/err" || { cat "$tmp/err"; exit 9; }
ext=$(python3 - "$tmp/build.json" <<'P'
import json,sys
want={'terminus_store','tokio','tdb_succinct','bytes'}
res={}
for l in open(sys.argv[1]):
    d=json.loads(l)
    if d.get('reason')!='compiler-artifact': continue
    n=d['target']['name'].replace('-','_')
    if n in want:
        for f in d['filenames']:
            if f.endswith('.rlib'): res[n]=f
print(' '.join('--extern %s=%s'%(k,v) for k,v in sorted(res.items())))
P
)
rustc --edition 2021 -A warnings "$here/demo.rs" -o "$tmp/demo" -L dependency="$CARGO_TARGET_DIR/debug/deps" $ext \
  $(ls -d "$CARGO_TARGET_DIR"/debug/build/*/out/lib 2>/dev/null | sed 's/^/-L native=/') 2> "$tmp/err" || { cat "$tmp/err"; exit 9; }
mkdir "$tmp/run"; cd "$tmp/run" || exit 9
TMPDIR="$tmp/run" timeout 120 "$tmp/demo"
