#!/bin/bash
# Builds /repo's library from its current working tree and links the harness
# against it.  Dependencies built by /opt/vp/build.sh are reused when present.
# usage: build_harness.sh OUTDIR [REPO]
set -e
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
out=$1; repo=${2:-/repo}
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$out"
tgt=$out/target
if [ ! -d "$tgt/debug/deps" ]; then
  mkdir -p "$tgt/debug"
  if [ -d /repo/target/debug/deps ]; then
    cp -a /repo/target/debug/build /repo/target/debug/deps /repo/target/debug/.fingerprint "$tgt/debug/" 2>/dev/null || true
    rm -rf "$tgt"/debug/.fingerprint/terminus-store-* "$tgt"/debug/deps/*terminus_store*
  fi
fi
rm -rf "$tgt"/debug/.fingerprint/terminus-store-*
cd "$repo"
CARGO_TARGET_DIR=$tgt cargo build --offline --lib --manifest-path "$repo/Cargo.toml" \
   --config 'profile.dev.package.terminus-store.opt-level=1' --config 'profile.dev.package.tdb-succinct.opt-level=2' \
   --message-format=json > "$out/build.json" 2> "$out/build.err" || { cat "$out/build.err"; exit 3; }
ext=$(python3 - "$out/build.json" <<'P'
import json,sys
want={'terminus_store','tokio','tdb_succinct','bytes','tempfile','async_trait','futures'}
res={}
for l in open(sys.argv[1]):
    d=json.loads(l)
    if d.get('reason')!='compiler-artifact': continue
    n=d['target']['name'].replace('-','_')
    if n in want:
        for f in d['filenames']:
            if f.endswith('.rlib') or f.endswith('.so'): res[n]=f
print(' '.join('--extern %s=%s'%(k,v) for k,v in sorted(res.items())))
P
)
rustc --edition 2021 --crate-name vh -C opt-level=1 -C debuginfo=1 -C overflow-checks=on -C debug-assertions=on -C codegen-units=8 \
  -A warnings "$here/harness/src/main.rs" -o "$out/vh" -L dependency="$tgt/debug/deps" $ext \
  $(ls -d "$tgt"/debug/build/*/out/lib 2>/dev/null | sed 's/^/-L native=/') 2> "$out/vh.err" || { cat "$out/vh.err"; exit 4; }
