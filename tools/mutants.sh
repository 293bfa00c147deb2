#!/bin/bash
# development tool: builds an instrumented copy of /repo with run-time mutations and a copy of mc linked to it
# outputs: /tmp/mut (instrumented), /tmp/mut.list (id, file, line, fn, kind, text)
set -e
export RUSTUP_TOOLCHAIN=1.87 CARGO_NET_OFFLINE=true
(cd /verif/tools/mutgen && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=/tmp/mutgen-target cargo build --release --offline -q)
rm -rf /tmp/mut; git clone -q /repo /tmp/mut; : > /tmp/mut.skip
for i in $(seq 40); do
  git -C /tmp/mut checkout -q -- .
  /tmp/mutgen-target/release/mutgen /tmp/mut/carcara/src /tmp/mut.list /tmp/mut.skip
  cat >> /tmp/mut/carcara/src/lib.rs <<'R'

pub static VM_COV: [std::sync::atomic::AtomicU8; 40000] = [const { std::sync::atomic::AtomicU8::new(0) }; 40000];
#[inline]
pub fn vm(n: u32) -> bool {
    use std::sync::atomic::Ordering::Relaxed;
    static M: std::sync::OnceLock<u32> = std::sync::OnceLock::new();
    let m = *M.get_or_init(|| {
        if std::env::var_os("VM_COV").is_some() {
            extern "C" { fn atexit(f: extern "C" fn()) -> i32; }
            extern "C" fn dump() {
                let v: Vec<u8> = VM_COV.iter().map(|x| x.load(Relaxed)).collect();
                let p = std::env::var("VM_COV").unwrap();
                let _ = std::fs::write(format!("{p}.{}", std::process::id()), v);
            }
            unsafe { atexit(dump); }
            return u32::MAX;
        }
        std::env::var("MUTANT").ok().and_then(|x| x.parse().ok()).unwrap_or(0)
    });
    if m == u32::MAX { VM_COV[n as usize].store(1, Relaxed); false } else { m == n }
}
R
  (cd /tmp/mut && CARGO_TARGET_DIR=/tmp/mut-target cargo check -p carcara --lib --offline --message-format short 2>&1 | grep -E "^carcara.*: error" > /tmp/mut.err) || true
  [ -s /tmp/mut.err ] || break
  python3 - <<'P'
import re
bad={m for m in re.findall(r'^carcara/src/(\S+?):(\d+):',open('/tmp/mut.err').read(),re.M)}
old=open('/tmp/mut.skip').read().split()
new=[l.split('\t')[0] for l in open('/tmp/mut.list') if (l.split('\t')[1],l.split('\t')[2]) in bad]
new=[n for n in new if n not in old]
if not new:
    new=[l.split('\t')[0] for l in open('/tmp/mut.list') for f,n in bad if l.split('\t')[1]==f and 0<=int(n)-int(l.split('\t')[2])<=15]
    new=[n for n in new if n not in old]
print(len(bad),'lines with errors,',len(new),'new skips')
if not new: print(open('/tmp/mut.err').read()[:3000]); import sys; sys.exit(1)
open('/tmp/mut.skip','a').write(' '+' '.join(new))
P
done
