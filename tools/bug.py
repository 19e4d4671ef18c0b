"""Plant a bug: tools used while writing /verif/seeded (not by any check)."""
import json, os, re, shutil, subprocess, sys
SC = "/tmp/sc"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# runs in the repository; builds a copy with one extra test module compiled into the crate
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d /tmp/vxdemo.XXXXXX)" || exit 3
trap 'rm -rf "$d"' EXIT
tar --exclude=./target --exclude=./.git -cf - . | tar -C "$d" -xf - || exit 3
cat "$here/demo_test.rs" >> "$d/oxyroot/src/lib.rs"
cd "$d" || exit 3
[ -e Cargo.lock ] || cp /opt/vp/Cargo.lock.fetched Cargo.lock
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 TMPDIR="$d"
unset RUSTFLAGS
timeout 280 cargo test --offline -p oxyroot --lib vx_demo > "$d/log" 2>&1
rc=$?
grep -q "test result: ok. [1-9]" "$d/log" && [ $rc = 0 ] && exit 0
tail -30 "$d/log"
exit 1
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not os.path.exists(SC): sh(f"cp -a /repo {SC}")
    sh(f"cd {SC} && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq")
def plant(id, prop, edits, test, needs, breaks, check=None):
    fresh()
    for f, old, new in edits:
        p = f"{SC}/oxyroot/src/{f}"; s = open(p).read()
        assert s.count(old) >= 1, (f, old)
        if s.count(old) > 1: print("  several matches, first taken:", old[:50])
        open(p, "w").write(s.replace(old, new, 1))
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh(f"git -C {SC} diff").stdout)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.rs", "w").write("\n#[cfg(test)]\nmod vx_demo {\n" + test + "\n}\n")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    return verify(id, prop, check)
def verify(id, prop, check=None):
    d = f"{V}/seeded/{id}"
    fresh()
    r0 = sh(f"bash {d}/demo.sh", cwd=SC)
    a = sh(f"git -C {SC} apply {d}/patch.diff"); assert a.returncode == 0, a.stderr
    env = dict(os.environ)
    b = sh(f"cd {SC} && sed 's#cd /repo#cd {SC}#' /opt/vp/env.sh > /tmp/env_sc.sh && . /tmp/env_sc.sh && cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E '^test .* ok$|^error' ; true")
    oks = set(re.findall(r"^test (\S+)(?: - should panic)? ... ok", b.stdout, re.M))
    base = json.load(open("/opt/vp/BASELINE.json"))
    last = {o.split("::")[-1] for o in oks}
    missing = [n for n in base["stable"] if n.split("::")[-1] not in last and " " not in n]
    r1 = sh(f"bash {d}/demo.sh", cwd=SC)
    print(f"{id}: demo clean={r0.returncode} patched={r1.returncode}; tests ok={len(oks)} missing={missing[:5]} {'COMPILE ERROR' if 'could not compile' in b.stdout else ''}")
    if r0.returncode: print(r0.stdout[-1500:])
    if r1.returncode == 0 or 'could not compile' in r1.stdout: print(r1.stdout[-1500:])
    record(id, check or [prop])
    fresh()
def record(id, props, vdir=V):
    for p in props:
        c = sh(f"VX_REPO={SC} python3 {vdir}/check.py {p}")
        print(f"  check {p}: exit {c.returncode}\n" + c.stdout[-900:])
        rf = f"{V}/tools/seeded.json"
        res = json.load(open(rf)) if os.path.exists(rf) else {}
        obl = re.findall(r"failed obligation: (.*)", c.stdout); inp = c.returncode == 1 and "no-failing-input-found" not in c.stdout
        res.setdefault(id, {})[p] = (("obligation " + ", ".join(dict.fromkeys(obl)) if obl else "") + ("; " if obl and inp else "") + ("failing input" if inp else "")) if c.returncode == 1 else f"missed (exit {c.returncode})"
        json.dump(res, open(rf, "w"), indent=1, sort_keys=True)
def recheck(ids, vdir=V):
    """run the checks again on bugs already planted"""
    for id in ids:
        fresh()
        a = sh(f"git -C {SC} apply {V}/seeded/{id}/patch.diff")
        if a.returncode: print(id, "DOES NOT APPLY", a.stderr); continue
        record(id, [json.load(open(f"{V}/seeded/{id}/meta.json"))["property"]], vdir)
    fresh()
if __name__ == "__main__":
    if sys.argv[1] == "recheck":
        recheck(sys.argv[3:] or sorted(os.listdir(V + "/seeded")), sys.argv[2])
