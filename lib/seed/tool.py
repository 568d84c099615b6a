"""Development tool: records a planted bug. python3 lib/seed/tool.py FILE.py
FILE defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust main)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
COPY = "/tmp/seed/repo"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR="/tmp/seed/target", RUSTC_WRAPPER="",
           PATH="/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/root/.cargo/bin")


def sh(cmd, cwd=COPY, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    os.makedirs("/tmp/seed", exist_ok=True)
    if not os.path.isdir(COPY):
        sh("git clone -q /repo " + COPY, cwd="/")
    sh("git fetch -q && git reset -q --hard origin/HEAD; git clean -qfd")


def one(path):
    g = {}
    exec(open(path).read(), g)
    fresh()
    d = os.path.join(V, "seeded", g["ID"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "demo.rs"), "w").write("mod common;\n#[allow(unused_imports)]\nuse common::*;\n" + g["DEMO"])
    for f in ("common.rs", "demo.sh"):
        shutil.copy(os.path.join(V, "lib", "seed", f), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = sh("bash %s/demo.sh" % d)
    if r.returncode != 0:
        return "demo fails on the unchanged tree rc=%d\n%s" % (r.returncode, r.stdout[-1500:])
    for f, old, new in g["EDITS"]:
        p = os.path.join(COPY, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "%s: %d occurrences of %r" % (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git diff").stdout)
    r = sh("bash %s/demo.sh" % d)
    if r.returncode in (0, 3):
        return "demo rc=%d with the patch\n%s" % (r.returncode, r.stdout[-1500:])
    why = r.stdout.strip().splitlines()[-3:]
    r = sh("timeout 600 cargo test --workspace --features all --no-fail-fast --offline -- --test-threads 8")
    if r.returncode != 0:
        return "tests: " + "\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or "error" in l)[:1500]
    sh("git reset -q --hard")
    return "ok: " + " | ".join(why)[:300]


for f in sys.argv[1:]:
    print(os.path.basename(f), one(f), flush=True)
