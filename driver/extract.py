"""Builds the MIR dumper and runs it on /repo's current source tree; returns the dump as JSON.

Everything is written under /verif/.work (git-ignored). The dump is regenerated on every call."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
CARGO_BIN = "/root/.cargo/bin"


class ExtractError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    e["PATH"] = CARGO_BIN + ":" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    return e


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=kw.pop("env", env()), **kw)
    return r.returncode, r.stdout


def sysroot():
    rc, out = sh(["rustc", "--print", "sysroot"])
    if rc:
        raise ExtractError(out)
    return out.strip()


def build_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(WORK, "mirdump-" + h)
    if not os.path.exists(out):
        tmp = out + ".tmp"
        rc, log = sh(["rustc", "--edition", "2021", "-O", "-o", tmp, src, "-C", "link-arg=-Wl,-rpath," + sysroot() + "/lib"])
        if rc:
            raise ExtractError("driver build failed:\n" + log)
        os.rename(tmp, out)
    return out


def derive_manifest(repo, work):
    text = open(os.path.join(repo, "Cargo.toml"), encoding="utf-8").read()
    out = []
    for part in re.split(r"(?m)^(?=\[)", text):
        head = part.split("\n", 1)[0].strip()
        if head.startswith(("[dev-dependencies", "[patch", "[[test", "[[bench", "[[example", "[workspace")):
            continue
        out.append(part)
    os.makedirs(work, exist_ok=True)
    with open(os.path.join(work, "Cargo.toml"), "w", encoding="utf-8") as f:
        f.write("".join(out) + "\n[workspace]\n")
    shutil.copyfile(os.path.join(VERIF, "driver", "Cargo.lock.repo"), os.path.join(work, "Cargo.lock"))
    for n in ("src", "ReadMe.md", "build.rs"):
        src, dst = os.path.join(repo, n), os.path.join(work, n)
        if os.path.islink(dst):
            os.remove(dst)
        if os.path.exists(src):
            os.symlink(src, dst)


def extract(repo=None):
    repo = repo or REPO
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        work = os.path.join(WORK, "crate")
        derive_manifest(repo, work)
        out = os.path.join(WORK, "dump.json")
        if os.path.exists(out):
            os.remove(out)
        e = env()
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["MIRDUMP_OUT"] = out
        e["CARGO_TARGET_DIR"] = os.path.join(WORK, "target")
        e["CARGO_INCREMENTAL"] = "0"
        # Freshness: the wrapper must run even when cargo thinks nothing changed.
        sh(["cargo", "clean", "--offline", "-p", "cmacro"], cwd=work, env=e)
        rc, log = sh(["cargo", "check", "--offline", "--lib"], cwd=work, env=e)
        if rc or not os.path.exists(out):
            raise ExtractError("cargo check with the MIR dumper failed:\n" + log[-4000:])
        with open(out, encoding="utf-8") as f:
            return json.load(f)


if __name__ == "__main__":
    d = extract()
    print(len(d["fns"]), "bodies;", len(d["types"]), "types;", len(d["adts"]), "adts")
