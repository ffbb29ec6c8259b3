"""Builds what the checks need from /repo's current working tree, in /verif/.build (ignored by git):
the MIR driver, the library with its MIR, and the MIR dump of a harness. Everything is keyed by the
content it was built from, so a change in /repo always leads to a rebuild."""

import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
REPO = os.environ.get("SQV_REPO", "/repo")


class BuildError(Exception):
    """Something of ours does not build: an error of the check, not a verdict"""


class CompileError(Exception):
    """/repo or a harness against its public API does not compile"""

    def __init__(self, text):
        self.text = text


def run(cmd, env=None, timeout=600):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    if env:
        e.update(env)
    return subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        r = run(["rustc", "+nightly", "--print", "sysroot"])
        if r.returncode:
            raise BuildError("rustc +nightly: " + r.stdout)
        _sysroot = r.stdout.strip().splitlines()[-1]
    return _sysroot


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(BUILD, "driver-" + digest(read(src), sysroot()))
    if not os.path.exists(out):
        with Lock():
            if not os.path.exists(out):
                for o in glob.glob(os.path.join(BUILD, "driver-*")):
                    os.unlink(o)
                r = run(["rustc", "+nightly", "--edition", "2024", "-O", src, "-o", out + ".tmp"])
                if r.returncode:
                    raise BuildError("driver: " + r.stdout)
                os.rename(out + ".tmp", out)
    return out


def source_files():
    fs = []
    for d, _, names in os.walk(os.path.join(REPO, "src")):
        for n in names:
            fs.append(os.path.join(d, n))
    for n in ("Cargo.toml", "README.md"):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            fs.append(p)
    return sorted(fs)


def source_digest():
    parts = [sysroot()]
    for f in source_files():
        parts.append(f)
        parts.append(read(f))
    return digest(*parts)


def edition():
    m = re.search(r'^\s*edition\s*=\s*"(\d+)"', read(os.path.join(REPO, "Cargo.toml")).decode(), re.M)
    return m.group(1) if m else "2015"


def libpath():
    m = re.search(r'^\s*\[lib\][^\[]*?^\s*path\s*=\s*"([^"]+)"', read(os.path.join(REPO, "Cargo.toml")).decode(), re.M | re.S)
    return os.path.join(REPO, m.group(1) if m else "src/lib.rs")


def workdir():
    """Directory with the library built from the current tree"""
    d = os.path.join(BUILD, "lib-" + source_digest())
    lib = os.path.join(d, "libsqrid.rlib")
    if not os.path.exists(lib):
        with Lock():
            if not os.path.exists(lib):
                olds = sorted(glob.glob(os.path.join(BUILD, "lib-*")), key=os.path.getmtime)
                for o in olds[:-12]:
                    shutil.rmtree(o, ignore_errors=True)
                os.makedirs(d, exist_ok=True)
                r = run(["rustc", "+nightly", "--edition", edition(), "--crate-type", "rlib", "--crate-name", "sqrid",
                         libpath(), "-Zalways-encode-mir", "-Zmir-opt-level=0", "-Zub-checks=no", "-C", "overflow-checks=on",
                         "-C", "debug-assertions=off", "--cap-lints", "allow",
                         "--out-dir", d, "--emit=metadata,link"])
                if r.returncode:
                    shutil.rmtree(d, ignore_errors=True)
                    raise CompileError(r.stdout)
    return d


def dump(name, text):
    """MIR dump (path of the JSON) of a harness crate compiled against the library"""
    d = workdir()
    out = os.path.join(d, "%s-%s.json" % (name, digest(text, read(os.path.join(VERIF, "driver", "main.rs")))))
    if os.path.exists(out):
        return out
    src = os.path.join(d, name + ".rs")
    with open(src, "w") as f:
        f.write(text)
    tmp = out + ".tmp"
    r = run([driver(), "--sysroot", sysroot(), "--edition", "2021", "--crate-type", "lib", "--crate-name", "harness",
             "-Zmir-opt-level=0", "-Zub-checks=no", "-Zalways-encode-mir", "--cap-lints", "allow", "-C", "overflow-checks=on", "--extern", "sqrid=" + os.path.join(d, "libsqrid.rlib"), src],
            env={"SQV_OUT": tmp, "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib")})
    if r.returncode or not os.path.exists(tmp):
        if not os.path.exists(src):
            raise BuildError("%s was removed meanwhile" % src)
        raise CompileError(r.stdout)
    os.rename(tmp, out)
    return out


def dump_crate():
    """MIR dump of the library itself: every function, closure, constant and static"""
    d = workdir()
    out = os.path.join(d, "crate-%s.json" % digest(read(os.path.join(VERIF, "driver", "main.rs"))))
    if os.path.exists(out):
        return out
    tmp = out + ".tmp"
    r = run([driver(), "--sysroot", sysroot(), "--edition", edition(), "--crate-type", "rlib", "--crate-name", "sqrid",
             "-Zmir-opt-level=0", "-Zub-checks=no", "-Zalways-encode-mir", "--cap-lints", "allow", "-C", "overflow-checks=on", libpath()],
            env={"SQV_OUT": tmp, "SQV_ALL": "1", "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib")})
    if r.returncode or not os.path.exists(tmp):
        raise CompileError(r.stdout)
    os.rename(tmp, out)
    return out


def compiles(name, text):
    """Does a crate that uses the library type-check and pass the post-monomorphisation checks? -> (bool, diagnostics)"""
    d = workdir()
    src = os.path.join(d, name + ".rs")
    with open(src, "w") as f:
        f.write(text)
    r = run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "witness", "--cap-lints", "allow",
             "--emit=obj", "-Zmir-opt-level=0", "-Zub-checks=no", "-o", os.path.join(d, name + ".o"), "--extern", "sqrid=" + os.path.join(d, "libsqrid.rlib"), src])
    return r.returncode == 0, r.stdout


def unsafe_code():
    """Where the source of the library says unsafe (blocks, functions, impls): [(file, first line, last line)]"""
    r = subprocess.run(["rustc", "+nightly", "--edition", edition(), "--crate-type", "rlib", "--crate-name", "sqrid", libpath(), "-W", "unsafe_code",
                        "--error-format=json", "--emit=metadata", "-o", os.path.join(workdir(), "lint.rmeta")],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ), timeout=600)
    if r.returncode:
        raise CompileError(r.stderr[-3000:])
    out = []
    for line in r.stderr.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("code") and d["code"].get("code") == "unsafe_code":
            for s in d["spans"]:
                if s["is_primary"]:
                    out.append((s["file_name"], s["line_start"], s["line_end"]))
    return sorted(set(out))


def rustdoc():
    """Signatures of every item of the library, as rustdoc writes them, or None"""
    out = os.path.join(workdir(), "doc")
    f = os.path.join(out, "sqrid.json")
    if not os.path.exists(f):
        tmp = out + ".%d" % os.getpid()
        r = run(["rustdoc", "+nightly", "-Z", "unstable-options", "--output-format", "json", "--document-private-items", "--edition", edition(), "--crate-name", "sqrid", libpath(), "-o", tmp])
        if r.returncode or not os.path.exists(os.path.join(tmp, "sqrid.json")):
            shutil.rmtree(tmp, ignore_errors=True)
            return None
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    with open(f) as h:
        return json.load(h)
