"""Builds the rustc driver and extracts facts from /repo's current working tree.

The analysis workspace under /verif/.cache/ws holds symbolic links to /repo's source folders and a copy of its
Cargo.toml narrowed to the crates whose dependencies are available offline. The driver wraps rustc for the workspace
members only (RUSTC_WORKSPACE_WRAPPER); dependencies are compiled once by setup."""
import glob
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CACHE = os.path.join(HERE, ".cache")
WS = CACHE + "/ws"
TARGET = CACHE + "/target"
DRV = CACHE + "/drv"
OUT = CACHE + "/facts"
OUTR = CACHE + "/facts-release"
MEMBERS = ["pallets/democracy", "pallets/elections-phragmen", "pallets/on-slash-vesting", "macros"]
PKGS = {"pallet-democracy": "pallet_democracy", "pallet-elections-phragmen": "pallet_elections_phragmen", "on-slash-vesting": "on_slash_vesting"}
TRY = {"pallet-elections-phragmen": "pallet_elections_phragmen"}  # again with the try-runtime feature, under the name <crate>_try
AUX = {  # crates some of whose dependencies are not available offline: compiled against the stand-ins in stubs/
    "polimec-common/common": "polimec_common",
    "pallets/on-slash-vesting": None,
    "pallets/linear-release": "pallet_linear_release",
    "pallets/proxy-bonding": "pallet_proxy_bonding",
    "pallets/dispenser": "pallet_dispenser",
    "pallets/funding": "pallet_funding",
    "pallets/parachain-staking": "pallet_parachain_staking",
    "pallets/polimec-receiver": "polimec_receiver",
}
AUXCR = [c for c in AUX.values() if c]
TRYCR = [c + "_try" for c in TRY.values()]
WS2 = CACHE + "/ws2"
STUBS = HERE + "/stubs"
LSTUBS = WS2 + "/stubs"
BASE = "1.81.0"


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-int(os.environ.get("SA_LOG", "6000")):])
    return p.stdout


def base_env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["SKIP_WASM_BUILD"] = "1"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "RUSTC", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    return e


def nightly(env):
    return run(["rustup", "which", "--toolchain", "nightly", "rustc"], env).strip().split("\n")[-1]


def build_driver(env):
    e = dict(env, RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=DRV)
    run(["cargo", "build", "--release", "--offline", "-q"], e, HERE + "/driver")


def write(p, t):
    if os.path.exists(p) and open(p).read() == t:
        return
    open(p, "w").write(t)


def mkws():
    os.makedirs(WS, exist_ok=True)
    for t in os.listdir(REPO):
        if t in ("Cargo.toml", "Cargo.lock", "target", ".git"):
            continue
        l = os.path.join(WS, t)
        if not os.path.islink(l):
            os.symlink(os.path.join(REPO, t), l)
    # one dependency does not type-check under the nightly the driver links against; it is built from a copy
    # with an explicit type (no change of behaviour)
    dep = CACHE + "/trie-db-0.29.1"
    if not os.path.exists(dep):
        src = glob.glob("/root/.cargo/registry/src/*/trie-db-0.29.1")
        if not src:
            raise BuildError("trie-db-0.29.1 not in the cargo registry")
        tmp = dep + ".tmp"
        shutil.copytree(src[0], tmp)
        p = tmp + "/src/node.rs"
        t = open(p).read()
        open(p, "w").write(t.replace("Result<_, _, _>>()?", "Result<(), _, _>>()?"))
        os.rename(tmp, dep)
    t = open(REPO + "/Cargo.toml").read()
    t = re.sub(r"^members\s*=\s*\[[^\]]*\]", "members = [\n" + "".join(f'\t"{x}",\n' for x in MEMBERS) + "]", t, count=1, flags=re.M)
    t = re.sub(r"^default-members\s*=\s*\[[^\]]*\]", "", t, count=1, flags=re.M)
    t += f'\n[patch.crates-io]\ntrie-db = {{ path = "{dep}" }}\n'
    write(WS + "/Cargo.toml", t)
    lock = open(REPO + "/Cargo.lock").read()
    stamp = CACHE + "/lock.src"
    if not os.path.exists(stamp) or open(stamp).read() != lock or not os.path.exists(WS + "/Cargo.lock"):
        open(WS + "/Cargo.lock", "w").write(lock)
        open(stamp, "w").write(lock)


def extract(env, out=OUT):
    rc = nightly(env)
    e = dict(env, RUSTUP_TOOLCHAIN=BASE, RUSTC=rc, CARGO_TARGET_DIR=TARGET, RUSTC_WORKSPACE_WRAPPER=DRV + "/release/mirfacts",
             MIRFACTS_OUT=out, MIRFACTS_FOLLOW="on_slash_vesting", CARGO_INCREMENTAL="0")
    e["LD_LIBRARY_PATH"] = os.path.dirname(os.path.dirname(rc)) + "/lib"
    if out == OUTR:
        e["MIRFACTS_RELEASE"] = "1"
    os.makedirs(out, exist_ok=True)
    for p in PKGS:
        for d in glob.glob(f"{TARGET}/debug/.fingerprint/{p}-*"):
            shutil.rmtree(d)
    for c in PKGS.values():
        f = f"{out}/{c}.json"
        if os.path.exists(f):
            os.unlink(f)
    cmd = ["cargo", "check", "--offline", "--lib"]
    for p in PKGS:
        cmd += ["-p", p]
    run(cmd, e, WS)
    for c in PKGS.values():
        if not os.path.exists(f"{out}/{c}.json"):
            raise BuildError(f"no facts were written for {c}")


def extract_try(env, out=OUT):
    """facts of the crates in TRY with their state checks compiled in"""
    rc = nightly(env)
    tmp = out + "-try"
    e = dict(env, RUSTUP_TOOLCHAIN=BASE, RUSTC=rc, CARGO_TARGET_DIR=TARGET, RUSTC_WORKSPACE_WRAPPER=DRV + "/release/mirfacts",
             MIRFACTS_OUT=tmp, CARGO_INCREMENTAL="0")
    e["LD_LIBRARY_PATH"] = os.path.dirname(os.path.dirname(rc)) + "/lib"
    if out == OUTR:
        e["MIRFACTS_RELEASE"] = "1"
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(out, exist_ok=True)
    cmd = ["cargo", "check", "--offline", "--lib"]
    for p, c in TRY.items():
        for d in glob.glob(f"{TARGET}/debug/.fingerprint/{p}-*"):
            shutil.rmtree(d)
        for f in (f"{tmp}/{c}.json", f"{out}/{c}_try.json"):
            if os.path.exists(f):
                os.unlink(f)
        cmd += ["-p", p, "--features", f"{p}/try-runtime"]
    run(cmd, e, WS)
    for c in TRY.values():
        if not os.path.exists(f"{tmp}/{c}.json"):
            raise BuildError(f"no facts were written for {c} with try-runtime")
        t = open(f"{tmp}/{c}.json").read()
        open(f"{out}/{c}_try.json", "w").write(re.sub(rf"\b{c}\b", c + "_try", t))


def tval(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, list):
        return "[" + ", ".join(tval(x) for x in v) + "]"
    return "{ " + ", ".join(f"{k} = {tval(x)}" for k, x in v.items()) + " }"


def mkaux():
    """the auxiliary workspace: manifests written from the repository's, sources linked, missing dependencies stubbed"""
    import tomllib
    os.makedirs(WS2, exist_ok=True)
    root = tomllib.load(open(REPO + "/Cargo.toml", "rb"))
    wd = root["workspace"]["dependencies"]
    stubs = {tomllib.load(open(f"{STUBS}/{d}/Cargo.toml", "rb"))["package"]["name"]: f"{LSTUBS}/{d}" for d in sorted(os.listdir(STUBS))}
    ours = {tomllib.load(open(f"{REPO}/{m}/Cargo.toml", "rb"))["package"]["name"]: m for m in AUX}
    used = {}
    if not os.path.islink(LSTUBS):
        os.symlink(STUBS, LSTUBS)

    def use(n, d):
        """dependency entry of the generated workspace for dependency n, declared as d"""
        if isinstance(d, dict) and d.get("workspace"):
            w = wd[n] if isinstance(wd[n], dict) else {"version": wd[n]}
            d = dict(w, **{k: x for k, x in d.items() if k != "workspace"})
        elif not isinstance(d, dict):
            d = {"version": d}
        pk = d.get("package", n)
        r = {}
        if pk in ours:
            r["path"] = WS2 + "/" + ours[pk]
        elif pk in stubs:
            r["path"] = stubs[pk]
        else:
            r["version"] = d["version"]
        if "package" in d:
            r["package"] = pk
        f = list(d.get("features", []))
        r["default-features"] = bool(d.get("default-features", True))
        return pk, r, f

    def manifest(name, deps, path):
        t = f'[package]\nname = "{name}"\nversion = "0.8.0"\nedition = "2021"\n\n[dependencies]\n'
        std = []
        for n, d in deps.items():
            if isinstance(d, dict) and d.get("optional"):
                continue
            pk, r, f = use(n, d)
            if f:
                r["features"] = f
            t += f"{n} = {tval(r)}\n"
            std.append(n)
        return t, std

    for m, crate in AUX.items():
        c = tomllib.load(open(f"{REPO}/{m}/Cargo.toml", "rb"))
        t, names = manifest(c["package"]["name"], c.get("dependencies", {}), m)
        fs = c.get("features", {})
        t += "\n[features]\ndefault = [\"std\"]\n"
        for f, l in fs.items():
            if f != "default":
                t += f"{f} = {tval([x for x in l if f == 'std' and '/' in x and '?' not in x and x.split('/')[0] in names])}\n"
        t += "\n[lib]\npath = \"src/lib.rs\"\n\n[lints.rust]\nunexpected_cfgs = \"allow\"\n"
        d = f"{WS2}/{m}"
        os.makedirs(d, exist_ok=True)
        write(d + "/Cargo.toml", t)
        if not os.path.islink(d + "/src"):
            os.symlink(f"{REPO}/{m}/src", d + "/src")
    # everything a stand-in inherits
    for n, d in wd.items():
        d = d if isinstance(d, dict) else {"version": d}
        if "path" in d or "git" in d:
            continue
        used[n] = {k: d[k] for k in ("version", "package", "default-features") if k in d}
    t = "[workspace]\nresolver = \"2\"\nmembers = " + tval(list(AUX)) + f"\nexclude = []\n\n[workspace.dependencies]\n"
    for n, d in used.items():
        pk = d.get("package", n)
        if pk in stubs:
            d = {k: x for k, x in d.items() if k != "version"} | {"path": stubs[pk]}
        t += f"{n} = {tval(d)}\n"
    t += f'\n[patch.crates-io]\ntrie-db = {{ path = "{CACHE}/trie-db-0.29.1" }}\n'
    write(WS2 + "/Cargo.toml", t)
    lock = open(REPO + "/Cargo.lock").read()
    stamp = CACHE + "/lock2.src"
    if not os.path.exists(stamp) or open(stamp).read() != lock or not os.path.exists(WS2 + "/Cargo.lock"):
        open(WS2 + "/Cargo.lock", "w").write(lock)
        open(stamp, "w").write(lock)


def extract2(env, out=OUT):
    """facts of the crates of the auxiliary workspace"""
    rc = nightly(env)
    e = dict(env, RUSTUP_TOOLCHAIN=BASE, RUSTC=rc, CARGO_TARGET_DIR=TARGET, RUSTC_WORKSPACE_WRAPPER=DRV + "/release/mirfacts",
             MIRFACTS_OUT=out, CARGO_INCREMENTAL="0")
    e["LD_LIBRARY_PATH"] = os.path.dirname(os.path.dirname(rc)) + "/lib"
    if out == OUTR:
        e["MIRFACTS_RELEASE"] = "1"
    os.makedirs(out, exist_ok=True)
    cmd = ["cargo", "check", "--offline", "--lib"]
    for m, c in AUX.items():
        p = pkgname(m)
        for d in glob.glob(f"{TARGET}/debug/.fingerprint/{p}-*"):
            shutil.rmtree(d)
        if c is None:
            continue
        f = f"{out}/{c}.json"
        if os.path.exists(f):
            os.unlink(f)
        cmd += ["-p", p]
    cmd += ["--features", "pallet-funding/on-chain-release-build"]
    run(cmd, e, WS2)
    for c in AUX.values():
        if c and not os.path.exists(f"{out}/{c}.json"):
            raise BuildError(f"no facts were written for {c}")


def pkgname(m):
    import tomllib
    return tomllib.load(open(f"{REPO}/{m}/Cargo.toml", "rb"))["package"]["name"]


def extract_now(main=True, aux=False, out=OUT, tryrt=False):
    """facts of the current tree; the caller holds the lock"""
    env = base_env()
    if not os.path.exists(DRV + "/release/mirfacts"):
        build_driver(env)
    mkws()
    if main:
        extract(env, out)
    if tryrt:
        extract_try(env, out)
    if aux:
        mkaux()
        extract2(env, out)


def setup():
    os.makedirs(CACHE, exist_ok=True)
    env = base_env()
    build_driver(env)
    mkws()
    extract(env)
    extract_try(env)
    mkaux()
    extract2(env)


if __name__ == "__main__":
    try:
        setup() if sys.argv[1:] == ["setup"] else extract_now(True, True, OUT, True)
    except BuildError as x:
        print(x)
        sys.exit(2)
