"""Generates the scratch workspace: the current sources of the cdn-* crates of /repo, compiled
against the environment models of /verif/models, plus one binary crate per harness.

Nothing of the cdn-* sources is cut. Each crate root gets one line appended (`extern crate
verif_std as std;`, plus the crate's access module for cdn-broker); Cargo.toml is rewritten so that
the dependencies in MODELS are the models."""
import os, re, shutil, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
CRATES = ["cdn-proto", "cdn-broker", "cdn-client", "cdn-marshal"]
MODELS = {"tokio", "parking_lot", "tracing", "mnemonic", "prometheus", "rkyv", "jf-signature", "ark-serialize",
          "rand", "warp", "local-ip-address", "pem", "rustls", "tokio-rustls", "rcgen", "quinn", "redis", "sqlx", "portpicker"}
# used by binaries, benches and alternative runtimes only
DROP = {"clap", "tracing-subscriber", "async-std", "console-subscriber"}
PROFILE = """
[profile.release]
panic = "abort"
lto = "fat"
codegen-units = 1
overflow-checks = true
debug-assertions = true
opt-level = 2
strip = "none"
incremental = false
[profile.release.build-override]
opt-level = 0
[profile.dev]
opt-level = 0
debug = false
"""
#: what every harness may use
HDEPS = ["vx", "verif_std", "tokio", "parking_lot", "rand", "jf-signature", "rkyv", "redis", "sqlx", "rustls", "prometheus"]

BUILD_RS = '''fn main() {
    let p = std::path::Path::new(&std::env::var_os("OUT_DIR").unwrap()).join("testing_certs.rs");
    std::fs::write(p, "pub static LOCAL_CA_CERT: &str = \\"local-ca\\"; pub static LOCAL_CA_KEY: &str = \\"local-key\\";").unwrap();
    println!("cargo:rerun-if-changed=build.rs");
}
'''


def val(v):
    if isinstance(v, str): return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, list): return "[" + ", ".join(map(val, v)) + "]"
    if isinstance(v, dict): return "{ " + ", ".join(f"{k} = {val(x)}" for k, x in v.items()) + " }"
    return str(v)


def write(path, text):
    """Only touches files that change, so that cargo's fingerprints survive."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text: return
    except OSError: pass
    with open(path, "w") as f: f.write(text)


def copy_tree(src, dst):
    want = set()
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        for f in fs:
            s = os.path.join(d, f)
            rel = os.path.relpath(s, src)
            want.add(rel)
            t = os.path.join(dst, rel)
            data = open(s, "rb").read()
            try:
                if open(t, "rb").read() == data: continue
            except OSError: pass
            os.makedirs(os.path.dirname(t), exist_ok=True)
            with open(t, "wb") as o: o.write(data)
    for d, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, dst) not in want: os.unlink(p)


def crate(ws, name, root, access):
    src = os.path.join(REPO, name)
    m = tomllib.load(open(os.path.join(src, "Cargo.toml"), "rb"))
    out = ["[package]", f'name = "{name}"', f'version = {val(m["package"].get("version", "0.0.0"))}', f'edition = {val(m["package"].get("edition", "2021"))}', 'build = "build.rs"' if name == "cdn-proto" else "", "autobins = false\nautobenches = false\nautoexamples = false\nautotests = false", "[features]"]
    for f, l in m.get("features", {}).items():
        if any(x.removeprefix("dep:").split("/")[0].rstrip("?") in DROP for x in l): continue
        out.append(f"{f} = {val(l)}")
    out.append("[dependencies]")
    deps = dict(m.get("dependencies", {}))
    for n, d in deps.items():
        if n in DROP: continue
        if isinstance(d, str): d = {"version": d}
        d = dict(d)
        if d.pop("workspace", False):
            w = root["workspace"]["dependencies"][n]
            w = {"version": w} if isinstance(w, str) else dict(w)
            w["features"] = w.get("features", []) + d.pop("features", [])
            d = {**w, **d}
        if n in MODELS:
            d = {"path": os.path.join(VERIF, "models", n), **({"optional": True} if d.get("optional") else {})}
        d.pop("tag", None)
        if d.get("features") == []: d.pop("features")
        out.append(f"{n} = {val(d)}")
    out.append(f'verif_std = {{ path = "{VERIF}/models/verif_std" }}')
    out.append(f'vx = {{ path = "{VERIF}/models/vx" }}')
    out.append('[lints.rust]\nunexpected_cfgs = "allow"\nwarnings = "allow"')
    dst = os.path.join(ws, name)
    keep_toml = "\n".join(out) + "\n"
    tmp = {}
    for sub in ("src", "schema", "local_db"):
        s = os.path.join(src, sub)
        if os.path.isdir(s): tmp[sub] = s
    for sub, s in tmp.items():
        if sub == "src": continue
        copy_tree(s, os.path.join(dst, sub))
    # sources: the crate root is written with its appended lines
    s = tmp["src"]
    want = set()
    for d, ds, fs in os.walk(s):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, s)
            want.add(rel)
            text = open(p).read()
            if rel == "lib.rs":
                text += "\nextern crate verif_std as std;\n"
                if access: text += access
            write(os.path.join(dst, "src", rel), text)
    for d, _, fs in os.walk(os.path.join(dst, "src")):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, os.path.join(dst, "src")) not in want: os.unlink(p)
    write(os.path.join(dst, "Cargo.toml"), keep_toml)
    if name == "cdn-proto": write(os.path.join(dst, "build.rs"), BUILD_RS)


def generate(ws, harness, access=None, features=(), hname="h", deep=False):
    """A workspace for one harness file (harness/<harness>.rs)."""
    root = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb"))
    for c in CRATES: crate(ws, c, root, access if c == "cdn-broker" else None)
    text = open(os.path.join(VERIF, "harness", harness + ".rs")).read()
    sys_rs = open(os.path.join(VERIF, "harness", "sys.rs")).read() if "sys::" in text else ""
    if "world::" in text: sys_rs += open(os.path.join(VERIF, "harness", "world.rs")).read()
    used = [c for c in CRATES if c.replace("-", "_") in text + sys_rs]
    h = os.path.join(ws, hname)
    deps = "".join(f'{c} = {{ path = "../{c}"{FE(c, features)} }}\n' for c in CRATES if c in used or c == "cdn-proto")
    deps += "".join(f'{d} = {{ path = "{VERIF}/models/{d}" }}\n' for d in HDEPS)
    deps += 'anyhow = "1"\nasync-trait = "0.1"\ncapnp = "0.20"\n'
    write(os.path.join(h, "Cargo.toml"), f'[package]\nname = "{hname}"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n{deps}[lints.rust]\nunexpected_cfgs = "allow"\nwarnings = "allow"\n')
    common = open(os.path.join(VERIF, "harness", "common.rs")).read()
    entries = re.findall(r"^vx_entry!\((\w+)", text, re.M)
    disp = "".join(f'        "{e}" => {e}(),\n' for e in entries)
    write(os.path.join(h, "src", "main.rs"), common + f"pub const DEEP: bool = {str(deep).lower()};\n" + sys_rs + "\nmod h { use super::*;\n" + text + "\n}\n" +
          f'fn main() {{ let n = std::env::args().nth(1).unwrap_or_default(); use h::*; match n.as_str() {{\n{disp}        _ => panic!("no entry") }} println!("VX-END"); }}\n')
    members = CRATES + [hname]
    write(os.path.join(ws, "Cargo.toml"), "[workspace]\nresolver = \"2\"\nmembers = " + val(members) + "\n" + PROFILE)
    lock = os.path.join(VERIF, "tools", "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(ws, "Cargo.lock")): shutil.copy(lock, os.path.join(ws, "Cargo.lock"))
    return entries


def FE(c, features):
    fs = [f.split("/")[1] for f in features if f.startswith(c + "/")]
    return f", features = {val(fs)}" if fs else ""


if __name__ == "__main__":
    import sys
    acc = os.path.join(VERIF, "harness", "access.rs")
    print(generate(sys.argv[1], sys.argv[2], open(acc).read() if os.path.exists(acc) else None))
