"""vendor.py DIR: a source directory for cargo with what the build of std for WebAssembly and the harness need, made of links to what is installed."""
import glob, json, os, re, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.abspath(sys.argv[1])
lib = subprocess.run(["rustc", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip() + "/lib/rustlib/src/rust/library"
home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
places = glob.glob(home + "/registry/src/*/") + [lib + "/vendor/"]
os.makedirs(out + "/vend", exist_ok=True)
for lock in [here + "/Cargo.lock", lib + "/Cargo.lock"]:
    for b in open(lock).read().split("[[package]]")[1:]:
        name, version, sum_ = [(re.search(k + r' = "(.*?)"', b) or [None, None])[1] for k in ("name", "version", "checksum")]
        d = next((p + f"{name}-{version}" for p in places if os.path.isdir(p + f"{name}-{version}")), None)
        t = f"{out}/vend/{name}-{version}"
        if not sum_ or not d or os.path.exists(t):
            continue
        os.makedirs(t)
        for f in os.listdir(d):
            if f not in (".cargo-checksum.json", ".cargo-ok"):
                os.symlink(f"{d}/{f}", f"{t}/{f}")
        json.dump({"files": {}, "package": sum_}, open(t + "/.cargo-checksum.json", "w"))
open(out + "/vend.toml", "w").write(f'[source.crates-io]\nreplace-with = "vend"\n[source.vend]\ndirectory = "{out}/vend"\n')
