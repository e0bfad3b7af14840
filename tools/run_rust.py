"""Builds a Rust harness around real sources, with stand-ins for what they link against, and runs it."""
import hashlib, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("RTBOT_REPO", "/repo")


def key(files):
    h = hashlib.sha256(R.encode())
    for f in files:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:16]


def tree(*ds):
    return sorted(os.path.join(a, f) for d in ds for a, _, fs in os.walk(d) for f in fs if f.endswith((".rs", ".toml", ".in")))


def workspace(pid, sources, crates, bins):
    """A cargo workspace in /verif/build with the crates given: name -> (root file, is a macro crate, dependencies)"""
    d = f"{V}/build/{pid}." + key(tree(V + "/rust") + [os.path.abspath(__file__)] + tree(*sources))
    exe = d + "/run"
    if not os.path.exists(exe):
        w = f"{d}.{os.getpid()}"
        os.makedirs(w)
        for n, (root, macro, deps) in crates.items():
            os.makedirs(f"{w}/{n}")
            if not os.path.isabs(root):
                src = open(f"{V}/rust/{root}").read().replace("@REPO@", R)
                root = f"{w}/{n}/root.rs"
                open(root, "w").write(src)
            target = "[[bin]]\n" if n in bins else "[lib]\n" + ("proc-macro = true\n" if macro else "")
            dep = "".join(f'{x} = {{ path = "../{x}" }}\n' if x in crates else f"{x} = {v}\n" for x, v in deps.items())
            open(f"{w}/{n}/Cargo.toml", "w").write(f'[package]\nname = "{n}"\nversion = "9.0.0"\nedition = "2021"\n{target}name = "{n}"\npath = "{root}"\n[dependencies]\n{dep}')
        open(f"{w}/Cargo.toml", "w").write("[workspace]\nmembers = [%s]\nresolver = \"2\"\n[profile.release]\nopt-level = 2\ndebug = false\n" % ", ".join(f'"{n}"' for n in crates))
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=w + "/target", RUSTFLAGS="--cap-lints allow")
        r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-6000:], file=sys.stderr)
            print("the code does not compile with the harness", file=sys.stderr)
            shutil.rmtree(w, ignore_errors=True)
            sys.exit(2)
        os.makedirs(d, exist_ok=True)
        shutil.copy(f"{w}/target/release/{bins[0]}", exe + ".tmp")
        os.replace(exe + ".tmp", exe)
        shutil.rmtree(w, ignore_errors=True)
    return exe


THISERROR = '"1"'


def registry(pid):
    """C34: the registry alone"""
    return workspace(pid, [R + "/apps/rtbot-rs/src"], {
        "shim": ("shim.rs", False, {}), "nanoid": ("nanoid.rs", False, {}),
        "run": (pid + ".rs", False, {"shim": 0, "nanoid": 0, "thiserror": THISERROR}),
    }, ["run"])


def redis(pid):
    """C39: the Redis module with the registry"""
    m = R + "/apps/redis-module/src"
    json = {"serde_json": '"1"'}
    return workspace(pid, [m, R + "/apps/rtbot-rs/src"], {
        "explore": ("explore.rs", False, {}), "shim": ("shim.rs", False, {}), "nanoid": ("nanoid.rs", False, {}), 
        "redis_module": ("redis/redis_module/lib.rs", False, {}), "jsonschema": ("redis/jsonschema/lib.rs", False, json),
        "rtbot_rs": ("redis/rtbot_rs.rs", False, {"shim": 0, "nanoid": 0, "thiserror": THISERROR}),
        "rtbot": (m + "/lib.rs", False, {"redis_module": 0, "jsonschema": 0, "rtbot_rs": 0, "nanoid": 0, "thiserror": THISERROR, **json}),
        "run": (pid + ".rs", False, {"explore": 0, "shim": 0, "redis_module": 0, "rtbot_rs": 0, "rtbot": 0, "nanoid": 0}),
    }, ["run"])


def server(pid):
    """C42: the server, as it is, with its environment replaced"""
    m = R + "/apps/rtbot-server/src"
    fut = {"futures-core": '"0.3"', "futures-sink": '"0.3"'}
    serde = {"serde": '{ version = "1", features = ["derive"] }', "serde_json": '"1"'}
    sim = {"sim": 0}
    s = lambda n: f"server/{n}.rs"
    return workspace(pid, [m], {
        "explore": ("explore.rs", False, {}), "sim": (s("sim"), False, {}), "nanoid": ("nanoid.rs", False, {}), "tokio_main": (s("tokio_main"), True, {}),
        "harness": (pid + ".rs", False, {"explore": 0, "sim": 0, "nanoid": 0, **serde}),
        "tokio": (s("tokio"), False, {"real_tokio": '{ package = "tokio", version = "1", default-features = false, features = ["sync"] }', "tokio_main": 0, "harness": 0, **sim}),
        "config": (s("config"), False, {**serde, **sim}), "glob": (s("glob"), False, {}), "pretty_env_logger": (s("pretty_env_logger"), False, {}), "url": (s("url"), False, {}),
        "jsonpath_rust": (s("jsonpath_rust"), False, {**serde, **sim}), "tokio_tungstenite": (s("tokio_tungstenite"), False, {**fut, **sim}), "redis": (s("redis"), False, {**fut, **sim}), "warp": (s("warp"), False, {**fut, **serde, **sim}),
        "rtbot_server": (m + "/main.rs", False, {**{n: 0 for n in ("tokio", "tokio_tungstenite", "url", "warp", "config", "redis", "glob", "pretty_env_logger", "jsonpath_rust", "nanoid")}, "thiserror": THISERROR, "futures-util": '{ version = "0.3", default-features = false, features = ["sink", "std"] }', "log": '"0.4"', **serde}),
    }, ["rtbot_server"])


def main(pid, tier, common, args):
    exe = {"C34": registry, "C39": redis, "C42": server}[pid](pid)
    return subprocess.run([exe, *common, *args], env=dict(os.environ, VERIF_TIER=tier)).returncode
