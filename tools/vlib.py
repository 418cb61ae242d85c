"""building and running the harness"""
import hashlib, json, os, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
REPO = "/repo"
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
sys.path.insert(0, HERE)

ENV = dict(os.environ)
for k in ("MACROTEST", "TRYBUILD", "RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
ENV.update(RUSTUP_TOOLCHAIN="1.88.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET,
           HOME=os.environ.get("HOME", "/root"), CARGO_INCREMENTAL="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")

class Broken(Exception):
    """the check itself could not run"""


class Violation(Exception):
    def __init__(self, message, replay):
        super().__init__(message)
        self.message = message
        self.replay = replay


def repo_hash():
    h = hashlib.sha256()
    for base in ("packages/teleparse", "packages/macros"):
        for d, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def cargo(args, cwd, timeout=1500, env=None):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, errors="replace", timeout=timeout)
    return p


def fresh_repo_build():
    """cargo decides by modification times; make sure a change of content is always rebuilt"""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "repo.sha256")
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != h:
        cargo(["clean", "--offline", "-p", "teleparse", "-p", "teleparse-macros"], HARNESS)
    if old != h:
        with open(stamp, "w") as f:
            f.write(h)


def generated(name, text):
    """write a generated source file, keeping its time if it is the same"""
    d = os.path.join(WORK, "gen")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)
    return path


def build(pkg, env=None):
    fresh_repo_build()
    p = cargo(["build", "--offline", "--locked", "-p", pkg, "--message-format=short"], HARNESS, env=env)
    if p.returncode != 0:
        # does the crate under test build at all?
        q = cargo(["build", "--offline", "--locked", "-p", "teleparse"], HARNESS)
        e = Broken(f"the harness package {pkg} does not build against /repo\n" + p.stderr[-6000:])
        e.errors = p.stderr if q.returncode == 0 else ""
        raise e
    return os.path.join(TARGET, "debug", pkg)


def save_replay(prop, tag, data):
    d = os.path.join(WORK, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{tag}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    return path


def read_cursor(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return []
    r = []
    for i in range(0, len(b) - 7, 8):
        v = int.from_bytes(b[i:i + 8], "little")
        if v:
            r.append(v - 1)
    return sorted(set(r))


def limit_cpu(sec):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (sec, sec + 1))
    return f


def run_binary(binary, pkg, suite, prop, seed, tier, extra=(), save=None):
    """run one suite of a vp-core binary; returns its result, raises Violation / Broken"""
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, f"{prop}-{suite}.out.json")
    cur = os.path.join(WORK, f"{prop}-{suite}.cur")
    for attempt, hang in ((0, 30), (1, 240)):
        for p in (out, cur):
            if os.path.exists(p):
                os.remove(p)
        cmd = [binary, "run", "--suite", suite, "--seed", str(seed), "--tier", tier, "--out", out, "--cursor", cur,
               "--hang-seconds", str(hang)] + list(extra)
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if p.returncode in (0, 1) and os.path.exists(out):
            r = json.load(open(out))
            if p.returncode == 1:
                v = r["violation"]
                v["package"] = pkg
                for key, path in (save or {}).items():
                    v[key] = open(path).read()
                v["how_to_replay"] = f"{binary} replay --file THIS_FILE  (after tools/check.py {prop} has built it)"
                raise Violation(v["message"] + ((" | " + v["description"]) if v["description"] else ""),
                                save_replay(prop, suite, v))
            return r
        # the process died: find the case, confirm it alone
        cases = read_cursor(cur)
        for c in cases:
            f = save_replay(prop, suite, {"suite": suite, "seed": str(seed), "case": c, "package": pkg})
            try:
                q = subprocess.run([binary, "replay", "--file", f], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   text=True, errors="replace", preexec_fn=limit_cpu(40), timeout=400)
                rc = q.returncode
            except subprocess.TimeoutExpired:
                continue
            if rc != 0:
                why = {1: "fails", 97: "allocates without bound"}.get(rc)
                if why is None:
                    why = "does not terminate (40 s of CPU time)" if rc in (-9, -24) else f"crashes the process ({rc})"
                raise Violation(f"case {c} of suite {suite} {why}: {q.stdout[-500:]} {q.stderr[-500:]}", f)
            os.remove(f)
        if p.returncode != 98:
            raise Broken(f"suite {suite} ended with {p.returncode}: {p.stderr[-2000:]}")
    raise Broken(f"suite {suite} is too slow here: {p.stderr[-500:]}")


