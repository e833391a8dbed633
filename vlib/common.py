"""Paths, building and process helpers shared by all checks."""
import json, os, signal, subprocess, sys, time, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CPUS = os.cpu_count() or 4


class NoAnswer(Exception):
    """The check cannot tell (tool or build failure). Exit 2."""


def note(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()


def cargo_env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "-Awarnings"
    e["RUST_BACKTRACE"] = "0"
    e.pop("RUSTC_WRAPPER", None)
    return e


def build_harness(release=False):
    """Builds the harness against /repo's working tree. Returns the binary."""
    os.makedirs(BUILD, exist_ok=True)
    cmd = ["cargo", "build", "--offline", "--quiet"] + (["--release"] if release else [])
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=cargo_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode:
        raise NoAnswer("the harness does not build against /repo:\n" + p.stdout[-3000:])
    return os.path.join(TARGET, "release" if release else "debug", "varlen-harness")


def limit(mem):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def tlc(module, cfg, workdir, env=None, args=(), heap="2500m", timeout=600, workers=1):
    """Runs TLC; returns (return code, output)."""
    os.makedirs(workdir, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cp = "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + workdir, "-cp", cp, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(workdir, "meta"), "-noGenerateSpecTE",
           "-config", cfg] + list(args) + [module]
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         preexec_fn=os.setsid)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -1, out
    return p.returncode, out


def tlc_stats(out):
    """(distinct states, states generated)"""
    import re
    m = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
        pass
    return (int(m.group(2)), int(m.group(1))) if m else (0, 0)
