"""Compiling small programs against /repo's current varlen."""
import hashlib, json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *


class Compiler:
    def __init__(self, work):
        self.dir = work
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        cmd = ["cargo", "build", "--offline", "--quiet", "--message-format=json"]
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "probe"), env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
        lib = {}
        for line in p.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith(".rlib"):
                        lib[m["target"]["name"]] = f
        if p.returncode or "varlen" not in lib or "bumpalo" not in lib:
            raise NoAnswer("varlen does not build:\n" + (p.stderr + p.stdout)[-3000:])
        self.ext = []
        for n in ("varlen", "bumpalo"):
            self.ext += ["--extern", "%s=%s" % (n, lib[n])]
        self.deps = os.path.join(TARGET, "debug", "deps")
        self.runs = 0

    def file(self, src):
        p = os.path.join(self.dir, "p" + hashlib.sha1(src.encode()).hexdigest()[:16] + ".rs")
        with open(p, "w") as f:
            f.write(src)
        return p

    def one(self, src, extra=(), keep=False, crate=None):
        """(compiles, errors). With keep, the metadata stays, for use by other programs."""
        p = self.file(src)
        out = p[:-2] + "rmeta" if crate is None else os.path.join(self.dir, "lib%s.rmeta" % crate)
        cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--error-format=json", "-o", out, "-L", "dependency=" + self.deps,
               "-L", "dependency=" + self.dir, "-Awarnings"] + (["--crate-name", crate] if crate else ["--crate-name", "p"]) + self.ext + list(extra) + [p]
        self.runs += 1
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, preexec_fn=limit(4 << 30))
        except subprocess.TimeoutExpired:
            return False, [("rustc (or the macro) did not finish", None, [])]
        errs = []
        for line in r.stderr.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level", "").startswith("error") and not m["message"].startswith("aborting due"):
                lines = []
                for s in m["spans"]:
                    while s:
                        if s["file_name"] == p:
                            lines.append(s["line_start"])
                        s = (s.get("expansion") or {}).get("span")
                errs.append((m["message"], (m.get("code") or {}).get("code"), lines))
        ok = r.returncode == 0
        if not ok and (not errs or "internal compiler error" in r.stderr):
            raise NoAnswer("rustc failed on %s:\n%s" % (p, r.stderr[-2000:]))
        if ok and not keep and os.path.exists(out):
            os.unlink(out)
        return ok, errs

    def map(self, f, xs):
        with ThreadPoolExecutor(CPUS) as ex:
            return list(ex.map(f, xs))

    def judge(self, cases, prelude, chunk, extra=(), batch=40):
        """cases: dicts with text and accept. A program is the prelude and, for each case, the
        items chunk(number, text), which do not interact. Returns the cases whose verdict differs,
        with rustc's messages. Cases are compiled many at a time. What should compile is split up
        when a batch fails; of what should not, whatever has an error of its own is done with, and
        the others are compiled again without those, until they alone compile."""
        def program(g):
            src, spans = prelude + "\n", []
            for i, c in enumerate(g):
                first = src.count("\n") + 1
                src += chunk(i, c["text"]) + "\n"
                spans.append((first, src.count("\n")))
            return src, spans

        good = [c for c in cases if c["accept"]]
        if prelude and good:
            ok, errs = self.one(prelude + "\n", extra)
            if not ok:                    # no program compiles, whatever it says
                return [(good[0], errs)]
        found = []

        def accepts(g):
            ok, errs = self.one(program(g)[0], extra)
            if ok:
                return []
            if len(g) == 1 or len(found) > 60:      # (enough is known)
                found.append(g[0])
                return [(g[0], errs)]
            h = len(g) // 2
            return accepts(g[:h]) + accepts(g[h:])

        def rejects(g):
            while g:
                src, spans = program(g)
                ok, errs = self.one(src, extra)
                if ok:
                    return [(c, []) for c in g]
                rest = [c for c, (a, b) in zip(g, spans) if not any(a <= l <= b for e in errs for l in e[2])]
                if len(rest) == len(g):
                    if len(g) == 1:
                        return []         # an error elsewhere, but one of this program
                    h = len(g) // 2
                    return rejects(g[:h]) + rejects(g[h:])
                g = rest
            return []
        jobs = []
        for want, f in ((True, accepts), (False, rejects)):
            cs = [c for c in cases if c["accept"] == want]
            jobs += [(f, cs[i:i + batch]) for i in range(0, len(cs), batch)]
        r = []
        for x in self.map(lambda j: j[0](j[1]), jobs):
            r += x
        return r


CASE = re.compile(r'^<<"CASE", "(.*)">>$', re.M)


def cases(module, work, family, n=0, seed=1, extra=None, depth=12):
    env = dict(extra or {}, FAMILY=family)
    args = [] if n == 0 else ["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(seed)]
    rc, out = tlc(module, module + ".cfg", os.path.join(work, "gen." + family), env, args=args, timeout=300)
    r = [json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")) for m in CASE.finditer(out)]
    if not r or (n == 0 and "Model checking completed. No error has been found." not in out):
        raise NoAnswer("TLC did not enumerate the programs:\n" + out[-2000:])
    return r


def known(prop):
    """Known findings of a property: the failing input of each."""
    r = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            pre = "finding: property=%s " % prop
            if line.startswith(pre):
                r.append(line[len(pre):].rstrip("\n").split(" :: ")[0])
    return r
