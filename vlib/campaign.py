"""Runs scripts on the real crate and lets TLC judge the recorded traces."""
import json, os, re, shutil, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from common import *
import labels

FAIL = re.compile(r'<<"FAIL", "([^"]*)", "([^"]*)", "([^"]*)", (\d+)>>')


class Shard:
    def __init__(self, no, binary, scripts, workdir, types):
        self.no, self.bin, self.scripts, self.dir, self.types = no, binary, scripts, workdir, types
        self.crashes = 0
        self.out = ""
        self.rc = None
        self.nev = self.nob = 0

    def p(self, ext):
        return os.path.join(self.dir, "t%d.%s" % (self.no, ext))

    def record(self):
        with open(self.p("scr"), "w") as f:
            for s in self.scripts:
                f.write("\n".join(s) + "\n")
        for x in ("ev", "ob"):
            open(self.p(x), "w").close()
        first, stuck = 0, 0
        env = dict(os.environ, RUST_BACKTRACE="0")
        while first < len(self.scripts):
            base = count_lines(self.p("ob"))
            with open(self.p("err"), "w") as err:
                p = subprocess.Popen([self.bin, "run", self.p("scr"), self.p("t")[:-2], str(first), str(base)],
                                     stdout=subprocess.DEVNULL, stderr=err, preexec_fn=limit(3 << 30), env=env)
                hung = not self.wait(p)
            if p.returncode == 0:
                break
            # The process died (or hangs) inside an operation.
            try:
                cur = open(self.p("cur"), errors="replace").read().split()
                n = int(cur[0]) if cur and cur[0].isdigit() else first + 1
            except OSError:
                cur, n = [], first + 1
            if cur[:1] == ["F"]:      # while clearing up after a script
                n = max(last_reset(self.p("ev")), first + 1)
            text = " ".join(cur[1:])
            why = "hang" if hung else "oom" if "memory allocation of" in open(self.p("err"), errors="replace").read() else "signal"
            op = cur[1] if len(cur) > 1 else "?"
            ev = {"e": "crash", "k": op, "out": "crash", "why": why, "box": op in ("new", "clone") and "new o" not in text,
                  "refused": " fa=" in text, "rc": p.returncode, "op": text}
            fix_tail(self.p("ev"))
            fix_tail(self.p("ob"))
            with open(self.p("ev"), "a") as f:
                f.write(json.dumps(ev) + "\n")
            if not (why == "oom" and ev["box"] and ev["refused"]):
                self.crashes += 1
            stuck += hung
            if self.crashes > 25 or stuck > 1:
                break
            first = n
        self.sanitize()
        self.nev, self.nob = count_lines(self.p("ev")), count_lines(self.p("ob"))

    def sanitize(self):
        """What a process wrote after its memory was damaged may be no JSON: the trace ends there."""
        good, n = [], 0
        with open(self.p("ev"), "rb") as f:
            for line in f:
                try:
                    x = json.loads(line)
                    good.append(line)
                    n = x.get("n", n) if x["e"] == "reset" else n
                except (ValueError, KeyError, AttributeError):
                    good.append((json.dumps({"e": "crash", "k": "?", "out": "crash", "why": "garbage", "box": False, "refused": False, "rc": 0, "op": "?"}) + "\n").encode())
                    with open(self.p("ev"), "wb") as g:
                        g.writelines(good)
                    break
        bad = False
        with open(self.p("ob"), "rb") as f:
            lines = f.readlines()
        for i, line in enumerate(lines):
            try:
                json.loads(line)
            except ValueError:
                bad, lines[i] = True, b"{}\n"      # whatever mentions it cannot be evaluated
        if bad:
            with open(self.p("ob"), "wb") as g:
                g.writelines(lines)

    def wait(self, p):
        """False if no progress was made for a while."""
        last, since = None, time.time()
        while True:
            try:
                p.wait(0.2)
                return True
            except subprocess.TimeoutExpired:
                pass
            try:
                now = (os.path.getsize(self.p("ev")), open(self.p("cur"), errors="replace").read(200))
            except OSError:
                now = None
            if now != last:
                last, since = now, time.time()
            elif time.time() - since > 25:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return False

    def judge(self, timeout):
        if self.nev == 0:
            raise NoAnswer("nothing was recorded")
        if self.nob == 0:
            with open(self.p("ob"), "w") as f:
                f.write("{}\n")
        env = {"TRACE_EV": self.p("ev"), "TRACE_OB": self.p("ob"), "TRACE_TY": self.types}
        self.rc, self.out = tlc("Trace", "Trace.cfg", os.path.join(self.dir, "tlc%d" % self.no), env, timeout=timeout)
        if self.rc == -1:
            raise NoAnswer("TLC ran out of time")
        if "OutOfMemoryError" in self.out or "StackOverflowError" in self.out or "Could not parse" in self.out:
            raise NoAnswer("TLC failed:\n" + self.out[-2000:])

    def fails(self):
        """[(label, event line)]; an evaluation error counts, located at the event it happened on"""
        r = [(m.group(1), int(m.group(4))) for m in FAIL.finditer(self.out)]
        if "Model checking completed. No error has been found." not in self.out:
            if "is violated" in self.out and "evaluat" not in self.out:
                raise NoAnswer("TLC stopped early:\n" + self.out[-1500:])
            m = None
            for m in re.finditer(r"^/\\ l = (\d+)", self.out, re.M):
                pass
            if m is None and "Error" not in self.out:
                raise NoAnswer("TLC gave no verdict:\n" + self.out[-1500:])
            r.append(("eval", int(m.group(1)) if m else 1))
        return r

    def trace(self):
        """script number (0-based) and parsed event of every event line"""
        res, n = [], 0
        for line in open(self.p("ev")):
            e = json.loads(line)
            if e["e"] == "reset":
                n = e["n"] - 1
            res.append((n, e))
        return res


def count_lines(p):
    with open(p, "rb") as f:
        return sum(b.count(b"\n") for b in iter(lambda: f.read(1 << 20), b""))


def last_reset(p):
    n = 0
    for line in open(p, errors="replace"):
        if line.startswith('{"e":"reset"'):
            try:
                n = json.loads(line)["n"]
            except ValueError:
                pass
    return n


def fix_tail(p):
    """drop an incomplete last line"""
    d = open(p, "rb").read()
    if d and not d.endswith(b"\n"):
        open(p, "wb").write(d[:d.rfind(b"\n") + 1])


class Result:
    def __init__(self):
        self.events = self.objects = self.scripts = self.states = self.traces = 0
        self.ops = {}
        self.fails = []       # dicts: label, ev, script (text), shard
        self.samples = []
        self.notes = []
        self.transitions = 0
        self.trace = []       # parsed events, per shard

    def add_fail(self, label, ev, earlier, script, props):
        self.fails.append(dict(label=label, ev=ev, script=script, props=props))


def run(binary, scripts, workdir, timeout=600, shards=CPUS):
    """Runs all scripts; returns a Result with every failed condition attributed."""
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    types = os.path.join(workdir, "types.json")
    with open(types, "w") as f:
        subprocess.run([binary, "types"], stdout=f, check=True)
    n = max(1, min(shards, len(scripts)))
    sh = [Shard(i, binary, scripts[i::n], workdir, types) for i in range(n)]

    def go(s):
        s.record()
        s.judge(timeout)
        return s
    with ThreadPoolExecutor(CPUS) as ex:
        sh = list(ex.map(go, sh))
    res = Result()
    raw = []
    for s in sh:
        st = tlc_stats(s.out)
        res.states += st[0]
        res.transitions += max(0, st[1] - 1)
        res.events += s.nev
        res.objects += s.nob
        tr = s.trace()
        res.trace.append([e for _, e in tr])
        res.scripts += len({n for n, _ in tr})
        for n, e in tr:
            if e["e"] == "op":
                key = e["k"] if e["out"] in ("ok", "none") else e["k"] + "!"
                res.ops[key] = res.ops.get(key, 0) + 1
        if len(res.samples) < 4 and s.scripts:
            res.samples.append(" ; ".join(s.scripts[len(s.scripts) // 2])[:600])
        for label, l in s.fails():
            n, e = tr[min(l, len(tr)) - 1]
            earlier = []
            for m, x in tr[:l - 1][::-1]:
                if m != n or x["e"] == "reset":
                    break
                earlier.append(x)
            raw.append((label, e, earlier, s.scripts[n]))
    special = list(labels.LATER.values())
    plain = {(lab, e.get("k")) for lab, e, earlier, _ in raw if not any(f(x) for x in earlier + [e] for f in special)}
    for lab, e, earlier, scr in raw:
        res.add_fail(lab, e, earlier, scr, labels.attribute(lab, e, earlier, plain))
    res.traces = res.scripts
    return res
