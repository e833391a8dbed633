"""C03, C04: cases enumerated by TLC from spec/Overflow.tla, run on the real crate, judged by
spec/OverflowTrace.tla."""
import json, os, re, shutil, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from common import *
from campaign import fix_tail, count_lines

CASE = re.compile(r'^<<"CASE", "(.*)">>$', re.M)
FAIL = re.compile(r'<<"FAIL", "([^"]*)", (\d+)>>')


def number(limbs):
    return sum(d << (15 * i) for i, d in enumerate(limbs))


def cases(binary, work, deep):
    types = os.path.join(work, "otypes.json")
    with open(types, "w") as f:
        subprocess.run([binary, "otypes"], stdout=f, check=True)
    rc, out = tlc("OverflowGen", "OverflowGen.cfg", os.path.join(work, "gen"), {"OTYPES": types, "DEEP": "1" if deep else "0"}, workers=CPUS, timeout=400)
    if "Model checking completed. No error has been found." not in out:
        raise NoAnswer("TLC did not enumerate the cases:\n" + out[-2000:])
    o, n = [], []
    for m in CASE.finditer(out):
        c = json.loads(m.group(1).replace('\\"', '"'))
        if c[0] == "o":
            o.append("o %d %s" % (c[1], " ".join(str(number(x)) for x in c[2])))
        else:
            n.append("n %s %s %s %d" % (c[1][0], c[1][1], c[1][2], number(c[1][3])))
    return types, sorted(o), sorted(n)


class Shard:
    def __init__(self, no, binary, lines, work, types):
        self.no, self.bin, self.lines, self.dir, self.types = no, binary, lines, work, types

    def p(self, x):
        return os.path.join(self.dir, "s%d.%s" % (self.no, x))

    def record(self):
        with open(self.p("txt"), "w") as f:
            f.write("\n".join(self.lines) + "\n")
        ev = self.p("ev")
        open(ev, "w").close()
        first, crashes = 0, 0
        while first < len(self.lines):
            with open(self.p("err"), "w") as err:
                p = subprocess.Popen([self.bin, "overflow", self.p("txt"), ev, str(first)], stdout=subprocess.DEVNULL, stderr=err,
                                     preexec_fn=limit(16 << 30), env=dict(os.environ, RUST_BACKTRACE="0"))
                hung = not self.wait(p)
            if p.returncode == 0:
                break
            try:
                cur = int(open(ev + ".cur").read())
            except (OSError, ValueError):
                raise NoAnswer("the harness failed: " + open(self.p("err")).read()[-2000:])
            if p.returncode == 2 and not hung:
                raise NoAnswer("bad case " + self.lines[cur])
            fix_tail(ev)
            with open(ev, "a") as f:
                f.write(json.dumps({"e": "crash", "kind": self.lines[cur][0], "case": cur, "rc": p.returncode, "hung": hung}) + "\n")
            first = cur + 1
            crashes += 1
            if crashes > 20:
                break
        # what a process wrote after its memory was damaged may be no JSON
        good = []
        for line in open(ev, errors="replace"):
            try:
                json.loads(line)
                good.append(line)
            except ValueError:
                good.append(json.dumps({"e": "crash", "kind": self.lines[0][0], "case": min(len(good), len(self.lines) - 1), "rc": 0, "hung": False}) + "\n")
        with open(ev, "w") as f:
            f.writelines(good)
        self.nev = count_lines(ev)

    def wait(self, p):
        last, since = None, time.time()
        while True:
            try:
                p.wait(0.2)
                return True
            except subprocess.TimeoutExpired:
                pass
            try:
                now = open(self.p("ev") + ".cur").read()
            except OSError:
                now = None
            if now != last:
                last, since = now, time.time()
            elif time.time() - since > 30:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return False

    def judge(self):
        rc, self.out = tlc("OverflowTrace", "OverflowTrace.cfg", os.path.join(self.dir, "tlc%d" % self.no),
                           {"TRACE_EV": self.p("ev"), "OTYPES": self.types}, timeout=700)
        if rc == -1 or "OutOfMemoryError" in self.out or "StackOverflowError" in self.out or "Could not parse" in self.out:
            raise NoAnswer("TLC failed:\n" + self.out[-2000:])
        ev = [json.loads(x) for x in open(self.p("ev"))]
        r = [(m.group(1), ev[int(m.group(2)) - 1]) for m in FAIL.finditer(self.out)]
        if "Model checking completed. No error has been found." not in self.out:
            m = None
            for m in re.finditer(r"^l = (\d+)", self.out, re.M):
                pass
            if m is None:
                raise NoAnswer("TLC gave no verdict:\n" + self.out[-1500:])
            r.append(("eval", ev[min(int(m.group(1)), len(ev)) - 1]))
        return [dict(label=lab, ev=e, script=[self.lines[e["case"]]]) for lab, e in r]


def run(prop, tier, ev):
    note("building the harness")
    deep = tier != "quick"
    bins = [build_harness()] + ([build_harness(release=True)] if deep else [])
    work = os.path.join(BUILD, "work", prop + "." + tier)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    types, o, n = cases(bins[0], work, deep)
    lines = o if prop == "C03" else n
    if len(lines) < 1000:
        raise NoAnswer("too few cases were enumerated")
    note("%d cases" % len(lines))
    # (a deep run also judges an optimized build)
    n = CPUS * (6 if deep else 1)
    sh = [Shard(i + n * j, b, lines[i::n], work, types) for j, b in enumerate(bins) for i in range(n)]

    def go(s):
        s.record()
        return s.judge()
    with ThreadPoolExecutor(CPUS) as ex:
        fails = [f for fs in ex.map(go, sh) for f in fs]
    events = sum(s.nev for s in sh)
    note("%d events" % events)
    st = [tlc_stats(s.out) for s in sh]
    ev["coverage"].update(states=sum(a for a, _ in st), transitions=sum(max(0, b - 1) for _, b in st),
                          traces_validated_against_impl=len(lines) * len(bins), events=events, samples=lines[:: max(1, len(lines) // 6)][:6])
    return fails
