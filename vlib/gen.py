"""Random operation scripts. Only inputs are chosen here; nothing is judged.

A rough idea of which slots are in use keeps most operations applicable; the
harness itself skips what does not apply.
"""
import random

KINDS = ["new", "push", "ext", "col", "mac", "seq", "drop", "dinit", "mut", "swp", "ctl", "take", "next",
         "forget", "tcount", "tlast", "free", "iter", "look", "foff", "leak", "raw", "unraw", "clone", "bare", "mvs", "arr"]

BASE = dict(new=8, push=16, ext=4, col=2, mac=1, seq=4, drop=7, dinit=2, mut=6, swp=2, ctl=3, take=4, next=8,
            forget=1, tcount=1, tlast=1, free=5, iter=2, look=3, foff=2, leak=1, raw=2, unraw=2, clone=3, bare=0, mvs=1, arr=1)


class Gen:
    def __init__(self, rng, weights=None, faults=0.0, bad=0.0, refuse=0.0, big=0.05, clone=0.2, mv=0.2, checked=0.6, arena=0.34):
        self.r = rng
        self.w = dict(BASE)
        self.w.update(weights or {})
        self.faults, self.bad, self.refuse, self.big = faults, bad, refuse, big
        self.clone, self.mv, self.checked, self.arena = clone, mv, checked, arena

    def lens(self):
        r = self.r
        if r.random() < self.big:
            hi = r.choice([9, 17, 33, 45, 70, 130])
        else:
            hi = r.choice([1, 2, 3, 3, 4, 5])
        return "ls=" + ",".join(str(r.choice([0, 1, r.randint(0, hi), r.randint(0, hi)])) for _ in range(r.randint(1, 5)))

    def fault(self, kinds="cdf"):
        r = self.r
        if r.random() >= self.faults:
            return ""
        k = r.choice(kinds)
        return " f%s=%d" % (k, r.choice([1, 1, 2, 2, 3, 4, 5, 7]))

    def pick(self, have):
        return self.r.choice(sorted(have)) if have else None

    def script(self, name, ty, n):
        r = self.r
        out = ["S %s %s" % (name, ty)]
        self.own = {}          # slot -> kind
        self.sq = {}           # slot -> [mode, len]
        self.ses = None        # remaining
        self.busy = None
        for _ in range(n):
            line = self.op()
            if line:
                out.append(line)
        if r.random() < self.refuse:
            # a refused box ends the process, so this comes last
            a, b = r_choice(r, sorted(s for s in self.own if s[0] == "b")), self.free_slot("b")
            if b and a and r.random() < 0.4:
                out.append("clone %s %s fa=1" % (a, b))
            elif b:
                out.append("new %s %s fa=1 flat=1" % (b, self.src(None)))
        return out

    def src(self, dst=None, allow_mv=True):
        """an initializer expression"""
        r = self.r
        x = r.random()
        movable = [s for s in self.own if s[0] in "bok" and not (s[0] == "k" and dst == self.busy)]
        shared = list(self.own)
        shared = [s for s in shared if s[0] in "bokl" and not (s[0] == "k" and dst == self.busy)]
        for q, v in self.sq.items():
            if q != dst and q != self.busy and v[1] > 0:
                shared.append("%s.%d" % (q, r.randrange(v[1])))
        if x < self.mv and movable and allow_mv:
            m = self.pick(movable)
            del self.own[m]
            return "src=mv:" + m
        if x < self.mv + self.clone and shared:
            return "src=%s:%s" % (r.choice(["clone", "clone", "copy"]), r.choice(sorted(shared)))
        s = "%s rt=%d" % (self.lens(), r.randrange(1, 1 << 30))
        if r.random() < self.bad:
            s += " bad=%d badat=%d" % (r.choice([1, 1, 2, 3]), r.choice([0, 1, 2, 3]))
            s += r.choice(["", " force=%d" % r.choice([2, 3, 4, 6])])
        elif r.random() < 0.15:
            s += " force=%d" % r.choice([1, 2, 3, 4, 5, 6])
        return s

    def op(self):
        r = self.r
        ks, ws = zip(*self.w.items())
        for _ in range(20):
            k = r.choices(ks, ws)[0]
            f = getattr(self, "op_" + k)()
            if f:
                return f
        return None

    def free_slot(self, c):
        f = [c + str(i) for i in range(3) if c + str(i) not in self.own]
        return r_choice(self.r, f)

    def free_seq(self):
        return r_choice(self.r, ["s%d" % i for i in range(3) if "s%d" % i not in self.sq])

    def seq(self, nonempty=False):
        return r_choice(self.r, sorted(s for s in self.sq if s != self.busy and (not nonempty or self.sq[s][1] > 0)))

    def place(self):
        c = sorted(s for s in self.own if s[0] in "bokl")
        for q in sorted(self.sq):
            if q != self.busy and self.sq[q][1]:
                c += ["%s.%d" % (q, self.r.randrange(self.sq[q][1])) for _ in range(3)]
        return r_choice(self.r, c)

    def op_new(self):
        c = "o" if self.r.random() < self.arena else "b"
        s = self.free_slot(c)
        if not s:
            return None
        e = self.src()
        f = self.fault()
        if not f:
            self.own[s] = c
        return "new %s %s%s" % (s, e, f)

    def op_push(self):
        s = self.seq()
        if not s:
            return None
        e = self.src(s)
        if self.r.random() < self.refuse:
            return "push %s %s fa=1 flat=1" % (s, e)
        f = self.fault()
        if not f:
            self.sq[s][1] += 1
        return "push %s %s%s" % (s, e, f)

    def multi(self):
        r = self.r
        e = "%s rt=%d" % (self.lens(), r.randrange(1, 1 << 30))
        if r.random() < self.bad:
            e += " bad=%d badat=%d" % (r.choice([1, 1, 2]), r.choice([1, 2, 3]))
        return e

    def op_ext(self):
        s = self.seq()
        if not s:
            return None
        n = self.r.choice([0, 1, 2, 3, 4, 6])
        e = self.multi()
        f = self.fault()
        if self.r.random() < self.faults:
            f += " stop=%d" % self.r.randint(1, n + 1)
        if self.r.random() < self.refuse:
            f = " fa=%d flat=1" % self.r.choice([1, 1, 2])
        if not f:
            self.sq[s][1] += n
        return "ext %s cnt=%d hint=%d %s%s" % (s, n, self.r.randrange(7), e, f)

    def op_col(self):
        s = self.free_seq()
        if not s:
            return None
        n = self.r.choice([0, 1, 2, 3, 5])
        m = "c" if self.r.random() < self.checked else "u"
        e = self.multi()
        f = self.fault()
        if self.r.random() < self.faults:
            f += " stop=%d" % self.r.randint(1, n + 1)
        if not f:
            self.sq[s] = [m, n]
        return "col %s %s cnt=%d hint=%d %s%s" % (s, m, n, self.r.randrange(7), e, f)

    def op_mac(self):
        s = self.free_seq()
        if not s:
            return None
        e = self.multi()
        f = self.fault()
        if not f:
            self.sq[s] = ["u", 3]
        return "mac %s %s%s" % (s, e, f)

    def op_seq(self):
        s = self.free_seq()
        if not s:
            return None
        m = "c" if self.r.random() < self.checked else "u"
        self.sq[s] = [m, 0]
        return "seq %s %s v=%d" % (s, m, self.r.randrange(2))

    def op_drop(self):
        r = self.r
        c = [s for s in self.own if s[0] in "bok"] + [s for s in self.sq if s != self.busy]
        if self.ses is not None:
            c.append("t")
        s = r_choice(r, sorted(c))
        if not s:
            return None
        if s == "t":
            self.ses = None
        elif s in self.sq:
            del self.sq[s]
        else:
            del self.own[s]
        return "drop %s%s" % (s, self.fault("d"))

    def op_dinit(self):
        return "dinit " + self.src()

    def op_mut(self):
        p = self.place()
        if not p:
            return None
        return "mut %s leaf=%d idx=%d path=%d rt=%d" % (p, self.r.choice([0, 0, 1, 1, 2, 3, 4, 5]), self.r.choice([0, 0, 1, 2, 3]), self.r.randrange(4), self.r.randrange(1, 1 << 30))

    def op_swp(self):
        p = self.place()
        if not p:
            return None
        return "swp %s leaf=%d idx=%d jdx=%d path=%d" % (p, self.r.choice([0, 1, 1, 2, 3, 4, 5]), self.r.choice([0, 1, 2]), self.r.choice([0, 1, 2]), self.r.randrange(4))

    def op_ctl(self):
        p = self.place()
        if not p:
            return None
        return "ctl %s mode=%d rt=%d path=%d%s" % (p, self.r.randrange(4), self.r.randrange(1, 1 << 30), self.r.randrange(4), self.fault("d"))

    def op_take(self):
        if self.busy or self.ses is not None:
            return None
        s = self.seq()
        if not s:
            return None
        self.ses = self.sq[s][1]
        self.sq[s][1] = 0
        self.busy = s
        return "take " + s

    def op_next(self):
        if self.ses is None:
            return None
        s = self.free_slot("k")
        if not s:
            return None
        skip = self.r.choice([0] * 8 + [1, 1, 2, 3])
        if self.ses > skip:
            self.own[s] = "k"
        self.ses = max(0, self.ses - skip - 1)
        return "next %s%s" % (s, " skip=%d" % skip if skip else "")

    def op_tlast(self):
        if self.ses is None:
            return None
        s = self.free_slot("k")
        if not s:
            return None
        if self.ses:
            self.own[s] = "k"
        self.ses = None
        return "tlast " + s

    def op_forget(self):
        if self.ses is None:
            return None
        self.ses = None
        return "forget"

    def op_tcount(self):
        if self.ses is None:
            return None
        self.ses = None
        return "tcount mode=%d%s" % (self.r.choice([0, 0, 1, 2, 3]), self.fault("d"))

    def op_free(self):
        if self.busy is None or self.ses is not None or any(s[0] == "k" for s in self.own):
            return None
        self.busy = None
        return "free"

    def prog(self, deep):
        r = self.r
        p = ""
        for _ in range(r.randint(1, 9)):
            p += r.choice(["n", "n", "n", "n", "L%d" % r.choice([0, 1, 2, 3, 5, 999]), "L%d" % r.choice([1, 2, 3]), "c", "U", "N%d" % r.randrange(5), "l", "F%d" % r.randrange(3)])
        return p + r.choice(["", "nnn"])

    def op_iter(self):
        s = self.seq()
        if not s:
            return None
        return "iter %s %s prog=%s" % (s, self.r.choice("ssm"), self.prog(True))

    def op_look(self):
        s = self.seq()
        if not s:
            return None
        r = self.r
        off = r.choice(["0", "1", "2", str(r.randrange(12)), str(r.randrange(40)), "+0", "+1", "+7",
                        str((1 << 64) - 1), str(1 << 63), str((1 << 61) + 1), str(1 << 32)])
        return "look %s %s m=%d" % (s, off, r.randrange(2))

    def op_foff(self):
        s = self.seq()
        p = self.place()
        if not s or not p:
            return None
        if self.r.random() < 0.7 and self.sq[s][1]:
            p = "%s.%d" % (s, self.r.randrange(self.sq[s][1]))
        return "foff %s %s" % (s, p)

    def op_leak(self):
        a = r_choice(self.r, sorted(s for s in self.own if s[0] == "o"))
        b = self.free_slot("l")
        if not a or not b:
            return None
        del self.own[a]
        self.own[b] = "l"
        return "leak %s %s" % (a, b)

    def op_raw(self):
        a = r_choice(self.r, sorted(s for s in self.own if s[0] in "bo"))
        b = self.free_slot("r")
        if not a or not b:
            return None
        del self.own[a]
        self.own[b] = a[0]
        return "raw %s %s" % (a, b)

    def op_unraw(self):
        a = r_choice(self.r, sorted(s for s in self.own if s[0] == "r"))
        if not a:
            return None
        b = self.free_slot(self.own[a])
        if not b:
            return None
        c = self.own.pop(a)
        self.own[b] = c
        return "unraw %s %s" % (a, b)

    def op_clone(self):
        a = r_choice(self.r, sorted(s for s in self.own if s[0] == "b"))
        b = self.free_slot("b")
        if not a or not b:
            return None
        f = self.fault("c")
        if not f:
            self.own[b] = "b"
        return "clone %s %s%s" % (a, b, f)

    def op_bare(self):
        a = r_choice(self.r, sorted(s for s in self.own if s[0] == "b"))
        if not a:
            return None
        del self.own[a]
        return "bare " + a

    def op_arr(self):
        r = self.r
        e = r.choice(["u8", "u64", "unit", "b3", "al32", "tok", "tok", "ntok", "btok", "ztok", "nest"])
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 17, 40, 6, 41, 70])
        s = "arr %s %s n=%d rt=%d" % (e, r.choice("nd"), n, r.randrange(1, 1 << 30))
        if r.random() < self.bad:
            s += " bad=1"
        if r.random() < 0.6:
            s += " force=%d" % r.choice([1, 2, 3, 4, 5, 6])
        return s + self.fault()

    def op_mvs(self):
        a, b = self.seq(), self.free_seq()
        if not a or not b:
            return None
        self.sq[b] = self.sq.pop(a)
        return "mvs %s %s" % (a, b)


def r_choice(r, c):
    return r.choice(c) if c else None


if __name__ == "__main__":
    import sys, json
    r = random.Random(int(sys.argv[1]))
    types = [json.loads(x) for x in open(sys.argv[2])]
    for i in range(int(sys.argv[3])):
        t = types[i % len(types)]["name"]
        kw = json.loads(sys.argv[4]) if len(sys.argv) > 4 else {}
        print("\n".join(Gen(r, **kw).script("g%d" % i, t, r.randint(8, 40))))
