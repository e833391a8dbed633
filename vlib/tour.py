"""Transition tours: every transition of a bounded model of Store (MCStore), up to the identity
of objects, as scripts for the harness."""
import json, os, random, re
from collections import deque
from common import *

ALL = ["new", "push", "ext", "col", "mac", "seq", "drop", "dinit", "take", "next", "tlast", "forget", "tcount", "free",
       "iter", "foff", "mut", "leak", "raw", "clone", "mvs", "mv", "cl", "cp"]
# slots, kinds, longest sequence
SLICES = {
    "session": (["b0", "s0", "k0", "k1"], ["new", "push", "ext", "col", "mac", "seq", "drop", "take", "next", "tlast", "forget", "tcount", "free", "mv", "iter", "foff", "mut"], 3),
    "boxes": (["b0", "b1", "o0", "l0", "r0", "r2"], ["new", "drop", "dinit", "leak", "raw", "clone", "mv", "cl", "cp", "mut"], 1),
    "moves": (["b0", "o0", "s0", "s1", "k0"], ["new", "push", "seq", "drop", "dinit", "take", "next", "free", "mvs", "mv", "cl", "foff"], 2),
    "lists": (["s0", "s1", "b0"], ["push", "ext", "col", "seq", "drop", "mvs", "cl", "cp", "iter", "foff", "mut", "take", "free", "forget"], 3),
}


def cfg(path, slots, kinds, maxlen, maxmade, faults, shown, invariants):
    q = lambda xs: "{" + ",".join('"%s"' % x for x in xs) + "}"
    with open(path, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%sCONSTANTS\n Slots = %s\n Kinds = %s\n MaxLen = %d\n MaxMade = %d\n Faults = %s\n Shown = %s\n" % (
            "INVARIANTS HeldOnce Conserved Session Places1\n" if invariants else "VIEW View\n",
            q(slots), q(kinds), maxlen, maxmade, str(faults).upper(), str(shown).upper()))


EDGE = re.compile(r'^<<"EDGE", ("(?:[^"\\]|\\.)*"), ("(?:[^"\\]|\\.)*"), "(ok|no)", ("(?:[^"\\]|\\.)*")>>$', re.M)


def canon(s):
    d = json.loads(s)
    return json.dumps([sorted(d["b"]), [list(x) for x in sorted(d["q"].items())] if d["q"] else [], d["t"], d["y"]])


def graph(name, work):
    """{node: [(text, ok, node)]}, statistics"""
    slots, kinds, maxlen = SLICES[name]
    os.makedirs(work, exist_ok=True)
    c = os.path.join(work, "tour-%s.cfg" % name)
    cfg(c, slots, kinds, maxlen, 0, True, True, False)
    rc, out = tlc("MCStore", c, os.path.join(work, "tlc-" + name), timeout=300)
    if "Model checking completed. No error has been found." not in out:
        raise NoAnswer("TLC failed on the model %s:\n%s" % (name, out[-2000:]))
    memo = {}
    g = {}
    for a, t, ok, b in EDGE.findall(out):
        for x in (a, b):
            if x not in memo:
                memo[x] = canon(json.loads(x))
        e = (json.loads(t), ok == "ok", memo[b])
        l = g.setdefault(memo[a], {})
        l[e] = 1
    return {n: sorted(es) for n, es in g.items()}, tlc_stats(out)


def start(g):
    for n in g:
        d = json.loads(n)
        if not d[0] and d[2] == -1 and d[3] == "" and all(v == ["", 0] for _, v in d[1]):
            return n
    raise NoAnswer("no initial state")


def tours(g, rng, allowed, longest=45, cap=None):
    """Paths from the start covering every transition allowed."""
    s0 = start(g)
    edges = {n: [e for e in es if allowed(e)] for n, es in g.items()}
    todo = {n: set(es) for n, es in edges.items()}
    left = sum(len(x) for x in todo.values())
    paths, total = [], 0
    while left and (cap is None or total < cap):
        at, path, new = s0, [], 0
        while len(path) < longest and left:
            if todo.get(at):
                e = rng.choice(sorted(todo[at]))
                route = [e]
            else:
                route = nearest(at, edges, todo, rng, longest - len(path))
                if route is None:
                    break
            for e in route:
                if e in todo.get(at, ()):
                    todo[at].discard(e)
                    left -= 1
                    new += 1
                path.append(e)
                at = e[2]
        if not new:
            break
        paths.append(path)
        total += len(path)
    return paths, left


def nearest(at, edges, todo, rng, room):
    seen = {at: None}
    q = deque([(at, 0)])
    while q:
        n, d = q.popleft()
        if n != at and todo.get(n):
            r = []
            while seen[n] is not None:
                n, e = seen[n]
                r.append(e)
            return r[::-1]
        if d < room:
            es = list(edges.get(n, ()))
            rng.shuffle(es)
            for e in es:
                if e[2] not in seen:
                    seen[e[2]] = (n, e)
                    q.append((e[2], d + 1))
    return None


def fill(t, rng):
    def new():
        hi = rng.choice([2, 3, 4, 5, 12])
        return "ls=%s rt=%d" % (",".join(str(rng.randint(1, hi)) for _ in range(rng.randint(1, 4))), rng.randrange(1, 1 << 30))
    forced = "ff=" in t
    t = t.replace("@new", new() + (" force=1" if forced else "")).replace("@hint", "hint=%d" % rng.randrange(5)).replace("@bad", "bad=1")
    t = t.replace("@mode", "mode=%d" % rng.randrange(4))
    t = t.replace("@part", "leaf=%d idx=%d jdx=%d path=%d mode=%d rt=%d" % (rng.choice([0, 0, 1, 2, 3]), rng.randrange(2), rng.randrange(2), rng.randrange(4), rng.randrange(4), rng.randrange(1, 1 << 30)))
    if "@prog" in t:
        t = t.replace("@prog", "prog=" + "".join(rng.choice(["n", "n", "n", "L0", "L1", "L2", "L3", "L999", "c", "U", "N0", "N1", "N2", "l", "F0", "F1", "F2"]) for _ in range(rng.randint(1, 7))))
    return t


# types on which every fault the model speaks of can be made to happen
FAULTY = ["arr_tok", "arr_tok_8", "arr_btok_16", "t3_mix", "t4_mix", "t5_mix"]


# which transitions a type can take: by its ability to be cloned and copied
fine = lambda e: e[1] or e[0].startswith("foff")
CAN = {
    "": lambda e: fine(e) and "clone" not in e[0] and "copy" not in e[0],
    "clone": lambda e: fine(e) and "copy" not in e[0],
    "copy": lambda e: fine(e),
    "faults": lambda e: "copy" not in e[0],
}


def scripts(names, types, rng, work, cap=None):
    """Scripts, and what they cover."""
    out, cover = [], {}
    for name in names:
        g, st = graph(name, work)
        c = {"states": len(g), "transitions": sum(len(es) for es in g.values()), "tours": {}}
        for can, allowed in CAN.items():
            paths, left = tours(g, rng, allowed, cap=cap)
            ts = FAULTY if can == "faults" else [t["name"] for t in types if t["cap"] == can]
            ts = list(ts)
            rng.shuffle(ts)
            for i, p in enumerate(paths):
                out.append(["S %s.%d %s" % (name, i, ts[i % len(ts)])] + [fill(e[0], rng) for e in p])
            c["tours"][can or "plain"] = dict(scripts=len(paths), operations=sum(len(p) for p in paths), transitions=len({(e[0], e[1]) for p in paths for e in p}), missed=left)
        c["_wanted"] = wanted(g)
        cover[name] = c
    return out, cover


def settle(cover, events):
    """How much of each slice was taken by the real crate."""
    for name, c in cover.items():
        w = c.pop("_wanted")
        got = taken(events, name)
        c.update(distinct_steps=len(w), taken_by_implementation=len(w & got))


def shape(snap, modes):
    """The shape of a recorded snapshot, as in MCStore."""
    b = sorted("%s%d" % (c, i) for c in "boklr" for i, x in enumerate(snap[c]) if x)
    q = []
    for i, x in enumerate(snap["s"]):
        n = "s%d" % i
        if x["x"] == 1:
            modes[n] = x["m"]
        q.append([n, [modes.get(n, ""), len(x["el"]) if x["x"] == 1 else 0] if x["x"] else ["", 0]])
    y = "" if snap["busy"] < 0 else "s%d" % snap["busy"]
    return b, q, snap["t"][1] if snap["t"] else -1, y


def taken(events, name):
    """Transitions of the slice that the recorded scripts took: (from, kind, success, to)."""
    seqs = [s for s in SLICES[name][0] if s[0] == "s"]
    out, at, modes = set(), None, {}
    on = False
    for e in events:
        if e["e"] == "reset":
            on, modes = e["name"].startswith(name + "."), {}
            at = None
        if not on or e["e"] not in ("reset", "op"):
            continue
        b, q, t, y = shape(e["s"], modes)
        now = json.dumps([b, [x for x in q if x[0] in seqs], t, y])
        if at is not None:
            out.add((at, e["k"], e["out"] in ("ok", "none"), now))
        at = now
    return out


def wanted(g):
    return {(n, t.split()[0], ok, m) for n, es in g.items() for t, ok, m in es}


def check_model(work, deep):
    """TLC: ownership is conserved on every bounded history."""
    c = os.path.join(work, "inv.cfg")
    os.makedirs(work, exist_ok=True)
    kinds = [k for k in ALL if k not in ("iter", "foff", "mut", "mac")]
    cfg(c, ["b0", "b1", "o0", "s0", "s1", "k0", "r0", "l0"] if deep else ["b0", "o0", "s0", "s1", "k0", "r0", "l0"], kinds, 2, 4 if deep else 2, True, False, True)
    rc, out = tlc("MCStore", c, os.path.join(work, "tlc-inv"), timeout=2000 if deep else 300, heap="12g" if deep else "2500m", workers=CPUS if deep else 2)
    st = tlc_stats(out)
    if "Model checking completed. No error has been found." not in out:
        raise NoAnswer("the model of ownership does not hold together:\n" + out[-2000:])
    return {"distinct_states": st[0], "states_generated": st[1]}


PROG = re.compile(r'^<<"PROG", (\d+), "([sm])", "([^"]*)">>$', re.M)


def iterator_programs(types, rng, work, depth, per=40):
    """Every iterator program of MCIter up to the depth, as scripts; and what was checked."""
    os.makedirs(work, exist_ok=True)
    c = os.path.join(work, "iter.cfg")
    with open(c, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Agrees Bounded Strict\nCONSTANTS\n MaxLen = 3\n Depth = %d\n Shown = TRUE\n" % depth)
    rc, out = tlc("MCIter", c, os.path.join(work, "tlc-iter"), timeout=900)
    if "Model checking completed. No error has been found." not in out:
        raise NoAnswer("the model of iterators does not hold together:\n" + re.sub(r"(?m)^<<.PROG.*\n", "", out)[-2000:])
    byn = {}
    for n, w, p in PROG.findall(out):
        byn.setdefault(int(n), []).append((w, p))
    res, names = [], [t["name"] for t in types]
    rng.shuffle(names)
    for n, ps in sorted(byn.items()):
        rng.shuffle(ps)
        for i in range(0, len(ps), per):
            ls = ["S iter.%d.%d %s" % (n, i, names[len(res) % len(names)]), "seq s0 %s v=0" % rng.choice("uc")]
            ls += [fill("push s0 @new", rng) for _ in range(n)]
            ls += ["iter s0 %s prog=%s" % (w, re.sub("F", lambda m: "F%d" % rng.randrange(3), p)) for w, p in ps[i:i + per]]
            res.append(ls)
    st = tlc_stats(out)
    return res, {"depth": depth, "programs": sum(len(x) for x in byn.values()), "scripts": len(res), "distinct_states": st[0], "states_generated": st[1]}


if __name__ == "__main__":
    import sys
    r = random.Random(1)
    types = [json.loads(x) for x in os.popen("%s types" % os.path.join(TARGET, "debug", "varlen-harness"))]
    for n in sys.argv[1:] or SLICES:
        s, c = scripts([n], types, r, "/tmp/mm/tour")
        print(n, c)
