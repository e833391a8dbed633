"""What each property's campaign of random scripts concentrates on."""
import random
import gen

STRUCTS = lambda n: n.startswith(("s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9"))

# (share, generator arguments, type filter)
PLAIN = (1.0, dict(), None)
PROF = {
    "C01": [(0.6, dict(big=0.25, clone=0.3, mv=0.25), None), (0.2, dict(weights=dict(mut=16, ctl=8)), None), (0.2, dict(weights=dict(ext=12, col=8, mac=4)), None)],
    "C02": [(0.7, dict(big=0.25), None), (0.3, dict(weights=dict(new=20, push=20), big=0.3), None)],
    "C05": [(0.5, dict(big=0.15, mv=0.35), None), (0.3, dict(), None), (0.2, dict(weights=dict(new=20, dinit=1, raw=4, unraw=4), mv=0.4), None)],
    "C06": [(0.6, dict(weights=dict(push=24, ext=8, col=5, take=5, next=10, free=8, new=4)), None), (0.2, dict(faults=0.2, bad=0.1, refuse=0.1), None), (0.2, dict(big=0.3), None)],
    "C07": [(0.7, dict(weights=dict(push=30, ext=8, foff=10, look=6, new=4)), None), (0.3, dict(big=0.3, weights=dict(push=24, foff=10, take=6)), None)],
    "C08": [(0.5, dict(checked=1.0, weights=dict(push=26, ext=6, look=12, take=6, free=8, next=8, new=3)), None),
            (0.3, dict(checked=1.0, faults=0.4, bad=0.3, refuse=0.15, weights=dict(push=26, ext=8, look=8, take=5, free=7)), None),
            (0.2, dict(checked=1.0, big=0.4, weights=dict(push=26, look=10)), None)],
    "C09": [(0.5, dict(weights=dict(drop=12, take=6, next=8, free=7, dinit=4)), "tok"), (0.3, dict(faults=0.25, bad=0.1), "tok"), (0.2, dict(mv=0.4, clone=0.3), "tok")],
    "C10": [(0.5, dict(big=0.2, weights=dict(drop=12, push=20)), None), (0.3, dict(mv=0.5, weights=dict(raw=5, unraw=5, take=6, free=7)), None), (0.2, dict(faults=0.3, refuse=0.2), None)],
    "C11": [(0.7, dict(faults=0.5, clone=0.35, weights=dict(take=6, free=7, col=4, ext=8, ctl=8)), "tok"), (0.2, dict(bad=0.5, faults=0.2), None), (0.1, dict(faults=0.5, big=0.2, checked=1.0), "tok")],
    "C12": [(0.8, dict(refuse=0.35, weights=dict(push=30, ext=8, look=6, take=5, free=6)), None), (0.2, dict(refuse=0.3, faults=0.2, big=0.3), None)],
    "C13": [(0.6, dict(weights=dict(push=34, ext=8, take=6, free=9, new=2, drop=3)), None), (0.2, dict(refuse=0.15, weights=dict(push=30)), None), (0.2, dict(big=0.4, weights=dict(push=26)), None)],
    "C14": [(0.7, dict(clone=0.6, mv=0.1, weights=dict(clone=12, mut=10, new=14, drop=9)), None), (0.3, dict(clone=0.6, faults=0.35, weights=dict(clone=10)), "tok")],
    "C15": [(0.6, dict(weights=dict(ctl=30, push=10, new=12)), "ctl"), (0.25, dict(faults=0.4, weights=dict(ctl=30)), "ctl"), (0.15, dict(weights=dict(ctl=10, mut=12)), None)],
    "C16": [(0.7, dict(weights=dict(mut=30, swp=12, new=10, push=14)), None), (0.3, dict(big=0.2, weights=dict(mut=26, swp=10, ctl=5, take=6, next=8)), None)],
    "C17": [(0.4, dict(bad=0.4, big=0.15, weights=dict(arr=6)), None), (0.2, dict(bad=0.3, faults=0.3, weights=dict(arr=6)), "tok"), (0.25, dict(clone=0.1, mv=0.05, weights=dict(new=18, push=20, dinit=5)), None),
            (0.15, dict(bad=0.25, faults=0.15, weights=dict(arr=120)), None)],
    "C18": [(0.6, dict(weights=dict(take=16, next=24, free=14, forget=3, tcount=3, tlast=3, push=18)), None), (0.2, dict(faults=0.3, weights=dict(take=14, next=16, free=12)), "tok"), (0.2, dict(mv=0.5, weights=dict(take=14, next=24, free=12, mut=10)), None)],
    "C22": [(1.0, dict(weights=dict(raw=16, unraw=14, leak=9, new=16, mut=8), mv=0.3), None)],
    "C23": [(0.7, dict(weights=dict(iter=24, push=18, ext=6, take=6, next=8, free=7, tcount=3, tlast=2)), None), (0.3, dict(big=0.2, weights=dict(iter=24, col=6)), None)],
    "C24": [(0.8, dict(weights=dict(new=24, leak=4, raw=4, unraw=4, drop=10), mv=0.4, arena=0.8), None), (0.2, dict(faults=0.3, arena=0.8, weights=dict(new=20)), "tok")],
    "C25": [(0.5, dict(weights=dict(bare=10, new=18)), "head"), (0.3, dict(faults=0.3, weights=dict(bare=3)), "head"), (0.2, dict(mv=0.4, clone=0.3), "head")],
}


# Bounded models of Store whose transitions are all replayed (tour.py).
TOURS = {
    "C01": ["moves"], "C05": ["moves", "boxes"], "C06": ["lists", "session"], "C07": ["lists", "moves"], "C08": ["session", "lists"],
    "C09": ["moves", "session", "boxes"], "C10": ["moves", "boxes"], "C11": ["session", "lists", "boxes"], "C13": ["lists"], "C14": ["boxes", "lists"],
    "C16": ["boxes", "session"], "C18": ["session", "moves"], "C22": ["boxes"], "C23": ["session", "lists"], "C24": ["boxes", "moves"],
}
ITERATORS = ["C23"]       # every short iterator program
MODEL = ["C09", "C18"]    # the model itself is checked here


def has(d, f):
    if f(d):
        return True
    return any(has(x.get("d", x) if x.get("f") == "sub" else x, f) for x in d.get("f", []) if isinstance(x, dict)) if isinstance(d.get("f"), list) else False


def select(types, want):
    if want is None:
        return types
    if want == "tok":
        r = [t for t in types if has(t["d"], lambda d: d.get("tok") or d.get("zt"))]
    elif want == "ctl":
        r = [t for t in types if t["d"]["k"] == "struct" and any(x["f"] == "ctl" for x in t["d"]["f"])]
    else:
        r = [t for t in types if t["d"]["k"] in ("tup", "struct")]
    return r


def scripts(prop, types, n, seed, lo=8, hi=36):
    r = random.Random("%s/%d" % (prop, seed))
    out = []
    for share, kw, want in PROF.get(prop, [PLAIN]):
        ts = select(types, want)
        k = max(1, int(n * share))
        order = []
        while len(order) < k:
            o = list(ts)
            r.shuffle(o)
            order += o
        for i in range(k):
            out.append(gen.Gen(r, **kw).script("r%d" % len(out), order[i]["name"], r.randint(lo, hi)))
    return out
