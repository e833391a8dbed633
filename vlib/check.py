"""check.py PROPERTY [quick|thorough]: decides one property for /repo's working tree."""
import json, os, random, re, shutil, sys, time, traceback
from common import *
import borrow, campaign, compiles, labels, macros, profiles, sizes, tour, visible

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


PROGRAMS = {"C19": macros, "C20": visible, "C21": borrow}


def dynamic(prop, tier, ev, share=1.0):
    quick = tier == "quick"
    note("building the harness")
    binary = build_harness()
    types = [json.loads(x) for x in os.popen("%s types" % binary)]
    n = int((1400 if quick else 16000) * share)
    scr = profiles.scripts(prop, types, n, SEED)
    work = os.path.join(BUILD, "work", prop + ".model")
    tours, cover = tour.scripts(profiles.TOURS.get(prop, []), types, random.Random(SEED), work, cap=2500 if quick else None)
    note("%d scripts, %d of them from models" % (len(scr) + len(tours), len(tours)))
    scr += tours
    if prop in profiles.ITERATORS:
        progs, ev["coverage"]["iterator_programs"] = tour.iterator_programs(types, random.Random(SEED), work, 3 if quick else 4)
        scr += progs
    random.Random(SEED).shuffle(scr)
    res = campaign.run(binary, scr, os.path.join(BUILD, "work", prop + "." + tier), timeout=700 if quick else 6000)
    note("%d events, %d objects" % (res.events, res.objects))
    tour.settle(cover, [e for t in res.trace for e in t])
    ev["coverage"]["models"] = cover
    if prop in profiles.MODEL:
        ev["coverage"]["ownership_model"] = tour.check_model(work, not quick)
        note("model checked")
    ev["coverage"].update(states=res.states, transitions=res.transitions, traces_validated_against_impl=res.traces,
                          objects_judged=res.objects, events=res.events, operations=res.ops, samples=res.samples)
    return [f for f in res.fails if prop in f["props"]], [f for f in res.fails if prop not in f["props"]]


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    ev = dict(property=prop, tier=tier, seed=SEED, level="model_checking", coverage={}, assumptions=[], wall_s=0.0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        if prop in ("C03", "C04"):
            bad, other = sizes.run(prop, tier, ev), []
            if prop == "C04":
                cov = dict(ev["coverage"])
                b, other = dynamic(prop, tier, ev, 0.4)
                bad += b
                for k in ("states", "transitions", "traces_validated_against_impl", "events"):
                    ev["coverage"][k] += cov[k]
                ev["coverage"]["samples"] += cov["samples"]
        elif prop in PROGRAMS:
            bad, other = PROGRAMS[prop].run(tier, ev), []
        else:
            bad, other = dynamic(prop, tier, ev)
    except NoAnswer as x:
        print("NO ANSWER:", x)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    listed = compiles.known(prop)
    for f in bad:
        if f.get("key") in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["key"]))
    bad = [f for f in bad if f.get("key") not in listed]
    ids = {}
    for f in bad:
        ids.setdefault((f["label"], f["ev"].get("k", f["ev"].get("route"))), []).append(f)
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    new = 0
    for (lab, k), fs in sorted(ids.items(), key=lambda x: min(len(f["script"]) for f in x[1]))[:15]:
        f = min(fs, key=lambda f: len(f["script"]))
        path = os.path.join(rdir, re.sub(r"[^A-Za-z0-9_-]+", "_", "%s-%s-%s" % (prop, lab, k))[:120] + ".txt")
        with open(path, "w") as h:
            h.write("# %s: condition %s of the trace specification does not hold\n# event: %s\n%s\n" % (prop, lab, json.dumps(f["ev"])[:3000], "\n".join(f["script"])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        new += 1
    for f in other[:5]:
        note("(not this property: %s at %s -> %s)" % (f["label"], f["ev"].get("k"), sorted(f["props"])))
    ev["violations"] = new
    ev["wall_s"] = round(time.time() - T0, 1)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    note("%s: %s" % (prop, "violated" if new else "held"))
    sys.exit(1 if new else 0)


try:
    main()
except Exception:
    traceback.print_exc()
    print("NO ANSWER: the check itself failed")
    sys.exit(2)
