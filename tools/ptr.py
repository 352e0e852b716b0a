"""Check C20: labels and code pointers as handles on addresses."""
import concurrent.futures as cf
import json, os, random
import jit, vlib
from vlib import TIER, SEED


def explore(rep, depth, insts, labels):
    cfg = jit.tlc_cfg("PtrMC-%d-%d.cfg" % (depth, insts), '''SPECIFICATION Spec
CONSTANTS
  Depth = %d
  Assemblers = %d
  MaxLabels = %d
INVARIANTS Laws Inside Export
PROPERTIES Fixed
CHECK_DEADLOCK FALSE
''' % (depth, insts, labels))
    out, g, d = vlib.tlc("PtrMC", cfg=cfg, workers="2")
    rep.add(model_states=d, model_transitions=g)
    return jit.scripts_of(out)


def long_scripts(rnd, n, steps):
    """Random long histories of up to four assemblers with distant labels."""
    out = []
    for q in range(n):
        k = rnd.randrange(1, 5)
        page, labels, free, sc = [0] * k, [0] * k, [[] for _ in range(k)], []
        for i in range(k):
            sc.append(["label", i + 1])
            labels[i], free[i] = 1, [1]
        big = 3
        for _ in range(steps):
            i = rnd.randrange(k)
            c = rnd.randrange(10)
            if c < 2:
                page[i] = 1 - page[i]
                sc.append(["sel", i + 1, page[i]])
            elif c < 5:
                m = rnd.choice([1, 2, 3, 7, 16, 255, 256, 4096])
                if rnd.randrange(8) == 0 and big:
                    big -= 1
                    m = rnd.choice([65535, 65536, 100000, 16777216 + rnd.randrange(9), 3000001])
                sc.append(["emit", i + 1, m])
            elif c < 8 and labels[i] < 10:
                labels[i] += 1
                kind = rnd.choice(["label", "label", "const", "data"])
                if kind == "label":
                    free[i].append(labels[i])
                    sc.append(["label", i + 1])
                else:
                    sc.append([kind, i + 1, rnd.randrange(1, 1 << 30)])
            elif c == 9:
                sc.append(["fin", i + 1])
            elif free[i]:
                sc.append(["bind", i + 1, free[i].pop(rnd.randrange(len(free[i])))])
        out.append(sc)
    return out


def falsify(rnd, r):
    """Falsifies one observation of a run; returns the event's number or None."""
    b = rnd.randrange(len(r["ev"]))
    e = r["ev"][b]
    q = rnd.choice(["here", "lab", "ids", "eq", "pairs", "adds", "mem"])
    if q == "here":
        e["here"][0][rnd.randrange(8)] ^= 1
    elif q in ("lab", "mem"):
        all_ = [x for a in e[q] for x in (y for l in a for y in (l if q == "lab" else [l])) if x]
        if not all_:
            return None
        rnd.choice(all_)[rnd.randrange(8)] ^= 1
    elif q == "ids":
        c = [a for a in e["ids"] if len(a) > 1]
        if not c:
            return None
        c[0][0] = c[0][1]
    elif q == "eq":
        c = [a for a in e["eq"] if a]
        if not c:
            return None
        c[0][-1][0] ^= 1
    elif q == "pairs":
        x = rnd.choice(e["pairs"])
        j = rnd.randrange(2, 8)
        if j == 2:
            x[2][rnd.randrange(8)] ^= 1
        else:
            x[j] ^= 1
    else:
        rnd.choice(e["adds"])[2][rnd.randrange(8)] ^= 1
    return b + 1


def check():
    rep = vlib.Report("C20", "model_checking")
    t = TIER == "thorough"
    src = open(os.path.join(vlib.VERIF, "driver", "ptr.rs")).read()
    with cf.ThreadPoolExecutor(4) as ex:
        f1 = ex.submit(explore, rep, 7 if t else 5, 1, 3)
        f2 = ex.submit(explore, rep, 5 if t else 4, 2, 2)
        exes = [vlib.build_driver("ptrdrv" + ("rel" if r else ""), lambda items: ("#![allow(unused)]\n" + src, {}), [], opt=1, release=r)[0]
                for r in (False, True)]
        scripts = f1.result() + f2.result()
    rep.add(exhaustive_scripts=len(scripts))
    longs = long_scripts(random.Random(SEED * 17 + 3), 600 if t else 80, 60 if t else 40)
    rep.add(random_scripts=len(longs))
    work = vlib.workdir("ptr")
    rnd0 = random.Random(5)
    todo = scripts
    if not t:
        # thorough replays all of them
        todo = rnd0.sample(scripts, min(len(scripts), 8000))
    todo = todo + longs
    rnd0.shuffle(todo)
    parts = [todo[k::8] for k in range(8)]

    def go(k):
        p = os.path.join(work, "s%d.txt" % k)
        with open(p, "w") as f:
            for sc in parts[k]:
                for op in sc:
                    f.write("%s\t%s\n" % (" ".join(map(str, op)), json.dumps(op)))
                f.write("---\n")
        o = os.path.join(work, "t%d.ndjson" % k)
        vlib.run_driver(exes[k % 2], [p, o])
        lines = open(o).read().splitlines()
        if len(lines) != len(parts[k]):
            raise vlib.ToolError("driver stopped early")
        good = [(sc, x) for sc, x in zip(parts[k], lines) if not x.startswith('{"crash"')]
        bad = [(sc, x) for sc, x in zip(parts[k], lines) if x.startswith('{"crash"')]
        rnd, ctl = random.Random(SEED * 100 + k), []
        for _, x in good[:: max(1, len(good) // 40)]:
            r = json.loads(x)
            b = falsify(rnd, r)
            if b:
                ctl.append((r, b))
        trace = os.path.join(work, "j%d.ndjson" % k)
        with open(trace, "w") as f:
            for _, x in good:
                f.write(x + "\n")
            for r, _ in ctl:
                f.write(json.dumps(r) + "\n")
        return good, bad, ctl, trace
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, range(8)))

    def judge(k):
        good, bad, ctl, trace = res[k]
        if not good:
            return [], 0, 0
        out, g, d = vlib.tlc("PtrTrace", env={"TRACE": trace}, heap="3g", workers="2", timeout=3000)
        want = sum(len(sc) + 1 for sc, _ in good) + sum(len(r["ev"]) + 1 for r, _ in ctl)
        if d != want:
            raise vlib.ToolError("TLC visited %d states, expected %d" % (d, want))
        b = vlib.bad_events(out)
        missed = [j for j, (r, x) in enumerate(ctl) if (len(good) + 1 + j, x) not in b]
        b = [x for x in b if x[0] <= len(good)]
        if not b and (missed or len(ctl) < 10):
            raise vlib.ToolError("%d falsified runs, %d of them accepted" % (len(ctl), len(missed)))
        return b, g, d
    with cf.ThreadPoolExecutor(4) as ex:
        jud = list(ex.map(judge, range(8)))
    for (good, bad, ctl, trace), (b, g, d) in zip(res, jud):
        rep.add(traces_validated_against_impl=len(good), states=d, transitions=g, events=sum(len(sc) for sc, _ in good), corrupted_runs_refused=len(ctl))
        for sc, x in bad:
            rep.violation("crash in " + json.dumps(sc)[:300], {"script": sc, "status": json.loads(x)["crash"]})
        for a, k in b:
            sc, x = good[a - 1]
            rep.violation("%s after %s" % (json.dumps(sc[k - 1]), json.dumps(sc[:k - 1])[:300]), {"script": sc[:k], "observed": json.loads(x)["ev"][k - 1]})
    for o in todo[:: max(1, len(todo) // 6)]:
        rep.sample(o[:12])
    return rep.finish()
