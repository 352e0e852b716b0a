"""Check C16: lifetimes of assemblers and of the code they produced."""
import concurrent.futures as cf
import json, os, random
import jit, vlib
from vlib import TIER, SEED


def explore(rep, depth, insts):
    cfg = jit.tlc_cfg("LifeMC-%d.cfg" % depth, '''SPECIFICATION Spec
CONSTANTS
  Depth = %d
  MaxInst = %d
INVARIANTS Belongs Export
PROPERTIES Lasting NeverBack
CHECK_DEADLOCK FALSE
''' % (depth, insts))
    out, g, d = vlib.tlc("LifeMC", cfg=cfg)
    rep.add(model_states=d, model_transitions=g)
    return jit.scripts_of(out)


def long_scripts(rnd, n, steps):
    """Random long lifetimes with many instances."""
    out = []
    for _ in range(n):
        sc, alive, page = [["new"]], [1], {1: 0}
        for _ in range(steps):
            k = rnd.randrange(14)
            if k < 2 and len(page) < 12 or not alive:
                how = rnd.choice([["new"], ["new"], ["tnew"], ["pnew", rnd.randrange(2, 5)]])
                sc.append(how)
                for _ in range(how[1] if len(how) > 1 else 1):
                    alive.append(len(page) + 1)
                    page[len(page) + 1] = 0
            elif k < 4:
                i = rnd.choice(alive)
                page[i] = 1 - page[i]
                sc.append(["sel", i, page[i]])
            elif k < 8:
                sc.append([rnd.choice(["fn", "cnt", "tcnt"]), rnd.choice(alive)])
            elif k == 8:
                i = rnd.choice(alive)
                sc.append(rnd.choice([["box", i], ["use", i], ["use", i], ["far", i, rnd.choice([1, 3, 17, 40])]]))
            elif k == 9:
                i = rnd.choice(alive)
                alive.remove(i)
                sc.append([rnd.choice(["drop", "tdrop"]), i])
            elif k > 11:
                sc.append(["par", rnd.randrange(1, 7)])
            else:
                sc.append([rnd.choice(["thr", "grow"])])
        out.append(sc)
    return out


def crowds(rnd, n, size):
    """Very many assemblers one after the other, most of them dropped soon; what they made stays in use."""
    out = []
    for k in range(n):
        sc, alive = [], []
        for i in range(1, size + 1):
            sc += [["tnew" if rnd.randrange(8) == 0 else "new"], [rnd.choice(["fn", "cnt"]), i]]
            alive.append(i)
            while len(alive) > (1, 3, 2)[k % 3]:
                sc.append([rnd.choice(["drop", "drop", "tdrop"]), alive.pop(rnd.randrange(len(alive)))])
        out.append(sc)
    return out


def check():
    rep = vlib.Report("C16", "model_checking")
    t = TIER == "thorough"
    src = open(os.path.join(vlib.VERIF, "driver", "life.rs")).read()
    with cf.ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(explore, rep, 6 if t else 5, 3 if t else 2)
        exe, _ = vlib.build_driver("lifedrv", lambda items: ("#![allow(unused)]\n" + src, {}), [], opt=1)
        scripts = f1.result()
    rep.add(exhaustive_scripts=len(scripts))
    longs = long_scripts(random.Random(SEED * 31 + 5), 400 if t else 60, 60 if t else 40)
    longs += crowds(random.Random(SEED * 17 + 1), 24 if t else 3, 140 if t else 70)
    rep.add(random_scripts=len(longs))
    work = vlib.workdir("life")
    parts = [(scripts + longs)[k::8] for k in range(8)]

    def go(k):
        p = os.path.join(work, "s%d.txt" % k)
        with open(p, "w") as f:
            for sc in parts[k]:
                for op in sc:
                    f.write("%s\t%s\n" % (" ".join(map(str, op)), json.dumps(op)))
                f.write("---\n")
        o = os.path.join(work, "t%d.ndjson" % k)
        try:
            vlib.run_driver(exe, [p, o])
        except vlib.Crash as e:
            return [json.dumps({"crash": str(e)}, separators=(",", ":"))] * len(parts[k])
        return open(o).read().splitlines()
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, range(8)))
    lines, order = [], []
    for part, ls in zip(parts, res):
        for sc, line in zip(part, ls):
            if line.startswith('{"crash"'):
                rep.violation("crash in " + json.dumps(sc)[:300], {"script": sc, "status": json.loads(line)["crash"]})
            else:
                lines.append(line)
                order.append(sc)
        if len(ls) != len(part):
            raise vlib.ToolError("driver stopped early")
    if lines:
        trace = os.path.join(work, "trace.ndjson")
        with open(trace, "w") as f:
            f.write("\n".join(lines) + "\n")
        # falsified copies, which the specification has to refuse
        rnd, ctl = random.Random(SEED + 7), []
        for k in range(0, len(lines), max(1, len(lines) // 120)):
            r = json.loads(lines[k])
            b = rnd.randrange(len(r["ev"]))
            e = r["ev"][b]
            kinds = [q for q in ("ret", "perm", "inc", "dist", "pos") if e[q]]
            if not kinds:
                continue
            q = rnd.choice(kinds)
            j = rnd.randrange(len(e[q]))
            if q == "ret":
                e[q] = e[q][:-1] if j % 2 else e[q] + [e[q][-1]]
            elif q == "perm":
                e[q][j][1][rnd.randrange(3)] = ["---"]
            elif q == "inc":
                e[q][j][3] ^= 1
            elif q == "pos":
                e[q][j][1] = ["rw-"]
            else:
                e[q][j][2] = 4096
            ctl.append((r, b + 1))
        with open(trace, "a") as f:
            for r, _ in ctl:
                f.write(json.dumps(r) + "\n")
        out, g, d = vlib.tlc("LifeTrace", env={"TRACE": trace}, heap="10g")
        events = sum(map(len, order))
        want = events + len(order) + sum(len(r["ev"]) + 1 for r, _ in ctl)
        if d != want:
            raise vlib.ToolError("TLC visited %d states, expected %d" % (d, want))
        bad = vlib.bad_events(out)
        missed = [j for j, (r, b) in enumerate(ctl) if (len(lines) + 1 + j, b) not in bad]
        bad = [x for x in bad if x[0] <= len(lines)]
        if not bad and (len(missed) > 0.1 * len(ctl) or len(ctl) < 20):
            raise vlib.ToolError("%d falsified lifetimes, %d of them accepted" % (len(ctl), len(missed)))
        rep.add(traces_validated_against_impl=len(order), states=d, transitions=g, events=events, corrupted_runs_refused=len(ctl))
        for a, b in bad:
            rep.violation("%s after %s" % (json.dumps(order[a - 1][b - 1]), json.dumps(order[a - 1][:b - 1])[:300]),
                          {"script": order[a - 1][:b], "observed": json.loads(lines[a - 1])["ev"][b - 1]})
    for o in order[:: max(1, len(order) // 6)]:
        rep.sample(o[:12])
    rep.assumptions = ["/proc/self/maps reports access rights truthfully."]
    return rep.finish()
