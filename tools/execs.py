"""Check C17: assembled statements executed on the processor against spec/Cpu.tla."""
import concurrent.futures as cf
import json, os
import enc, gen, spell, vlib
from vlib import TIER, SEED

SKIP_C = ("jcc", "call", "jmp", "dq")
SKIP_O = ("ret", "int3", "syscall")


def src(name):
    return open(os.path.join(vlib.VERIF, "driver", name)).read()


def forms():
    out = []
    for f in gen.forms()["forms"]:
        if f["c"] in SKIP_C or f["o"] in SKIP_O:
            continue
        for sh in f["sh"]:
            for s in gen.expand(f, sh):
                s["inf"] = (f["c"], f["o"], f["w"])
                out.append(s)
            # with constant operands, as the README writes them
            imms = list(range(8)) if f["c"] == "shift" else None
            for s in spell.statics([(f, sh)], (2 if f["c"] in ("set", "cmov") else 6) * (4 if TIER == "thorough" else 1), imms):
                if not any("MF(16" in k for k in s["ops"]) and not (f["c"] == "round" and int(s["ops"][-1][6:-1]) > 15):
                    s["inf"] = (f["c"], f["o"], f["w"])
                    out.append(s)
    return out


def render(items):
    infos = "static INFOS: &[exec::Info] = &[%s];" % ", ".join(
        'exec::Info { c: "%s", o: "%s", w: %d }' % s["inf"] for s in items)
    text, lines = gen.render_with(infos + "\nfn main() { exec::exec_main(STS, INFOS); }")(items)
    return text.replace("mod rt;\n", "mod rt; mod cpu; mod exec;\n", 1), lines


def corrupt(c):
    """The same event with one bit of its outcome flipped: the specification must refuse it."""
    o = c[6]
    if o[0] != 0:
        return None
    c = json.loads(json.dumps(c))
    o = c[6]
    if o[1]:
        o[1][0][1][0] ^= 1
    elif o[3]:
        o[3][0][1] ^= 1
    elif o[4]:
        o[4][0][1][3] ^= 4
    else:
        o[5] = 1
    return c


def judge(rep, trace, groups):
    out, g_, d = vlib.tlc("CpuTrace", env={"TRACE": trace}, workers=8, heap="12g")
    if d != len(groups):
        raise vlib.ToolError("TLC visited %d of %d trace groups" % (d, len(groups)))
    bad = vlib.bad_events(out)
    flagged = set(bad)
    controls = refused = 0
    for a, g in enumerate(groups, 1):
        if "control" in g:
            # a flipped copy of an event that conforms has to be refused
            for b in range(1, len(g["cs"]) + 1):
                if g["control"][b - 1] in flagged:
                    continue
                controls += 1
                refused += (a, b) in flagged
    if refused < 0.9 * controls:
        raise vlib.ToolError("the specification accepts %d of %d corrupted events" % (controls - refused, controls))
    real = [g for g in groups if "control" not in g]
    rep.add(states=d, transitions=g_, corrupted_events_refused=refused,
            traces_validated_against_impl=sum(len(g["cs"]) for g in real),
            rejected=sum(1 for g in real for c in g["cs"] if c[6] == [-1]))
    for a, b in bad:
        g = groups[a - 1]
        if "control" in g:
            continue
        c = g["cs"][b - 1]
        rep.violation("%s %s" % (g["src"], json.dumps(c[0])), {
            "statement": g["src"], "operands": c[0],
            "registers": {gen.REGS[k]: "%x" % int.from_bytes(bytes(v), "little") for k, v in enumerate(c[1]) if v},
            "flags cf pf zf sf of": c[2], "window": bytes(c[3]).hex(), "outcome": c[6]})


def check():
    rep = vlib.Report("C17", "model_checking")
    items = forms()
    per, rounds = (48, 1) if TIER == "quick" else (48, 10)
    n = 8
    parts = [items[k::n] for k in range(n)]

    def build(k):
        return vlib.build_driver("c17p%d" % k, render, parts[k], {x: src(x) for x in ("rt.rs", "cpu.rs", "exec.rs")})
    with cf.ThreadPoolExecutor(n) as ex:
        exes = list(ex.map(build, range(n)))
    for k in range(n):
        for j, m in exes[k][1].items():
            rep.violation("statement not accepted: " + parts[k][j]["src"], {"why": m})
    rep.add(statement_forms=len(items), mnemonics=len({s["mn"] for s in items}))
    for r in range(rounds):
        def run(k):
            t = os.path.join(vlib.workdir("c17p%d" % k), "trace.ndjson")
            try:
                vlib.run_driver(exes[k][0], [t], env={"VERIF_SEED": str(SEED), "PER": str(per), "FIRST": str(r * per)})
            except vlib.Crash as e:
                return None, str(e)
            return t, None
        with cf.ThreadPoolExecutor(n) as ex:
            res = list(ex.map(run, range(n)))
        trace = os.path.join(vlib.workdir("c17"), "trace.ndjson")
        groups = []
        with open(trace, "w") as f:
            for t, crash in res:
                if crash:
                    rep.violation("driver crash", {"error": crash})
                    continue
                for line in open(t):
                    groups.append(json.loads(line))
                    f.write(line)
                os.remove(t)
            for a in range(0, len(groups), 23):
                c = corrupt(groups[a]["cs"][0])
                if c:
                    g = {"mn": groups[a]["mn"], "src": "control", "cs": [c], "control": [(a + 1, 1)]}
                    groups.append(g)
                    f.write(json.dumps(g) + "\n")
        if groups:
            judge(rep, trace, groups)
            for g in groups[:: max(1, len(groups) // 6)]:
                rep.sample({"statement": g["src"], "operands": g["cs"][0][0], "outcome": g["cs"][0][6]})
        os.remove(trace)
    rep.assumptions = ["The processor the check runs on implements x86-64 with lzcnt, tzcnt, popcnt and SSE4.1.",
                       "Floating-point statements are executed on values whose results are exact."]
    return rep.finish()
