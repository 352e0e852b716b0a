"""Checks C09-C14: histories of the assembler object."""
import concurrent.futures as cf
import json, os, random, re
import vlib
from vlib import TIER, SEED

# property: (model alphabet, TLC depth quick/thorough, exhaustive script length quick/thorough, random scripts quick/thorough)
PLAN = {
    "C09": ("refs", (6, 7), (3, 4), (1500, 12000)),
    "C10": ("pools", (5, 6), (3, 4), (1000, 8000)),
    "C11": ("stable", (6, 7), (4, 5), (1000, 8000)),
    "C12": ("pages", (5, 6), (3, 4), (1000, 8000)),
    "C13": ("patch", (6, 8), (4, 5), (1000, 8000)),
    "C15": ("room", (5, 6), (3, 3), (2500, 20000)),
    "C14": ("blocks", (6, 7), (3, 4), (800, 6000)),
}

PAGE = 256 * 1024 * 1024
HUGE = 1300000000
ROOM = 16      # bytes left on each page where the histories of C15 start


def tlc_cfg(name, text):
    path = os.path.join(vlib.workdir("cfg", fresh=False), name)
    with open(path, "w") as f:
        f.write(text)
    return path


SCRIPT_RE = re.compile(r'^"SCRIPT (.*)"$', re.M)


def scripts_of(out):
    return [json.loads(json.loads('"' + m + '"')) for m in SCRIPT_RE.findall(out)]


def explore(rep, alpha, depth, n):
    """Exhaustive exploration of the model; returns all histories of length n."""
    cfg = tlc_cfg("JitMC-%s.cfg" % alpha, '''SPECIFICATION Spec
CONSTANTS
  PageSize = %d
  Depth = %d
  ScriptLen = %d
  Alpha = "%s"
CONSTRAINT Bounded
VIEW View
INVARIANTS InvRefs InvPending InvBlocks InvWithin Export
PROPERTY StepOk
CHECK_DEADLOCK FALSE
''' % (ROOM if alpha == "room" else 256, depth, n, alpha))
    out, g, d = vlib.tlc("JitMC", cfg=cfg)
    sc = scripts_of(out)
    rep.add(model_states=d, model_transitions=g, exhaustive_scripts=len(sc))
    return sc


def simulate(rep, focus, num, steps, seed):
    cfg = tlc_cfg("JitGen-%s.cfg" % focus, '''SPECIFICATION Spec
CONSTANTS
  PageSize = %d
  Steps = %d
  Focus = "%s"
INVARIANT Done
CHECK_DEADLOCK FALSE
''' % (2 * ROOM if focus == "room" else 65536, steps, focus))
    out, g, d = vlib.tlc("JitGen", cfg=cfg, workers=1, check=False,
                         extra=["-simulate", "num=%d" % num, "-depth", str(steps + 10), "-seed", str(seed)])
    sc = scripts_of(out)
    if len(sc) < num:
        raise vlib.ToolError("TLC simulation produced %d of %d scripts\n%s" % (len(sc), num, out[-3000:]))
    return sc


def table():
    """Statement templates exported by the specification."""
    path = os.path.join(vlib.workdir("jitops", fresh=False), "ops.json")
    vlib.tlc("JitExport", env={"OPS_OUT": path}, workers=1)
    return json.load(open(path))


def driver(tab, release=False):
    """The script interpreter; returns it and the statements the macro does not accept."""
    items = [("label", k, t) for k, t in enumerate(tab["label"])] + [("plain", k, t) for k, t in enumerate(tab["plain"])]

    def render(its):
        src = ["#![allow(unused)]", "mod jit;", "use monoasm::*;", "use monoasm_macro::monoasm;",
               "fn main() {", "    jit::main_loop(&|jit, k, l| match k {"]
        lines = {}

        def arms(kind):
            for n, (q, k, t) in enumerate(its):
                if q == kind:
                    src.append("        %d => { monoasm!(&mut *jit, %s;); }" % (k, t))
                    lines[len(src)] = n
        arms("label")
        src.append("        _ => unreachable!() }, &|jit, k| match k {")
        arms("plain")
        src.append("        _ => unreachable!() });\n}")
        return "\n".join(src) + "\n", lines
    exe, rej = vlib.build_driver("jitrel" if release else "jitdrv", render, items,
                                 {"jit.rs": open(os.path.join(vlib.VERIF, "driver", "jit.rs")).read()}, opt=1, release=release)
    return exe, [items[k][2] for k in rej]


def hexs(b):
    return bytes(b).hex()


def words(op):
    k = op[0]
    if k == "emit":
        return "emit %s %s" % (op[1], hexs(op[2]))
    if k == "pemit":
        return "pemit %d %s %s" % (op[1], op[2], hexs(op[3]))
    if k in ("con", "dat"):
        c = op[1]
        if c[0] in ("u64", "u32", "f64"):
            return "%s %s %s" % (k, c[0], hexs(c[1]))
        return " ".join([k] + [str(x) for x in c])
    return " ".join(str(x) for x in op)


def norm(op):
    return ["con", ["u64", op[1][1]]] if op[0] == "con" and op[1][0] == "f64" else op


def mentioned(sc):
    out = {1, 2}
    for op in sc:
        if op[0] in ("bind", "raw"):
            out.add(op[1])
        elif op[0] in ("bindp", "st"):
            out.add(op[2])
        elif op[0] in ("patch", "patcha"):
            out |= {op[1], op[2]}
        elif op[0] in ("con", "dat") and op[1][0] == "abs":
            out.add(op[1][1])
    return sorted(out)


def write_scripts(path, scs, dump, prefix=None, dirty=lambda k: k % 3 == 1):
    with open(path, "w") as f:
        if prefix:
            f.write("prefix 0 1 2\n")
            for op in prefix:
                f.write("%s\t%s\n" % (words(op), json.dumps(norm(op), separators=(",", ":"))))
            f.write("---\n")
        for k, sc in enumerate(scs):
            f.write("%d %s\n" % ((1 if dump else 2 if prefix and k % 50 == 7 else 0) + (0 if prefix or not dirty(k) else 4), " ".join(map(str, mentioned(sc)))))
            for op in sc:
                f.write("%s\t%s\n" % (words(op), json.dumps(norm(op), separators=(",", ":"))))
            f.write("---\n")


def special(prop, tab):
    """Histories whose size matters: many labels, references, rounds, long distances."""
    rnd = random.Random(SEED * 77 + 1)
    nst = len(tab["label"])
    out = []

    def st(l):
        return ["st", rnd.randrange(1, nst + 1), l]
    if prop in ("C09", "C11", "C13"):
        # many labels, bound out of order, some never
        sc, ls = [["labels", 300]], list(range(1, 303))
        rnd.shuffle(ls)
        for l in ls[:150]:
            sc += [st(rnd.choice(ls)), ["bind", l]]
            if rnd.random() < .2:
                sc.append(["sel", rnd.randrange(2)])
            if rnd.random() < .05:
                sc.append(["fin"])
        sc += [["fin"]]
        for l in ls[150:280]:
            sc += [["bind", l], st(rnd.choice(ls[:280]))]
        out.append(sc + [["fin"], ["fin"]])
        # label numbers beyond 16 bits
        sc = [["labels", 66000], ["bind", 3], ["emit", "q", [1] * 8], ["bind", 65539], ["emit", "q", [2] * 8], ["bind", 259], st(3), st(65539), st(259),
              ["con", ["abs", 65539]], ["con", ["abs", 3]], st(65000), ["fin"], ["bind", 65000], ["fin"]]
        out.append(sc)
        # one label, very many references on both pages and in several rounds
        sc = []
        for k in range(400):
            sc.append(st(1))
            if k % 7 == 0:
                sc.append(["sel", k // 7 % 2])
            if k % 90 == 89:
                sc.append(["fin"])
            if k == 250:
                sc.append(["bind", 1])
        out.append(sc + [["fin"]])
        # distances beyond 8, 16 and 24 bits, both directions, same page and across pages
        for dist in (1, 20, 300, 5000):
            for p in (0, 1):
                sc = [["sel", p], ["bind", 1], st(2), st(2), st(1), ["con", ["abs", 2]], ["skip", dist], st(1), st(2), ["bind", 2], st(1), st(2),
                      ["sel", 1 - p], st(1), st(2), ["fin"], ["label"], ["bind", 4], ["st", 1, 2], ["fin"], ["patch", 4, 1], ["patch", 4, 2],
                      ["sel", p], ["label"], ["bind", 5], ["st", 1, 4], ["fin"], ["patch", 5, 1], ["patch", 4, 5], ["dat", ["u64", [9] * 8]], st(6), ["fin"]]
                out.append(sc)
        # as far as a short form would reach, every kind of reference
        for p in (0, 1):
            for d in range(112, 132):
                sc = [["sel", p]]
                for k in range(3):
                    sc += [["label"], ["bind", 3 + k], ["emit", "s", [144] * (d - 5 * k)]] + [["st", 1 + (d * 3 + k + 20 * p) % nst, 3 + k], ["st", 1, 3 + k]]
                out.append(sc + [["fin"], ["bind", 1], ["bind", 2]])
        # fields that straddle a boundary
        for edge in (256, 4096, 8192, 65536, 1 << 20, 1 << 24):
            for p in (0, 1):
                sc = [["sel", p], ["label"], ["label"], ["label"]]
                for d in range(1, 9):
                    sc += [["fill", edge * d - d], st(1), ["raw", 2, 4], st(3)]
                    if d == 4:
                        sc += [["bind", 1], ["sel", 1 - p], ["bind", 3], st(1), ["fin"], ["sel", p]]
                out.append(sc + [["bind", 2], ["fin"], ["con", ["abs", 1]], ["fin"]])
                sc = [["sel", p]]
                for d in range(1, 7):
                    sc += [["label"], ["fill", edge * d - d], ["bind", 2 + d], ["st", 1, 2 + d]]
                sc += [["fin"], ["bind", 1], ["sel", 1 - p], ["bind", 2]]
                for d in range(1, 7):
                    sc += [["patch", 2 + d, 1], ["patcha" if d % 2 else "patch", 2 + d, 2]]
                out.append(sc + [["fin"]])
        # very many rounds between use, binding and the end
        sc = [["label"], ["label"], ["bind", 3], ["st", 1, 1], st(2), ["con", ["abs", 1]], ["fin"], ["bind", 4], ["st", 1, 2]]
        for k in range(290):
            sc += [["emit", "b", [k % 256]], ["fin"]]
            if k == 270:
                sc += [["bind", 1], ["fin"], ["patch", 3, 4]]
        out.append(sc + [["sel", 1], ["bind", 2], ["fin"], ["patch", 4, 3], ["fin"]])
        # the longest distances there are
        if prop != "C11":
            out.append([["bind", 1], st(2), ["sel", 1], ["skip", 60000], ["label"], ["bind", 3], ["st", 1, 1], st(1), st(2), ["bind", 2], ["sel", 0], st(2), ["fin"],
                        ["patch", 3, 2], ["patch", 3, 1], ["dat", ["u32", [1, 2, 3, 4]]], st(4), ["sel", 1], st(4), ["fin"]])
    if prop in ("C10", "C11", "C14", "C12"):
        # many rounds
        sc = []
        for k in range(300):
            sc += [["emit", "b", [k % 256]], ["con" if k % 3 else "dat", ["u32" if k % 2 else "u64", [k % 256] * (4 if k % 2 else 8)]],
                   ["sel", k // 5 % 2], ["fin"]]
        out.append(sc)
        # many and large items
        sc = []
        for k in range(300):
            c = rnd.choice(["con", "con", "dat"])
            t = rnd.choice(["u64", "u32", "bytes", "al8", "abs"])
            it = {"u64": ["u64", [rnd.randrange(256) for _ in range(8)]], "u32": ["u32", [rnd.randrange(256) for _ in range(4)]],
                  "bytes": ["bytes", rnd.randrange(70)], "al8": ["al8"], "abs": ["abs", rnd.randrange(1, 3)]}[t]
            sc.append([c if t not in ("al8", "abs") else "con", it])
            if rnd.random() < .2:
                sc.append(["sel", rnd.randrange(2)])
        out.append(sc + [["emit", "b", [1]], ["bind", 1], ["fin"], ["bind", 2], ["fin"]])
        for n in (255, 256, 257, 4095, 4096, 5000, 70000):
            out.append([["emit", "b", [1]], ["con", ["bytes", n]], ["con", ["u32", [1, 2, 3, 4]]], ["dat", ["bytes", n]], ["dat", ["u32", [1, 2, 3, 4]]],
                        ["fin"], ["con", ["u64", [7] * 8]], ["dat", ["u64", [7] * 8]], ["fin"]])
        # items placed over memory that is not zero any more is impossible; but empty rounds are not
        out.append([["fin"]] * 20 + [["emit", "b", [3]], ["fin"], ["fin"], ["con", ["al8"]], ["fin"], ["sel", 1], ["fin"]])
        # items that start next to a boundary
        for edge in (256, 4096, 65536, 1 << 20):
            for d in (0, 1, 3, 4, 5, 8, 9, 12, 13, 16):
                its = [["u64", [1, 2, 3, 4, 5, 6, 7, 8]], ["u32", [9, 10, 11, 12]], ["bytes", 21], ["u32", [5, 6, 7, 8]], ["bytes", 3]]
                out.append([["sel", d % 2], ["fill", edge - d], ["dat", ["bytes", edge - d]]] + [[c, it] for it in its[d % 3:] for c in ("con", "dat")]
                           + [["con", ["abs", 1]], ["bind", 1], ["fin"], ["con", its[0]], ["fin"]])
        # special bit patterns of floating-point constants
        fl = [[0] * 8, [0] * 7 + [128], [1, 0, 0, 0, 0, 0, 240, 127], [255] * 8, [0, 0, 0, 0, 0, 0, 248, 255], [1] + [0] * 7, [0, 0, 0, 0, 0, 0, 240, 255]]
        out.append([["con", ["f64", v]] for v in fl] + [["fin"]])
        ext = [[255] * 8, [0] * 7 + [128], [255] * 7 + [127], [0, 0, 0, 128, 0, 0, 0, 0], [255, 255, 255, 255, 0, 0, 0, 0], [0, 0, 0, 0, 1, 0, 0, 0]]
        out.append([[c, ["u64", v]] for v in ext for c in ("con", "dat")] + [[c, ["u32", v[:4]]] for v in ext for c in ("con", "dat")] + [["fin"]])
    if prop == "C12":
        for edge in (64, 128, 256, 4096, 65536, 1 << 20, 1 << 24):
            sc = []
            for d in range(0, 9):
                for p in (0, 1):
                    sc += [["sel", p], ["fill", edge * (d + 1) - d], [["emit", "w", [1, 2]], ["emit", "l", [1, 2, 3, 4]], ["emit", "q", [9, 8, 7, 6, 5, 4, 3, 2]],
                                                                     ["emit", "s", list(range(1, 20))], ["emit", "b", [5]]][d % 5 if edge > 64 else d % 3],
                           ["al", (4, 8, 16)[d % 3]], ["pemit", 1 - p, "l", [4, 3, 2, 1]], ["bind", 1 + p]]
            out.append(sc)
        for n in (4, 8, 16, 4096):
            sc = []
            for c in range(40):
                sc += [["emit", "s", [1] * (c % 19)], ["al", n], ["pal", c % 2, n]]
            out.append(sc)
        ext = [[0] * 8, [255] * 8, [0] * 7 + [128], [255, 0] * 4, [0, 255] * 4, [1, 2, 3, 4, 5, 6, 7, 8], [128] * 8]
        out.append([["emit", k, v[:n]] for v in ext for k, n in (("b", 1), ("w", 2), ("l", 4), ("q", 8), ("s", 8))]
                   + [["pemit", p, k, v[:n]] for v in ext for p in (0, 1) for k, n in (("b", 1), ("w", 2), ("l", 4), ("q", 8))] + [["sel", 1], ["sel", 0]])
        out.append([["sel", p % 2] for p in range(10)] + [["sel", 1], ["sel", 2], ["sel", 3], ["emit", "b", [5]], ["sel", 0], ["emit", "b", [6]]])
        out.append([["skip", 3000], ["emit", "q", [5] * 8], ["sel", 1], ["emit", "b", [1]], ["sel", 0], ["emit", "b", [2]], ["sel", 1], ["skip", 100],
                    ["emit", "w", [1, 2]], ["fin"]])
    return out


def run(prop):
    rep = vlib.Report(prop, "model_checking")
    t = 1 if TIER == "thorough" else 0
    alpha, depth, slen, num = PLAN[prop]
    with cf.ThreadPoolExecutor(4) as ex:
        f1 = ex.submit(explore, rep, alpha, depth[t], slen[t])
        f2 = ex.submit(simulate, rep, alpha, num[t], 40 if not t else 60, SEED)
        tab = table()
        f3 = ex.submit(driver, tab)
        f4 = ex.submit(driver, tab, True)
        exhaustive, randoms, (exe, rejected) = f1.result(), f2.result(), f3.result()
        rel, _ = f4.result()
    for t in rejected:
        if prop == "C09":
            rep.violation("not accepted: " + t, {"statement": t})
    if prop == "C15":
        parts = room_parts(exhaustive, randoms)
    else:
        exhaustive = [sc + [["fin"], ["sel", 1], ["sel", 0]] for sc in exhaustive]
        randoms = [sc + [["fin"], ["fin"]] for sc in randoms]
        specials = special(prop, tab)
        n = 8
        parts = [((exhaustive + randoms)[k::n], False, None) for k in range(n)] + [(specials, False, None), (specials, False, None)]
        if prop == "C14":
            dump_from = exhaustive[:: max(1, len(exhaustive) // 150)] + randoms[:: max(1, len(randoms) // 100)]
            parts += [(dump_from[k::4], True, None) for k in range(4)]
        rep.add(special_scripts=len(specials))
    rep.add(random_scripts=len(randoms))
    work = vlib.workdir("jit-" + prop)

    def go(k):
        scs, dump, prefix = parts[k]
        p = os.path.join(work, "s%d.txt" % k)
        # a third of the histories start with memory that is not zero; the special ones are run both ways
        write_scripts(p, scs, dump, prefix, (lambda i: k == 9) if k in (8, 9) else (lambda i: i % 3 == 1))
        try:
            # half of the histories run without overflow checks and debug assertions
            vlib.run_driver(rel if k % 4 >= 2 else exe, [p, os.path.join(work, "t%d.ndjson" % k)] + (["guard"] if prefix else []))
        except vlib.Crash as e:
            return str(e)
        return None
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, range(len(parts))))
    trace = os.path.join(work, "trace.ndjson")
    lines, order = [], []
    for k, err in enumerate(res):
        p = os.path.join(work, "t%d.ndjson" % k)
        ls = open(p).read().splitlines() if os.path.exists(p) else []
        scs, dump, prefix = parts[k]
        if err:
            bad = (prefix or []) + scs[len(ls)] if len(ls) < len(scs) else None
            rep.violation("crash", {"error": err, "script": bad})
        lines += ls
        order += [(prefix or []) + sc for sc in scs[:len(ls)]]
        if os.path.exists(p):
            os.remove(p)
    judge(rep, prop, trace, lines, order)
    if prop == "C09":
        import enc
        enc.references(rep, "c09refs")
    rep.assumptions = ["JitMemory lays its three pages out contiguously (page 1 after page 0, data page after page 1).",
                       "X86.tla gives the meaning of instruction bytes."]
    return rep.finish()


def room_parts(exhaustive, randoms):
    """Histories that start with only a few bytes left on every page."""
    def prefix(room):
        to = PAGE - room
        return [["sel", 1], ["fill", to], ["sel", 0], ["fill", to], ["dat", ["bytes", to]], ["fin"]]
    out = []
    for k in range(4):
        out.append((exhaustive[k::4], False, prefix(ROOM)))
        out.append((randoms[k::4], False, prefix(2 * ROOM)))
    # items far larger than the page, up to the largest size there is (numbers from HUGE stand for those below 2^64)
    huge = []
    for n in (17, 32, 33, 255, 256, 4096, 65536, PAGE - ROOM, PAGE - 1, PAGE, PAGE + 1, 2 * PAGE, 2 * PAGE + 16, 4 * PAGE - 1, 4 * PAGE, 4 * PAGE + 8) \
            + tuple(HUGE + d for d in (0, 1, 7, 14, 15, 16, 31, 32, PAGE - 1, PAGE, PAGE + ROOM, PAGE + ROOM + 1, 2 * PAGE - ROOM)):
        for k, op in enumerate((["con", ["bytes", n]], ["dat", ["bytes", n]])):
            for p in (0, 1):
                huge.append([["sel", p], op, ["fin"], ["emit", "b", [7]], ["sel", 1 - p], ["emit", "b", [9]]])
            huge.append([["con", ["u32", [1, 2, 3, 4]]], ["dat", ["u32", [5, 6, 7, 8]]], op, ["fin"], ["sel", 1], ["emit", "l", [1, 2, 3, 4]]])
    # access by position around the end of a page and far beyond
    for n in [PAGE - ROOM, PAGE - 2, PAGE - 1, PAGE, PAGE + 1, PAGE + 4095, 2 * PAGE - 1, 2 * PAGE, 3 * PAGE - 1, 3 * PAGE, 4 * PAGE] \
            + [HUGE + d for d in (0, 1, PAGE - 1, PAGE, 2 * PAGE)]:
        for p in (0, 1):
            huge.append([["sel", p], ["poke", n, 201], ["peek", p, n], ["ppoke", 1 - p, n, 202], ["ppoke", p, n, 203], ["emit", "b", [7]], ["fin"]])
        huge.append([["ppoke", 2, n, 204], ["peek", 2, n], ["dat", ["u32", [5, 6, 7, 8]]], ["fin"]])
    out.append((huge[::2], False, prefix(ROOM)))
    out.append((huge[1::2], False, prefix(2 * ROOM)))
    return out


def corrupted(prop, run, rnd):
    """A copy of a recorded run with one observation falsified, and the number of that event; None if none fits the property."""
    r = json.loads(json.dumps(run))
    ev = r["ev"]
    fins = [k for k, e in enumerate(ev) if e["o"][0] == "fin" and not e["r"]]

    def pick(ok):
        ks = [k for k, e in enumerate(ev) if ok(k, e)]
        return rnd.choice(ks) if ks else None
    if prop == "C09":
        k = pick(lambda k, e: e["o"][0] == "bind" and e["la"])
        if k is not None:
            ev[k]["la"][0][1] += rnd.choice([1, -1, 16])
    elif prop == "C10":
        k = pick(lambda k, e: e["o"][0] == "fin" and len(e["la"]) > 0)
        if k is not None:
            ev[k]["la"][-1][1] += rnd.choice([1, -1, 16])
    elif prop == "C11":
        f = [k for k in fins if any(b[0] == 0 and b[4] > 0 for b in ev[k]["bl"])]
        k = pick(lambda k, e: f and k > f[0] and e["o"][0] not in ("fin", "patch", "patcha"))
        if k is not None:
            ev[k]["ch"].insert(0, [0, 171])
    elif prop == "C12":
        k = pick(lambda k, e: e["o"][0] in ("emit", "al", "sel", "bind") and not e["r"])
        if k is not None:
            ev[k]["c"] += rnd.choice([1, 8])
    elif prop == "C13":
        k = pick(lambda k, e: e["o"][0] in ("patch", "patcha") and e["ch"])
        if k is not None:
            ev[k]["ch"][0][1] ^= 4
    elif prop == "C14":
        k = pick(lambda k, e: e["o"][0] == "fin" and e["bl"])
        if k is not None:
            ev[k]["bl"][rnd.randrange(len(ev[k]["bl"]))][rnd.choice([2, 3])] += 1
    elif prop == "C15":
        k = pick(lambda k, e: e["o"][0] in ("emit", "fin") and e["r"])
        if k is not None and not any(e["r"] for e in ev[:k]):
            ev[k]["r"] = 0
        else:
            k = None
    return (r, k + 1) if k is not None else None


def judge(rep, prop, trace, lines, order):
    rnd = random.Random(SEED + 99)
    ctl = []
    cand = [k for k in range(len(lines)) if len(lines[k]) < 60000]
    rnd.shuffle(cand)
    for k in cand:
        c = corrupted(prop, json.loads(lines[k]), rnd)
        if c:
            ctl.append((c[0], c[1], k))
        if len(ctl) == 60:
            break
    # in pieces: TLC follows behaviours of at most 65535 states, and 16 of them in parallel
    texts = lines + [json.dumps(c[0], separators=(",", ":")) for c in ctl]
    sizes = [len(o) + 1 for o in order] + [len(c[0]["ev"]) + 1 for c in ctl]
    bad, g, d, a = [], 0, 0, 0
    while a < len(texts):
        b, size = a, 0
        while b < len(texts) and size < 250000:
            size += sizes[b]
            b += 1
        with open(trace, "w") as f:
            f.write("\n".join(texts[a:b]) + "\n")
        out, g1, d1 = vlib.tlc("JitTrace", env={"TRACE": trace, "PROP": prop}, heap="10g")
        bad += [(x + a, y) for x, y in vlib.bad_events(out)]
        g, d, a = g + g1, d + d1, b
    events = sum(len(o) for o in order)
    want = sum(sizes)
    if d != want:
        raise vlib.ToolError("TLC visited %d states, expected %d" % (d, want))
    n = len(lines)
    if not [x for x in bad if x[0] <= n]:
        missed = [c for j, c in enumerate(ctl) if (n + 1 + j, c[1]) not in bad]
        if len(missed) > 0.1 * len(ctl) or len(ctl) < 20:
            raise vlib.ToolError("%d corrupted runs, %d of them accepted, e.g. %s" % (
                len(ctl), len(missed), [(order[c[2]][:c[1]], c[0]["ev"][c[1] - 1]) for c in missed[:1]]))
    bad = [x for x in bad if x[0] <= n]
    rep.add(traces_validated_against_impl=len(order), states=d, transitions=g, events=events, corrupted_runs_refused=len(ctl))
    for a, b in bad:
        ev = json.loads(lines[a - 1])["ev"]
        rep.violation("%s after %s" % (json.dumps(order[a - 1][b - 1]), json.dumps(order[a - 1][:b - 1])[:300]),
                      {"script": order[a - 1][:b], "event": b, "observed": ev[b - 1]})
    for o in order[:: max(1, len(order) // 6)]:
        rep.sample(o[:12])


def check(prop):
    return run(prop)
