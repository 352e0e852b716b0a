"""Checks C01..C06: the encoding of every statement against spec/Asm.tla + spec/X86.tla."""
import json, os
import gas, gen, vlib
from vlib import TIER, SEED, log

RT = lambda: open(os.path.join(vlib.VERIF, "driver", "rt.rs")).read()

# Sample operands of each shape letter, used to report a legal statement that no longer compiles.
SAMPLE = {"K::R": ["r", 0], "K::X": ["x", 0], "K::C": ["r", 1], "K::I": ["n", 1], "K::IB": ["n", 1], "K::M": ["m", 0, -1, 1, 0],
          "K::ML": ["ml", 0], "K::L": ["l", 0], "K::D": ["d", 0], "K::RF": ["r", 0]}


def sample_ops(st):
    out = []
    for k in st["ops"]:
        head = k.split("(")[0]
        if head in ("K::QF",):
            out.append(["i", json.loads(k[k.index("["):-1])])
        elif head in SAMPLE:
            out.append(SAMPLE[head])
        elif head in ("K::MB", "K::MBI"):
            out.append(["mb", 0, -1])
        elif head.startswith("K::M"):
            out.append(["m", 0, 1, 1, 0])
        elif head == "K::Bad":
            out.append(["bad"])
        elif head == "K::IF":
            v = -2**63 if "MIN" in k else int(k[6:-1])
            out.append(["n", v] if -2**31 <= v < 2**31 else ["i", list(v.to_bytes(8, "little", signed=True))])
        elif head == "K::MF":
            out.append(["m"] + [int(x) for x in k[6:-1].split(",")])
        elif head == "K::DF":
            out.append(["d", int(k[6:-1])])
        elif head == "K::XF":
            out.append(["x", 0])
        else:
            out.append(["n", 1])
    return out


def is_x(sh):
    return "x" in sh


def select(d, prop):
    """(form, shape) pairs of the language that belong to a property."""
    out = []
    for f in d["forms"]:
        for sh in f["sh"]:
            c, o = f["c"], f["o"]
            if c in ("alu", "movx", "xchg", "rrm", "lea", "test", "shift") or (c == "mov" and not is_x(sh)) \
                    or (c == "un" and o not in ("push", "pop")) or (c == "bare" and o == "cdq"):
                p = "C01"
            elif c in ("set", "cmov", "jcc"):
                p = "C04"
            elif c in ("sse", "movsd", "round", "cvtix", "cvtxi") or (c == "mov" and is_x(sh)):
                p = "C05"
            else:
                p = "C06"
            if prop == p or (prop == "C03" and ("i" in sh or "Q" in sh)) or (prop == "C02" and "m" in sh):
                out.append((f, sh))
    return out


def controls(groups):
    """Corrupted copies of recorded events: a byte appended, the last byte missing, rejected although accepted or the reverse."""
    out = []
    for g in groups[:: max(1, len(groups) // 60)]:
        cs = []
        for c in g["cs"][:: max(1, len(g["cs"]) // 5)]:
            if c[1] != [-1]:
                cs += [[c[0], c[1] + [0x90]], [c[0], c[1][:-1]], [c[0], [-1]]]
            else:
                cs += [[c[0], [0x90]], [c[0], [0x48, 0x89, 0xc0]]]
        if cs:
            out.append({"mn": g["mn"], "src": g["src"], "cs": cs})
    return out


def ref_controls(groups):
    """Recorded references claimed to be to a place next to the one they are to."""
    out = []
    for g in groups[:: max(1, len(groups) // 60)]:
        cs = []
        for c in g["cs"][:: max(1, len(g["cs"]) // 5)]:
            if c[1] != [-1]:
                for d in (1, -1, 4, 65536):
                    cs.append([[[o[0], o[1] + d] if o[0] in ("l", "ml") else o for o in c[0]], c[1]])
        if cs:
            out.append({"mn": g["mn"], "src": g["src"], "cs": cs})
    return out


def chunks(trace, limit=40 << 20, module="EncTrace"):
    """Lets TLC judge the trace, in pieces it can hold in memory."""
    bad, gen_, dist = [], 0, 0
    lines = open(trace).read().splitlines(True)
    a = 0
    while a < len(lines):
        b, size = a, 0
        while b < len(lines) and (size == 0 or size + len(lines[b]) <= limit):
            size += len(lines[b])
            b += 1
        part = trace
        if b - a < len(lines):
            part = trace + ".part"
            with open(part, "w") as f:
                f.writelines(lines[a:b])
        out, g, d = vlib.tlc(module, env={"TRACE": part}, workers=8, heap="10g", timeout=800 if TIER == "quick" else 3600)
        bad += [(x + a, y) for x, y in vlib.bad_events(out)]
        gen_ += g
        dist += d
        a = b
    if os.path.exists(trace + ".part"):
        os.remove(trace + ".part")
    return bad, gen_, dist


def validate(rep, trace, rejected_items=(), module="EncTrace"):
    """Appends compile-time rejections to the trace and lets TLC judge every event."""
    with open(trace, "a") as f:
        for st, msg in rejected_items:
            f.write(json.dumps({"mn": st["mn"], "src": st["src"], "cs": [[sample_ops(st), [-1]]],
                                "why": msg}) + "\n")
    lines = open(trace).read().splitlines()
    groups = [json.loads(l) for l in lines]
    ctl = controls(groups) if module == "EncTrace" else ref_controls(groups)
    other = gas.groups(groups, 40) if TIER == "thorough" and not rep.viol and module == "EncTrace" else []
    with open(trace, "a") as f:
        for g in ctl + other:
            f.write(json.dumps(g) + "\n")
    bad, gen_, dist = chunks(trace, module=module)
    if dist != len(groups) + len(ctl) + len(other):
        raise vlib.ToolError("TLC visited %d of %d trace groups" % (dist, len(groups) + len(ctl) + len(other)))
    refused = {x for x in bad if len(groups) < x[0] <= len(groups) + len(ctl)}
    differ = [x for x in bad if x[0] > len(groups) + len(ctl)]
    if differ:
        g = other[differ[0][0] - len(groups) - len(ctl) - 1]
        raise vlib.ToolError("the specification refuses %d statements of GNU as, e.g. %s %s" % (len(differ), g["mn"], g["cs"][differ[0][1] - 1]))
    if other:
        rep.add(statements_agreeing_with_gnu_as=sum(len(g["cs"]) for g in other))
    bad = [x for x in bad if x[0] <= len(groups)]
    n = sum(len(g["cs"]) for g in ctl)
    if os.environ.get("VERIF_DEBUG"):
        for k, g in enumerate(ctl):
            for j, c in enumerate(g["cs"]):
                if (len(groups) + k + 1, j + 1) not in refused:
                    print("accepted control:", g["src"], c)
    if not bad and len(refused) < 0.9 * n:
        raise vlib.ToolError("the specification accepted %d of %d corrupted events" % (n - len(refused), n))
    rep.add(corrupted_events_refused=len(refused))
    rep.add(traces_validated_against_impl=sum(len(g["cs"]) for g in groups), states=dist, transitions=gen_,
            statements=len({(g["mn"], g["src"]) for g in groups}),
            mnemonics=len({g["mn"] for g in groups}),
            rejections=sum(1 for g in groups for c in g["cs"] if c[1] == [-1]))
    for a, b in bad:
        g = groups[a - 1]
        c = g["cs"][b - 1]
        rep.violation("%s %s" % (g["src"], json.dumps(c[0])),
                      {"statement": g["src"], "operands": c[0],
                       "bytes": c[1] if c[1] == [-1] else bytes(c[1]).hex(), "why": g.get("why", "")})
    for g in groups[:: max(1, len(groups) // 7)]:
        rep.sample({"statement": g["src"], "operands": g["cs"][0][0],
                    "bytes": "rejected" if g["cs"][0][1] == [-1] else bytes(g["cs"][0][1]).hex()})


CLASSES = {"C01": ["alu", "mov", "movx", "xchg", "un", "lea", "rrm", "test", "shift", "bare"],
           "C02": ["lea", "movsd"], "C03": ["mov", "test"], "C04": ["set", "cmov", "jcc"],
           "C05": ["sse", "movsd", "round", "cvtix", "cvtxi"], "C06": ["call", "jmp", "un", "bare"]}


def oracle(prop):
    """Model-checks the oracle itself (EncMC): counts of statement families and of states."""
    thorough = TIER == "thorough"
    small = prop in ("C01", "C04")
    cfg = os.path.join(vlib.workdir(prop.lower() + "oracle"), "EncMC.cfg")
    sets = [[0, 1, 4, 7, 8, 13], [0, 4, 5, 12, 13], [0, 12]] if thorough else [[0, 4, 13], [4, 13], [12]] if small else [[0, 4, 7, 8, 13], [0, 4, 13], [0, 12]]
    if thorough and prop == "C02":
        sets = [[0, 8], list(range(16)), list(range(16))]
    lists = ["{%s}" % ", ".join(map(str, x)) for x in sets]
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS\n Regs = %s\n Bases = %s\n Indices = %s\n Wide = %s\n Classes = {%s}\n"
                "INVARIANTS Encodable Accepted Discriminates\nCHECK_DEADLOCK FALSE\n"
                % (*lists, "TRUE" if prop in ("C02", "C05", "C06") or thorough else "FALSE", ", ".join('"%s"' % c for c in CLASSES[prop])))
    return vlib.tlc("EncMC", cfg=cfg, workers=4, timeout=800 if not thorough else 5400)[1:]


def build_run(name, items, main, head="", release=False):
    """Builds and runs one driver; returns (trace or None, rejected, crash text)."""
    exe, rej = vlib.build_driver(name, gen.render_with(head + main), items, {"rt.rs": RT()}, release=release)
    trace = os.path.join(vlib.workdir(name), "trace.ndjson")
    try:
        vlib.run_driver(exe, [trace], env={"VERIF_SEED": str(SEED)})
    except vlib.Crash as e:
        return None, rej, str(e)
    return trace, rej, None


def finish_parts(rep, name, parts, res, module="EncTrace"):
    trace = os.path.join(vlib.workdir(name), "trace.ndjson")
    rejected = []
    with open(trace, "w") as f:
        for items, (t, rej, crash) in zip(parts, res):
            if crash:
                rep.violation("driver crash " + name, {"error": crash})
            else:
                f.write(open(t).read())
                os.remove(t)
            rejected += [(items[k], m) for k, m in rej.items()]
    validate(rep, trace, rejected, module)


def run_family(rep, name, items, main, release=False, module="EncTrace"):
    n = 4 if len(items) > 400 else 1
    parts = [items[k::n] for k in range(n)]
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda k: build_run("%sp%d" % (name, k), parts[k], main, release=release or k % 2 == 1), range(n)))
    finish_parts(rep, name, parts, res, module)


def references(rep, name):
    """Every statement form that can mention a label, with the label in every kind of place."""
    d = gen.forms()
    items = []
    for f in d["forms"]:
        for sh in f["sh"]:
            if "m" in sh or "l" in sh:
                items += gen.expand(f, sh, gen.MEM_DEFAULT[-1:])
    rep.add(label_carrying_forms=len(items))
    imms = [0, 1, -1, 5, 127, 128, -129, 1000, 32767, 70000, -2**31]
    run_family(rep, name, items, gen.main_simple(gen.plan([0], imms, per_pair=60, random=40, full=60)), module=module_refs)


module_refs = "RefTrace"
C02_MNEMONICS = ["movq", "movl", "movw", "movb", "addq", "addb", "cmpw", "testb", "testq", "negq", "setz", "movsd",
                 "jmp", "pushq", "popq", "roundpd", "shlq", "sarl", "cvtsi2sdq", "cvttsd2siq", "lzcntl", "movzxb", "lea", "xchgq",
                 "cmovew", "call", "addsd"]


def check(prop):
    thorough = TIER == "thorough"
    rep = vlib.Report(prop, "model_checking")
    d = gen.forms()
    disps, imms = d["disps"], d["imms"]
    items = []
    if prop == "C02":
        seen = set()
        for f, sh in select(d, "C02"):
            if f["mn"] in C02_MNEMONICS or thorough:
                # one shape per mnemonic and position of the memory operand
                key = (f["mn"], sh.index("m"), "i" in sh, "x" in sh)
                if key in seen:
                    continue
                seen.add(key)
                items += gen.expand(f, sh, gen.MEM_DEFAULT)
        small = [0, 1, -1, 127, 128, -128, -129, 2**31 - 1, -2**31, 8, 4096]
        main = gen.main_simple(gen.plan(disps if thorough else small, [0, 1, -1, 100], random=150, full=10**6, rand_regs=True))
        rest = []
        for f, sh in select(d, "C02"):
            key = (f["mn"], sh.index("m"), "i" in sh, "x" in sh)
            if key not in seen:
                seen.add(key)
                rest += gen.expand(f, sh, gen.MEM_DEFAULT)
        rep.add(rip_labels="6 placements: before, after, pending, other page, constant, data")
    elif prop == "C03":
        for f, sh in select(d, "C03"):
            mem = [gen.MEM_DEFAULT[0], gen.MEM_DEFAULT[3], gen.MEM_DEFAULT[5]]
            if f["c"] != "round":
                items += gen.expand(f, sh, mem)
        main = gen.main_simple(gen.plan([0, 1, -129], imms, per_pair=1300 if not thorough else 3000, random=0,
                                        rand_imm=150 if not thorough else 3000, full=1300))
    else:
        for f, sh in select(d, prop):
            if f["c"] == "dq":
                items += gen.dq_stmts()
            else:
                items += gen.expand(f, sh)
        k = 1 if not thorough else 6
        small = [0, 1, -1, 127, 128, -128, -129, 2**31 - 1, -2**31]
        n = len(items)
        rimm = [0, 1, -1, 127, 255] if prop == "C05" else [0, 1, -1, 127]
        main = gen.main_simple(gen.plan(small if not thorough else disps, rimm, per_pair=280 * k,
                                        random=60 * k, full=300 * k))
    rep.add(statement_forms=len(items))
    import spell
    n = {"C01": 6, "C02": 8, "C03": 24, "C04": 4, "C05": 24, "C06": 24}[prop] * (4 if thorough else 1)
    # the same forms as a reader of the README writes them, all names and literals known to the macro
    plain = spell.statics([x for x in select(d, prop) if x[0]["c"] != "dq"], n, imms if prop == "C03" else None, disps if prop == "C02" else None)
    rep.add(plain_statements=len(plain))
    items += plain
    import concurrent.futures as cf
    ex = cf.ThreadPoolExecutor(1)
    orc = ex.submit(oracle, prop)
    run_family(rep, prop.lower() + "enc", items, main)
    if prop == "C02" and rest:
        # every other instruction with a memory operand, fewer addresses each
        run_family(rep, "c02rest", rest, gen.main_simple(gen.plan(small, [0, 1, -1, 100], per_pair=60, random=80, full=60, rand_regs=True)))
        rep.add(statement_forms_sampled=len(rest))
    if prop == "C03":
        # once more with corner values only, built without overflow checks and debug assertions
        main = gen.main_simple(gen.plan([0, -129], imms, per_pair=100, random=0, rand_imm=10, full=100))
        run_family(rep, "c03rel", items, main, release=True)
        # roundpd's immediate is a u8: all 256 values
        items = []
        for f, sh in select(d, "C03"):
            if f["c"] == "round":
                items += gen.expand(f, sh)
        main = gen.main_simple(gen.plan([0, 1, -129], list(range(256)), per_pair=2000, random=50, full=5000))
        run_family(rep, "c03round", items, main)
    gen_, dist = orc.result()
    rep.add(oracle_states=dist, states=dist, transitions=gen_)
    rep.assumptions = ["The decoder in spec/X86.tla describes x86-64 (cross-checked with GNU as in the thorough tier and by execution in C17)."]
    return rep.finish()
