"""Check C19: blocks of statements against spec/Block.tla."""
import concurrent.futures as cf
import json, os, random, re
import gen, vlib
from vlib import TIER, SEED


def imm_class(form, shape):
    if form["c"] == "shift":
        return 0
    if form["c"] == "round":
        return 1
    if form["c"] == "mov" and form["w"] == 64 and shape[0] == "r":
        return 64
    return min(form["w"] or 32, 32)


def pool(d):
    """Every statement form of the language with its immediate class."""
    out = []
    for f in d["forms"]:
        if f["c"] == "dq":
            out += [(s, 64) for s in gen.dq_stmts()]
            continue
        for sh in f["sh"]:
            out += [(s, imm_class(f, sh)) for s in gen.expand(f, sh)]
    return out


RAX, RCX, RBX, RDI = ("rax", "K::RF(0)"), ("rcx", "K::RF(1)"), ("rbx", "K::RF(3)"), ("rdi", "K::RF(7)")
X0, X1 = ("xmm0", "K::XF(0)"), ("xmm1", "K::XF(1)")
MEM, STK = ("[rbx + 8]", "K::MF(3, -1, 1, 8)"), ("[rsp]", "K::MF(4, -1, 1, 0)")
ZERO, ONE, EIGHT = ("0", "K::IF(0)"), ("1", "K::IF(1)"), ("8", "K::IF(8)")
RSP = ("rsp", "K::RF(4)")
# Statements whose neighbourhood invites an assembler to be clever.
COMMON = [gen.stmt(mn, list(ops)) for mn, *ops in (
    ("pushq", RAX), ("popq", RAX), ("pushq", RBX), ("popq", RBX), ("movq", RAX, RBX), ("movq", RBX, RAX), ("movq", RAX, ZERO), ("movq", RAX, MEM),
    ("movq", MEM, RAX), ("movl", RAX, RAX), ("movq", RAX, RAX), ("xorq", RAX, RAX), ("addq", RAX, ONE), ("addq", RAX, ZERO), ("subq", RAX, ONE), ("addq", RSP, EIGHT), ("subq", RSP, EIGHT),
    ("cmpq", RAX, ZERO), ("testq", RAX, RAX), ("cqo",), ("idiv", RCX), ("negq", RAX), ("shlq", RAX, ONE), ("xchgq", RAX, RBX), ("imul", RAX, RCX),
    ("lea", RDI, STK), ("movsd", X0, X1), ("movsd", X1, X0), ("movq", X0, RAX), ("movq", RAX, X0), ("movsd", X0, MEM), ("movsd", MEM, X0), ("xorps", X0, X0),
    ("setz", RAX), ("movzxb", RAX, RAX), ("jmp", ("l", "K::L")), ("jz", ("l", "K::L")), ("jnz", ("l", "K::L")), ("call", ("l", "K::L")), ("ret",), ("leave",),
    ("int3",), ("call", RAX), ("jmp", RAX))]


def adjacent(rnd):
    """Blocks in which every ordered pair of common statements (and of a statement and the binding of its label) is adjacent."""
    n = len(COMMON) + 1
    succ = {a: rnd.sample(range(n), n) for a in range(n)}      # Eulerian walk over the complete graph with loops
    stack, walk = [0], []
    while stack:
        a = stack[-1]
        if succ[a]:
            stack.append(succ[a].pop())
        else:
            walk.append(stack.pop())
    out, k = [], 0
    while k < len(walk) - 1:
        part = walk[k:k + 41]
        k += 40
        bind = [j for j, a in enumerate(part) if a == n - 1]
        its = []
        for j, a in enumerate(part):
            nxt = [b for b, pos in enumerate(bind) if pos > j]
            prv = [b for b, pos in enumerate(bind) if pos <= j]
            l = nxt[0] if nxt and rnd.random() < .6 else prv[-1] if prv else len(bind)
            its.append(("b", bind.index(j)) if a == n - 1 else ("s", COMMON[a], l, 64))
        out.append((len(bind) + 1, its))
    return out


def make_blocks(stmts, rnd, sizes):
    """Deals the statements out to blocks; adds label bindings."""
    blocks, k = [], 0
    while k < len(stmts):
        n = rnd.choice(sizes)
        part = stmts[k:k + n]
        k += n
        nl = rnd.randrange(1, 5)
        its = [("s", s, rnd.randrange(nl), c) for s, c in part]
        for l in range(nl):
            if rnd.random() < .6:
                its.insert(rnd.randrange(len(its) + 1), ("b", l))
        blocks.append((nl, its))
    return blocks


def text(it, k):
    if it[0] == "b":
        return "l%d:" % it[1]
    s = re.sub(r"\bp\.", "p[%d]." % k, it[1]["src"])
    return re.sub(r"\bl\b", "l%d" % it[2], s)


def render_with(reps, seed):
    def render(items):
        out = ["#![allow(unused, non_snake_case)]", "mod rt;", "mod blk;", "use rt::*;", "use blk::*;", "use monoasm::*;", "use monoasm_macro::monoasm;"]
        lines = {}
        for b, (nl, its) in enumerate(items):
            texts, k = [], 0
            for it in its:
                texts.append(text(it, k))
                k += it[0] == "s"
            lets = "".join("let l%d = ls[%d]; " % (l, l) for l in range(nl))
            rnd = random.Random(seed * 1000 + b)
            for v in range(3):
                groups = []
                if v == 0:
                    groups = [texts]
                elif v == 1:
                    groups = [[t] for t in texts]
                else:
                    k = 0
                    while k < len(texts):
                        n = rnd.randrange(1, 6)
                        groups.append(texts[k:k + n])
                        k += n
                lines[len(out) + 1] = b
                out.append("fn f%d_%d(jit: &mut JitMemory, p: &[P], ls: &[DestLabel]) { %s%s }" % (
                    b, v, lets, " ".join("monoasm!(&mut *jit, %s);" % " ".join(g) for g in groups)))
        out.append("static BLKS: &[Blk] = &[")
        for b, (nl, its) in enumerate(items):
            its_src = ", ".join("It::B(%d)" % it[1] if it[0] == "b" else "It::S(%s, &[%s], %d, %d)" % (
                json.dumps(it[1]["mn"]), ", ".join(it[1]["ops"]), it[2], it[3]) for it in its)
            out.append("Blk { its: &[%s], labels: %d, fs: [f%d_0, f%d_1, f%d_2] }," % (its_src, nl, b, b, b))
        out.append("];")
        out.append('''fn refuse(jit: &mut JitMemory, k: usize) {
    let none: Option<i64> = std::hint::black_box(None);
    match k %% 9 {
        0 => { monoasm!(&mut *jit, addq rax, (0x1_0000_0000i64);); }
        1 => { monoasm!(&mut *jit, movb rax, (1000i64);); }
        2 => { monoasm!(&mut *jit, movq rax, [rax + R(4) * 2];); }
        3 => { monoasm!(&mut *jit, shlq rax, (200i64);); }
        // the caller's own expression panics
        4 => { monoasm!(&mut *jit, cmpq rax, (none.unwrap());); }
        5 => { monoasm!(&mut *jit, movq R(none.unwrap() as u64), rax;); }
        6 => { monoasm!(&mut *jit, addl [rax + R(1) * 8 + (none.unwrap())], 5;); }
        7 => { monoasm!(&mut *jit, call (none.unwrap()););  }
        _ => { monoasm!(&mut *jit, movq R(16), rax;); }
    }
}
fn main() { blk::run(BLKS, &std::env::args().nth(1).unwrap(), %d, &refuse); }''' % reps)
        return "\n".join(out) + "\n", lines
    return render


def model(depth):
    cfg = os.path.join(vlib.workdir("blockmc"), "BlockMC.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANTS Readable OnlyThat\nCHECK_DEADLOCK FALSE\n" % depth)
    return vlib.tlc("BlockMC", cfg=cfg, workers=4, timeout=800 if TIER == "quick" else 5400)[1:]


def controls(recs, rnd):
    """Falsified copies of blocks: a statement missing, doubled or exchanged with its neighbour, a byte more at the end, a moved label."""
    out = []
    for r in rnd.sample(recs, min(len(recs), 150)):
        c = json.loads(json.dumps(r))
        its = c["its"]
        st = [k for k, i in enumerate(its) if i[0] == "s"]
        bs = [k for k, i in enumerate(its) if i[0] == "b"]
        kind = rnd.randrange(6)
        if kind == 0:
            its.pop(rnd.choice(st))
        elif kind == 1:
            k = rnd.choice(st)
            its.insert(k, its[k])
        elif kind == 2 and len(st) > 1:
            ks = [k for k in st[:-1] if its[k + 1][0] == "s" and its[k + 1] != its[k]]
            if not ks:
                continue
            k = rnd.choice(ks)
            its[k], its[k + 1] = its[k + 1], its[k]
        elif kind == 3:
            c["bytes"].append(144)
        elif kind == 4 and bs:
            its[rnd.choice(bs)][1] += rnd.choice([1, -1])
        elif kind == 5:
            c["same"] = 0
        else:
            continue
        out.append(c)
    return out


def check():
    thorough = TIER == "thorough"
    rep = vlib.Report("C19", "model_checking")
    d = gen.forms()
    rnd = random.Random(SEED * 31 + 5)
    full = pool(d)
    by = {}
    for s, c in full:
        by.setdefault(s["mn"], []).append((s, c))
    stmts = [x for mn in sorted(by) for x in rnd.sample(by[mn], min(len(by[mn]), 40 if thorough else 5))]
    stmts += [rnd.choice(full) for _ in range(2000 if thorough else 500)]
    rnd.shuffle(stmts)
    n = 8 if thorough else 4
    blocks = make_blocks(stmts, rnd, [1, 1, 2, 2, 3, 4, 6, 9, 15, 30, 80] + ([300] if thorough else []))
    blocks.append((3, [("b", 0)] + [("s", s, k % 3, c) for k, (s, c) in enumerate(rnd.choice(full) for _ in range(250))] + [("b", 1)]))
    pairs = adjacent(rnd)
    blocks += pairs
    rep.add(adjacent_pairs=(len(COMMON) + 1) ** 2)
    reps = 40 if thorough else 12
    parts = [blocks[k::n] for k in range(n)]
    src = lambda f: open(os.path.join(vlib.VERIF, "driver", f)).read()

    def go(k):
        name = "blkp%d" % k
        exe, rej = vlib.build_driver(name, render_with(reps, SEED + k), parts[k], {"rt.rs": src("rt.rs"), "blk.rs": src("blk.rs")}, release=k % 2 == 1)
        trace = os.path.join(vlib.workdir(name), "trace.ndjson")
        try:
            vlib.run_driver(exe, [trace], env={"VERIF_SEED": str(SEED * 8 + k)})
        except vlib.Crash as e:
            return [], rej, str(e)
        return open(trace).read().splitlines(), rej, None
    with cf.ThreadPoolExecutor(n + 1) as ex:
        m = ex.submit(model, 4 if thorough else 2)
        res = list(ex.map(go, range(n)))
        gen_, dist = m.result()
    rep.add(model_states=dist, model_transitions=gen_)
    lines = []
    for k, (ls, rej, crash) in enumerate(res):
        lines += ls
        if crash:
            rep.violation("driver crash", {"error": crash})
        for b, msg in rej.items():
            rep.violation("block not accepted", {"block": [text(it, 0) for it in parts[k][b][1]], "why": msg})
    recs = [json.loads(x) for x in lines]
    ctl = controls(recs, rnd) if recs else []
    trace = os.path.join(vlib.workdir("blk"), "trace.ndjson")
    refused, nbad, states, trans = 0, 0, 0, 0
    size = 6000
    allrecs = recs + ctl
    bad = []
    for a in range(0, len(allrecs), size):
        with open(trace, "w") as f:
            for r in allrecs[a:a + size]:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        out, g, s = vlib.tlc("BlockTrace", env={"TRACE": trace}, heap="10g", timeout=800 if not thorough else 3600)
        bad += [(a + x, y) for x, y in vlib.bad_events(out)]
        states += s
        trans += g
    falsified = {x for x, _ in bad if x > len(recs)}
    bad = [x for x in bad if x[0] <= len(recs)]
    if not bad and not rep.viol:
        want = sum(len(r["its"]) + 1 for r in recs)
        if states < want:
            raise vlib.ToolError("TLC visited %d states, expected at least %d" % (states, want))
        if len(falsified) < 0.9 * len(ctl):
            raise vlib.ToolError("the specification accepted %d of %d falsified blocks" % (len(ctl) - len(falsified), len(ctl)))
    rep.add(traces_validated_against_impl=len(recs), states=states, transitions=trans, statements=sum(len(r["its"]) for r in recs),
            blocks=len(blocks), statement_forms=len(stmts), falsified_blocks_refused=len(falsified))
    for x, k in bad:
        r = recs[x - 1]
        it = r["its"][k - 1] if 0 < k <= len(r["its"]) else None
        why = "differs with another grouping of the statements" if k == 0 else "more code than statements" if it is None else "item %d reads differently" % k
        rep.violation("%s %s" % (why, json.dumps(it)), {"why": why, "item": it, "items": r["its"][max(0, k - 3):k + 2], "bytes": bytes(r["bytes"]).hex()})
    for r in recs[:: max(1, len(recs) // 6)]:
        rep.sample({"items": r["its"][:4], "bytes": bytes(r["bytes"][:40]).hex()})
    rep.assumptions = ["The decoder in spec/X86.tla describes x86-64."]
    return rep.finish()
