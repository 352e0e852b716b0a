"""Generates the encoding drivers from the form tables exported by spec/Forms.tla."""
import json, os
import vlib

REGS = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % n for n in range(8, 16)]


def forms():
    path = os.path.join(vlib.workdir("forms", fresh=False), "forms.json")
    vlib.tlc("Forms", env={"FORMS_OUT": path}, workers=1)
    d = json.load(open(path))
    d["forms"].sort(key=lambda f: f["mn"])
    for f in d["forms"]:
        f["sh"].sort()
    d["disps"].sort()
    d["imms"] = sorted(int.from_bytes(bytes(v), "little", signed=True) for v in d["imms"])
    return d


MEM_DEFAULT = [("[R(p.b) + (p.d)]", "K::M")] + \
    [("[R(p.b) + R(p.i) * %d + (p.d)]" % s, "K::MI(%d)" % s) for s in (1, 2, 4, 8)] + \
    [("[rip + l]", "K::ML")]
MEM_NOLABEL = MEM_DEFAULT[:-1]


def stmt(mn, ops):
    """ops: list of (source text, K)."""
    return {"mn": mn, "src": "%s %s;" % (mn, ", ".join(o[0] for o in ops)) if ops else mn + ";",
            "ops": [o[1] for o in ops], "l": any(o[1] in ("K::ML", "K::L") for o in ops)}


def expand(form, shape, mem=MEM_DEFAULT):
    """All statements for one mnemonic and operand shape, with run-time operands."""
    alts = [[]]
    r = x = 0
    for k in shape:
        if k == "r":
            o = [("R(p.r[%d])" % r, "K::R(%d)" % r)]; r += 1
        elif k == "k":
            o = [("R(p.r[1])", "K::C(1)")]
        elif k == "x":
            o = [("xmm(p.x[%d])" % x, "K::X(%d)" % x)]; x += 1
        elif k == "m":
            o = mem
        elif k == "i":
            o = [("(p.v as u8)", "K::IB")] if form["c"] == "round" else [("(p.v)", "K::I")]
        elif k == "Q":
            o = [("qword (p.v)", "K::I")]
        elif k == "l":
            o = [("l", "K::L")]
        elif k == "d":
            o = [("(p.d as i64)", "K::D")]
        elif k == "N":
            o = [(n, "K::RF(%d)" % i) for i, n in enumerate(REGS)]
        elif k == "q":
            o = []
        alts = [a + [b] for a in alts for b in o]
    return [stmt(form["mn"], a) for a in alts]


def dq_stmts():
    import random, struct
    rnd, out = random.Random(vlib.SEED), []
    ints = [0, 1, 255, 256, 65535, 0x12345678, 0x7fffffff, 0x80000000, 0xffffffff, 0x123456789abcdef0 & (2**63 - 1), 2**63 - 1] \
        + [2**k for k in range(63)] + [rnd.getrandbits(rnd.randrange(1, 64)) for _ in range(40)]
    for k, v in enumerate(ints):
        text = ["%d", "0x%x", "0b{:b}", "{:_}", "0o{:o}", "%d_i64"][0 if k < 11 else k % 6]
        out.append(stmt("dq", [(text.format(v) if "{" in text else text % v, "K::QF(%s)" % list(struct.pack("<q", v)))]))
    floats = ["0.0", "1.0", "3.141592653589793", "1.5e300", "2.5e-310", "0.1", "1e5", "1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "1_000.25",
              "9007199254740993.0", "1f64", "300f64", "1_0f64", "2.5f64"]
    floats += [x for x in (repr(abs(struct.unpack("<d", rnd.randbytes(8))[0])) for _ in range(60)) if x not in ("nan", "inf")]
    for v in floats:
        out.append(stmt("dq", [(v, "K::QF(%s)" % list(struct.pack("<d", float(v.replace("f64", "").replace("_", "")))))]))
    return out


HEAD = '''#![allow(unused, non_snake_case)]
mod rt;
use rt::*;
use monoasm::*;
use monoasm_macro::monoasm;
'''


def render_with(main):
    def render(items):
        lines = {}
        out = HEAD.splitlines()
        for n, s in enumerate(items):
            lines[len(out) + 1] = n
            out.append("fn s%d(jit: &mut JitMemory, p: &P) { %s%smonoasm!(%s, %s); }" % (
                n, "let l = p.l; " if s["l"] else "", s.get("pre", ""), s.get("base", "&mut *jit"), s.get("full", s["src"])))
        out.append("static STS: &[St] = &[")
        for n, s in enumerate(items):
            out.append("St { mn: %s, src: %s, ops: &[%s], f: s%d, evs: %d, marked: %s }," % (
                json.dumps(s["mn"]), json.dumps(s.get("pre", "") + s.get("full", s["src"])), ", ".join(s["ops"]), n,
                s.get("evs", 0), "true" if s.get("marked") else "false"))
        out.append("];")
        out.append(main)
        return "\n".join(out) + "\n", lines
    return render


def lit(vs, ty):
    return "vec![%s]" % ", ".join("%d%s" % (v, ty) for v in vs)


def i64lit(v):
    return "i64::MIN" if v == -2**63 else "%di64" % v


def plan(disps, imms, regs=range(16), bases=range(17), idxs=[i for i in range(16) if i != 4],
         per_pair=300, random=60, rand_disp=True, rand_imm=0, count_regs=(1,), full=300, disps64=(0,), rand_regs=False):
    return '''Plan {
    regs: %s, bases: %s, idxs: %s,
    disps: vec![%s], disps64: vec![%s],
    imms: vec![%s], per_pair: %d, random: %d, rand_disp: %s, rand_imm: %d,
    count_regs: %s, full: %d, rand_regs: %s }''' % (
        lit(regs, "u64"), lit(bases, "u64"), lit(idxs, "u64"),
        ", ".join("i32::MIN" if v == -2**31 else "%di32" % v for v in disps),
        ", ".join(i64lit(v) for v in disps64),
        ", ".join(i64lit(v) for v in imms), per_pair, random,
        "true" if rand_disp else "false", rand_imm, lit(count_regs, "u64"), full,
        "true" if rand_regs else "false")


def main_simple(plan_src):
    return '''fn main() {
    quiet();
    let out = std::env::args().nth(1).unwrap();
    let mut d = Driver::new(env_u64("VERIF_SEED", 1));
    let plan = %s;
    for i in 0..STS.len() { d.run(STS, i, &plan); }
    d.finish(STS, &out);
}''' % plan_src
