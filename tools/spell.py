"""Check C07: spellings, hygiene and single evaluation of operand expressions."""
import random
import enc, gen, vlib
from gen import REGS, stmt
from vlib import TIER, SEED

R = random.Random(SEED)


def fancy(v, t):
    """v as an expression of type t, written with other kinds of Rust expressions"""
    q = "%d%s" % (v, t) if v >= 0 else "(%d%s)" % (v, t)
    lo, hi = v & 0xf, v & ~0xf
    return R.choice([
        "if id(1) == 1 { %s } else { 77 }" % q, "match id(2) { 2 => %s, _ => 78 }" % q, "(%s, 79).0" % q, "[%s, 80][0]" % q, "*&%s" % q,
        "std::convert::identity(%s)" % q, "{ const Q: %s = %d; Q }" % (t, v), "(|q: %s| q)(%s)" % (t, q), "%d | %d%s" % (lo, hi, t), "%d%s ^ %d" % (v ^ 5, t, 5),
        "%s.max(%s)" % (q, q), "Some(%s).unwrap()" % q, "%s as %s" % (q, t), "!%d%s" % (~v, t) if v < 0 else "%d%s << 1 >> 1" % (v, t) if v < 64 else "(%s)" % q,
        "unsafe { %s }" % q, "{ let jmp = %s; jmp }" % q, "{ let rax = %s; rax }" % q, "{ struct W { rsp: %s } W { rsp: %s }.rsp }" % (t, q)])


def sp_reg(n):
    k = R.randrange(8)
    if k > 5:
        return "R(%s)" % fancy(n, "u64")
    return [REGS[n], R.choice([REGS[n].upper(), REGS[n].capitalize()]), "R(%d)" % n, "R(%d + %d)" % (n - n // 2, n // 2), "R(id(%d) as u64)" % n, "R({ let q = %d; q })" % n][k]


def sp_xmm(n):
    k = R.randrange(7)
    if k > 4:
        return "xmm(%s)" % fancy(n, "u64")
    return ["xmm%d" % n, "xmm(%d)" % n, "xmm(%d + %d)" % (n - n // 2, n // 2), "xmm(id(%d) as u64)" % n, "xmm({ let q = %d; q })" % n][k]


TYPES = [("u8", 0, 8), ("i8", 1, 8), ("u16", 0, 16), ("i16", 1, 16), ("u32", 0, 32), ("i32", 1, 32), ("u64", 0, 63), ("i64", 1, 64),
         ("usize", 0, 63), ("isize", 1, 64), ("u128", 0, 63), ("i128", 1, 64)]


def typed(v):
    """v as an expression of a random integer type that holds it"""
    t = R.choice([n for n, sg, b in TYPES if (-2**(b - 1) < v < 2**(b - 1) if sg else 0 <= v < 2**b)] or ["i128"])
    return R.choice(["%d%s" % (v, t), "{ let q: %s = %d; q }" % (t, v), "%d as %s" % (v, t)])


def sp_imm(v, w=64):
    if R.randrange(4) == 0:
        if w == 64 and v < 0 and R.randrange(3) == 0:
            return "(%d%s)" % (v % 2**64, R.choice(["u64", "usize"]))
        return "(%s)" % typed(v)
    k = R.randrange(9)
    if k > 6 and v != -2**63:
        return "(%s)" % fancy(v, "i64")
    if k == 0 and v >= 0:
        return str(v)
    if k == 1 and v >= 0:
        return R.choice([hex(v), bin(v), oct(v), "{:_}".format(v), "0x{:_X}".format(v)] + (["%di64" % v, "%du64" % v] if v < 2**63 else [])
                        + (["%du8" % v] if v < 256 else []) + (["%d_i32" % v] if v < 2**31 else []))
    if k == 2:
        return "(%d)" % v if v != -2**63 else "(i64::MIN)"
    if k == 3 and abs(v) < 2**62:
        return "(%di64 + %d)" % (v - 7, 7)
    if k == 4 and abs(v) < 2**31:
        return "(id(%d))" % v
    if k == 5 and abs(v) < 2**30:
        return "(%d - id(%d))" % (v + 3, 3)
    return "({ let q: i64 = %s; q })" % (v if v != -2**63 else "i64::MIN")


def sp_disp(d):
    """text after the base (or index): sign and magnitude"""
    k = R.randrange(13)
    if k == 10:
        return " + (%s)" % fancy(d, "i64")
    if k > 10:
        return " - (%s)" % fancy(-d, "i64")
    if k == 8:
        return " + (%s)" % typed(d)
    if k == 9:
        return " - (%s)" % typed(-d)
    if d == 0 and k < 3:
        return ""
    if k == 0 and d >= 0:
        return " + %d" % d
    if k == 1 and d <= 0:
        return " - %d" % -d
    if k == 2 and d >= 0:
        return " + " + R.choice(["0x%x" % d, "%di32" % d, "0b{:b}".format(d), "{:_}".format(d)])
    if k == 3 and abs(d) < 2**30:
        return " + (id(%d) + %d)" % (d - 5, 5)
    if k == 4 and abs(d) < 2**30:
        return " - (%d - id(%d))" % (4 - d, 4)
    if k == 5 and d > -2**31:
        return " - (%di64)" % -d
    if k == 6:
        return " + (%di64 - 1i64)" % (d + 1)
    if k == 7 and d <= 0:
        return " - " + R.choice(["0x%x" % -d, "%di64" % -d, "0o{:o}".format(-d), "{:_}".format(-d)])
    return " + (%d)" % d if d != -2**31 else " + (i32::MIN)"


def sp_mem(b, i, s, d):
    t = "[" + ("rip" if b == 16 else sp_reg(b))
    if i >= 0:
        t += " + " + sp_reg(i)
        if s != 1 or R.randrange(2):
            t += " * %d" % s
    return t + sp_disp(d) + "]"


IMMS = {8: [0, 1, 5, 42, 127, -1, -128], 16: [0, 1, 42, 128, 1000, 32767, -1, -129, -32768],
        32: [0, 1, 42, 128, 70000, 2**31 - 1, -1, -129, -2**31], 64: [0, 1, 42, 128, 70000, 2**31 - 1, -1, -129, -2**31]}
DISPS = [0, 0, 1, 8, 127, 128, -1, -8, -128, -129, 4096, -70000, 2**31 - 1, -2**31, -2**31 + 1]


def fixed(form, sh):
    """One statement with constant operands in random spellings."""
    ops = []
    for k in sh:
        if k == "r":
            n = R.randrange(16); ops.append((sp_reg(n), "K::RF(%d)" % n))
        elif k == "k":
            ops.append((R.choice(["cl", "rcx", "R(1)"]), "K::RF(1)"))
        elif k == "x":
            n = R.randrange(16); ops.append((sp_xmm(n), "K::XF(%d)" % n))
        elif k == "m":
            b = R.randrange(17)
            i = -1 if b == 16 or R.randrange(2) else R.choice([x for x in range(16) if x != 4])
            s = R.choice([1, 2, 4, 8]) if i >= 0 else 1
            d = R.choice(DISPS)
            if R.randrange(4) == 0:
                ops.append((R.choice(["[rip + l]", "[R(16) + l]"]), "K::ML"))
            else:
                ops.append((sp_mem(b, i, s, d), "K::MF(%d, %d, %d, %d)" % (b, i, s, d)))
        elif k in ("i", "Q"):
            w = form["w"] if form["c"] not in ("shift", "round") else 8
            if form["c"] == "round":
                v = R.randrange(256)
                ops.append((R.choice(["%d" % v, "(%d)" % v, "(%d + %d)" % (v - v // 3, v // 3), "(id(%d) as u8)" % v]), "K::IF(%d)" % v))
                continue
            vs = list(IMMS[w])
            if form["c"] == "shift":
                vs = [0, 1, 2, 5, 31]
            if form["c"] == "mov" and sh[0] == "r" and w == 64:
                vs += [2**31, 2**32 + 5, 2**63 - 1, -2**63, 0x1122334455667788]
            v = R.choice(vs)
            ops.append((("qword " if k == "Q" else "") + sp_imm(v, w), "K::IF(%s)" % (v if v != -2**63 else "i64::MIN")))
        elif k == "l":
            ops.append(("l", "K::L"))
        elif k == "d":
            v = R.choice([0, 1, -5, 127, 128, -129, 70000, 2**31 - 1, -2**31])
            t = R.choice(["(%d)" % v, "(%di64)" % v, "(%di64 + %d)" % (v - 3, 3)] + (["(id(%d) + 2)" % (v - 2)] if abs(v) < 2**30 else []))
            ops.append((t, "K::DF(%d)" % v))
        elif k == "N":
            n = R.randrange(16); ops.append((REGS[n], "K::RF(%d)" % n))
    return stmt(form["mn"], ops)


def lit_imm(v, simple=False):
    if v == -2**63:
        return "(i64::MIN)"
    if simple and v >= 0:
        return "%d" % v
    return R.choice(["%d" % v, "0x%x" % v, "(%d)" % v]) if v >= 0 else "(%d)" % v


def plain(form, sh, imms=None, mem=None, turn=None):
    """One statement as the README writes them: register names and literals. In a third of
    them every register is the same one; `imms` are the immediates to draw from, corner
    values in the first turns."""
    same = R.randrange(16) if R.randrange(3) == 0 else None
    turn = R.randrange(1000) if turn is None else turn

    def corner(first, rest):
        return first[turn] if turn < len(first) else R.choice(rest)

    def reg(no=()):
        if same is not None and same not in no:
            return same
        return R.choice([n for n in range(16) if n not in no])
    ops = []
    for k in sh:
        if k in ("r", "N"):
            n = reg(); ops.append((REGS[n], "K::RF(%d)" % n))
        elif k == "k":
            ops.append(("cl", "K::RF(1)"))
        elif k == "x":
            n = reg(); ops.append(("xmm%d" % n, "K::XF(%d)" % n))
        elif k == "m":
            if R.randrange(12) == 0:
                ops.append(("[rip + l]", "K::ML")); continue
            b = 16 if R.randrange(16) == 0 else reg()
            i = -1 if b == 16 or R.randrange(2) else reg((4,))
            s = R.choice([1, 2, 4, 8]) if i >= 0 else 1
            d = corner([0, 0] + DISPS[2:], mem or DISPS)
            t = "[" + ("rip" if b == 16 else REGS[b]) + (" + %s" % REGS[i] if i >= 0 else "") + (" * %d" % s if s > 1 or i >= 0 and R.randrange(2) else "")
            if d > 0 or d == 0 and R.randrange(2):
                t += R.choice([" + %d", " + 0x%x", " + (%d)"]) % d
            elif d < 0:
                t += R.choice([" - %d", " - 0x%x", " - (%d)"]) % -d if d != -2**31 else " - 2147483648"
            ops.append((t + "]", "K::MF(%d, %d, %d, %d)" % (b, i, s, d)))
        elif k in ("i", "Q"):
            w = form["w"] if form["c"] not in ("shift", "round") else 8
            if form["c"] == "round":
                v = R.randrange(256)
                ops.append(("%d" % v, "K::IF(%d)" % v)); continue
            v = corner([0, 1, 2, 5, 7] if form["c"] == "shift" else IMMS[w], imms or IMMS[w] + ([1, 2, 31] if form["c"] == "shift" else []))
            ops.append((("qword " if k == "Q" else "") + lit_imm(v, turn < 8), "K::IF(%s)" % (v if v != -2**63 else "i64::MIN")))
        elif k == "l":
            ops.append(("l", "K::L"))
        elif k == "d":
            v = R.choice([0, 1, -5, 127, 128, -129, 70000, 2**31 - 1, -2**31])
            ops.append(("(%d)" % v, "K::DF(%d)" % v))
        else:
            return None
    return stmt(form["mn"], ops)


def statics(pairs, n, imms=None, mem=None):
    """n different plain statements of each (form, shape)."""
    out = {}
    for f, sh in pairs:
        for j in range(max(n, len(IMMS[64]) if set(sh) & set("iQ") else 0) if sh else 1):
            s = plain(f, sh, imms, mem, j)
            if s:
                out.setdefault((s["mn"], s["src"]), s)
    return list(out.values())


def named():
    """Every register name through every operand parser."""
    out = []
    for n, r in enumerate(REGS):
        o = (n + 5) % 16
        g, p = "K::RF(%d)" % n, "K::RF(%d)" % o
        q = REGS[o]
        for mn in ("movsxl", "movzxb", "lzcntq", "cmovel", "cmovgeq"):
            out.append(stmt(mn, [(r, g), (q, p)]))
        out.append(stmt("cvttsd2siq", [(r, g), ("xmm3", "K::XF(3)")]))
        for mn in ("negq", "idivl", "setne", "pushq", "popq", "call", "jmp"):
            out.append(stmt(mn, [(r, g)]))
        for mn in ("addq", "cmpb", "movl", "movw", "movb", "movq", "testq", "testb", "xchgq", "imul"):
            out.append(stmt(mn, [(r, g), (q, p)]))
            out.append(stmt(mn, [(q, p), (r, g)]))
        out.append(stmt("cvtsi2sdq", [("xmm1", "K::XF(1)"), (r, g)]))
        out.append(stmt("movq", [("xmm1", "K::XF(1)"), (r, g)]))
        out.append(stmt("movq", [(r, g), ("xmm9", "K::XF(9)")]))
        out.append(stmt("movq", [(r, g), ("qword 7", "K::IF(7)")]))
        for mn, pos in (("movq", 1), ("lea", 1), ("negq", 0), ("call", 0), ("cmpb", 0), ("addsd", 1)):
            ms = [("[%s]" % r, "K::MF(%d, -1, 1, 0)" % n), ("[%s - 12]" % r, "K::MF(%d, -1, 1, -12)" % n),
                  ("[%s + 0x1000]" % r, "K::MF(%d, -1, 1, 4096)" % n)]
            if n != 4:
                ms += [("[rbx + %s]" % r, "K::MF(3, %d, 1, 0)" % n), ("[rsp + %s * 8 - (3)]" % r, "K::MF(4, %d, 8, -3)" % n),
                       ("[%s + %s * 4 + 9]" % (r, r), "K::MF(%d, %d, 4, 9)" % (n, n))]
            for m in ms:
                if pos == 0:
                    out.append(stmt(mn, [m] + ([("rdx", "K::RF(2)")] if mn == "cmpb" else [])))
                else:
                    d = ("xmm2", "K::XF(2)") if mn == "addsd" else ("rdx", "K::RF(2)")
                    out.append(stmt(mn, [d, m]))
        x, xk = "xmm%d" % n, "K::XF(%d)" % n
        y, yk = "xmm%d" % o, "K::XF(%d)" % o
        for mn in ("addsd", "movsd", "movq", "ucomisd", "sqrtpd", "andpd"):
            out.append(stmt(mn, [(x, xk), (y, yk)]))
            out.append(stmt(mn, [(y, yk), (x, xk)]))
        out.append(stmt("roundpd", [(x, xk), (y, yk), ("3", "K::IF(3)")]))
        out.append(stmt("movsd", [("[rax]", "K::MF(0, -1, 1, 0)"), (x, xk)]))
        out.append(stmt("cvtsi2sdq", [(x, xk), ("rax", "K::RF(0)")]))
        out.append(stmt("cvttsd2siq", [("rax", "K::RF(0)"), (x, xk)]))
    return out


def counted(form, sh, mi):
    """Every operand an expression that counts its evaluations; run-time values."""
    e = [0]

    def ev(x):
        e[0] += 1
        return "ev(%d, %s)" % (e[0] - 1, x)
    alts, r, x = [], 0, 0
    for k in sh:
        if k == "r":
            alts.append(("R(%s)" % ev("p.r[%d]" % r), "K::R(%d)" % r)); r += 1
        elif k == "k":
            alts.append(("R(%s)" % ev("p.r[1]"), "K::C(1)"))
        elif k == "x":
            alts.append(("xmm(%s)" % ev("p.x[%d]" % x), "K::X(%d)" % x)); x += 1
        elif k == "m":
            if mi:
                alts.append(("[R(%s) + R(%s) * 4 - (%s)]" % (ev("p.b"), ev("p.i"), ev("p.d")), "K::MIn(4)"))
            else:
                alts.append(("[R(%s) + (%s)]" % (ev("p.b"), ev("p.d")), "K::M"))
        elif k == "i":
            alts.append(("(%s)" % ev("p.v as u8"), "K::IB") if form["c"] == "round" else ("(%s)" % ev("p.v"), "K::I"))
        elif k == "Q":
            alts.append(("qword (%s)" % ev("p.v"), "K::I"))
        elif k == "d":
            alts.append(("(%s)" % ev("p.d as i64"), "K::D"))
        else:
            return None
    if not e[0] or e[0] > 4:
        return None
    s = stmt(form["mn"], alts)
    if e[0] < 4:
        s["base"] = "{ %s; &mut *jit }" % ev("()")
    s["evs"] = e[0]
    return s


NAMES = ["imm", "op", "op1", "op2", "op3", "rm_op", "rm", "reg", "r", "r1", "r2", "base", "index", "scale", "disp",
         "label", "dest", "i", "x", "n", "val", "v", "c", "cond", "size", "digit", "page", "pos", "src", "dst", "ind",
         "expr", "tmp", "width", "mode", "d", "offset", "addr", "rex", "modrm", "sib", "idx", "lhs", "rhs", "opcode"]
# statements whose expansion may introduce names, placed before the statement of interest
BEFORE = ["addq rax, 77;", "cmpl [rax + 4], 300;", "orw rcx, 3;", "xorb rdx, 9;", "movq rax, 77;", "movq [rax], 77;",
          "movq rax, qword 77;", "movl rax, 77;", "movl [rcx], 77;", "movw rax, 77;", "movw [rax], 77;", "movb rax, 77;",
          "movb [rax], 77;", "shlq rax, 7;", "sarl [rax], 7;", "testq rax, 77;", "testq [rax], 77;", "testb rcx, 77;",
          "testb [rax], 77;", "movq xmm7, rdx;", "movq rdx, xmm7;", "xchgq rcx, rdx;", "call (77);", "pushq rax;",
          "roundpd xmm1, xmm2, 77;", "movsd xmm1, [rax];", "cmovel rax, rcx;", "setz rax;", "lea rax, [rcx + rdx * 4 + 77];",
          "dq 77;", "movzxb rax, [rax];", "cvtsi2sdq xmm1, rax;", "popcntq rax, rcx;", "rolq rax, cl;", "imul rax, [rdx];"]
# uses of a variable NM (= 3) as register number, displacement and immediate
USES = [("movq", "R(NM), (NM)", ["K::RF(3)", "K::IF(3)"]),
        ("addq", "[R(NM) + R(NM) * 2 + (NM)], 9", ["K::MF(3, 3, 2, 3)", "K::IF(9)"]),
        ("addq", "R(NM), 9", ["K::RF(3)", "K::IF(9)"]),
        ("cmpl", "[rax + (NM)], 1000", ["K::MF(0, -1, 1, 3)", "K::IF(1000)"]),
        ("orw", "[rax - (NM)], 300", ["K::MF(0, -1, 1, -3)", "K::IF(300)"]),
        ("xorb", "R(NM), 9", ["K::RF(3)", "K::IF(9)"]),
        ("movq", "R(NM), 9", ["K::RF(3)", "K::IF(9)"]),
        ("movq", "R(NM), qword 9", ["K::RF(3)", "K::IF(9)"]),
        ("movq", "[R(NM)], 9", ["K::MF(3, -1, 1, 0)", "K::IF(9)"]),
        ("movl", "R(NM), 9", ["K::RF(3)", "K::IF(9)"]),
        ("movl", "[R(NM) + (NM)], 9", ["K::MF(3, -1, 1, 3)", "K::IF(9)"]),
        ("movw", "R(NM), 9", ["K::RF(3)", "K::IF(9)"]),
        ("movw", "[R(NM) + (NM)], 9", ["K::MF(3, -1, 1, 3)", "K::IF(9)"]),
        ("movb", "R(NM), 9", ["K::RF(3)", "K::IF(9)"]),
        ("movb", "[R(NM) + (NM)], 9", ["K::MF(3, -1, 1, 3)", "K::IF(9)"]),
        ("shlq", "R(NM), 9", ["K::RF(3)", "K::IF(9)"]),
        ("sarl", "[R(NM) + (NM)], 9", ["K::MF(3, -1, 1, 3)", "K::IF(9)"]),
        ("testq", "R(NM), 9", ["K::RF(3)", "K::IF(9)"]),
        ("testq", "[R(NM) + (NM)], 9", ["K::MF(3, -1, 1, 3)", "K::IF(9)"]),
        ("testb", "R(NM), 9", ["K::RF(3)", "K::IF(9)"]),
        ("testb", "[R(NM) + (NM)], 9", ["K::MF(3, -1, 1, 3)", "K::IF(9)"]),
        ("movq", "xmm2, R(NM)", ["K::XF(2)", "K::RF(3)"]),
        ("movq", "xmm(NM), rdx", ["K::XF(3)", "K::RF(2)"]),
        ("movq", "R(NM), xmm2", ["K::RF(3)", "K::XF(2)"]),
        ("movq", "rdx, xmm(NM)", ["K::RF(2)", "K::XF(3)"]),
        ("xchgq", "R(NM), rdx", ["K::RF(3)", "K::RF(2)"]),
        ("call", "(NM)", ["K::DF(3)"]),
        ("lea", "R(NM), [R(NM) + (NM)]", ["K::RF(3)", "K::MF(3, -1, 1, 3)"]),
        ("addsd", "xmm(NM), [R(NM)]", ["K::XF(3)", "K::MF(3, -1, 1, 0)"]),
        ("roundpd", "xmm(NM), [R(NM) + (NM)], (NM as u8)", ["K::XF(3)", "K::MF(3, -1, 1, 3)", "K::IF(3)"]),
        ("cmovel", "R(NM), [R(NM)]", ["K::RF(3)", "K::MF(3, -1, 1, 0)"])]


def hygiene():
    out = []

    def one(name, before, use):
        mn, ops, ks = use
        src = "%s %s;" % (mn, ops.replace("NM", name))
        out.append({"mn": mn, "src": src, "ops": ks, "l": False, "marked": True,
                    "pre": "let mark = p.mark; let %s: u64 = 3; " % name,
                    "full": "%s mark: %s" % (before, src)})
    for u in USES:
        for nm in NAMES:
            one(nm, R.choice(BEFORE), u)
    for b in BEFORE:
        for nm in NAMES[:12]:
            one(nm, b, R.choice(USES))
        for u in USES:
            one("imm", b, u)
    return out


def check():
    rep = vlib.Report("C07", "model_checking")
    d = gen.forms()
    thorough = TIER == "thorough"
    items = named()
    rep.add(named_register_statements=len(items))
    n = len(items)
    for f in d["forms"]:
        for sh in f["sh"]:
            if f["c"] == "dq":
                continue
            # conditions are spelled in the mnemonic and share their operands
            n0 = 2 if f["c"] in ("cmov", "set", "jcc") else 12 if "i" in sh or "Q" in sh or "d" in sh else 4
            for _ in range(n0 * 8 if thorough else n0):
                items.append(fixed(f, sh))
    rep.add(random_spellings=len(items) - n)
    items += gen.dq_stmts()
    n = len(items)
    items += hygiene()
    rep.add(hygiene_statements=len(items) - n)
    n = len(items)
    for f in d["forms"]:
        if f["c"] == "cmov" and f["cc"] not in (4, 12) and not thorough:
            continue
        if f["c"] == "set" and f["cc"] != 5 and not thorough:
            continue
        for sh in f["sh"]:
            for mi in ((False, True) if "m" in sh else (False,)):
                s = counted(f, sh, mi)
                if s:
                    items.append(s)
    rep.add(evaluation_counted_statements=len(items) - n)
    main = gen.main_simple(gen.plan([0, 1, -1, 127, 128, -129], [0, 1, -1, 100, 300, -129, 70000, 2**31, -2**40], per_pair=27, random=10, full=36))
    import concurrent.futures as cf
    parts = [items[k::4] for k in range(4)]

    def part(k):
        return enc.build_run("c07p%d" % k, parts[k], main, "fn id(x: i32) -> i32 { x }\n")
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(part, range(4)))
    enc.finish_parts(rep, "c07", parts, res)
    rep.assumptions = ["Operand expressions are sampled: every parser x every register name, random spellings of every form."]
    return rep.finish()
