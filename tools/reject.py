"""Check C08: statements with no meaning are rejected, at compile time or by a panic."""
import itertools, random
import enc, gen, vlib
from gen import stmt
from vlib import TIER, SEED

KIND = {"r": [("rdx", "K::RF(2)"), ("R(9)", "K::RF(9)"), ("rax", "K::RF(0)")], "x": [("xmm3", "K::XF(3)"), ("xmm(11)", "K::XF(11)"), ("xmm0", "K::XF(0)")],
        "m": [("[rbx + 8]", "K::MF(3, -1, 1, 8)"), ("[R(9) + rcx * 4 - 300]", "K::MF(9, 1, 4, -300)"), ("[rax]", "K::MF(0, -1, 1, 0)")],
        "i": [("5", "K::IF(5)"), ("(300)", "K::IF(300)"), ("1", "K::IF(1)")]}


def norm(sh):
    return tuple({"k": "r", "N": "r", "Q": "i", "q": "i", "d": "i"}.get(k, k) for k in sh)


def wrong_shapes(d, thorough):
    """Every mnemonic with every operand-kind combination it does not have."""
    out = []
    for f in d["forms"]:
        legal = {norm(sh) for sh in f["sh"]}
        # the many spellings of conditions share their operands
        same = f["c"] in ("set", "cmov", "jcc") and f["mn"] not in ("setz", "cmovaeq", "cmovlew", "jz", "jnle")
        for n in range(0, 4):
            for ks in itertools.product("rxmi", repeat=n):
                if n == 3 and (f["c"] not in ("round", "alu", "rrm", "lea") or len(set(ks)) < 2) and not thorough:
                    continue
                if ks in legal or (f["c"] in ("jmp", "call") and ks == ("x",)):
                    continue
                # a count register other than cl is an operand value, not a shape
                for v in range(3 if thorough or not same and 0 < n < 3 else 1):
                    out.append(stmt(f["mn"], [KIND[k][v] for k in ks]))
    return out


def bad_tokens():
    B = lambda mn, text: {"mn": mn, "src": text, "ops": ["K::Bad"], "l": " l" in text or "(l" in text}
    out = []
    for mn in ("foo", "movqq", "jxx", "setxx", "cmovxxq", "cmovz", "cmovaeb", "addx", "xmm0", "rax", "setq", "cmovq", "cmov", "set",
               "add", "mov", "sh", "R", "qword", "jmpq", "j", "callq", "dw9"):
        for ops in (";", " rax;", " rax, rcx;", " l;"):
            out.append(B(mn, mn + ops))
    regs = ["r16", "r17", "foo", "rzx", "xmm", "xmm16", "xmm17", "xmm99", "xmm-1", "xmmx", "xmm256", "R", "R()", "r", "rip2"]
    for r in regs:
        for mn, t in (("addq", "addq %s, rax;"), ("addq", "addq rax, %s;"), ("movq", "movq %s, rcx;"), ("movq", "movq rcx, %s;"),
                      ("negq", "negq %s;"), ("testq", "testq rax, %s;"), ("movsxl", "movsxl %s, rax;"), ("lzcntq", "lzcntq rax, %s;"),
                      ("shlq", "shlq rax, %s;"), ("addsd", "addsd %s, xmm1;"), ("addsd", "addsd xmm1, %s;"), ("movsd", "movsd xmm1, %s;"),
                      ("cvtsi2sdq", "cvtsi2sdq %s, rax;"), ("movq", "movq rax, [%s];"), ("movq", "movq rax, [rcx + %s * 2];"),
                      ("pushq", "pushq %s;"), ("movl", "movl %s, 5;"), ("roundpd", "roundpd xmm1, %s, 1;")):
            out.append(B(mn, t % r))
    for m in ("[]", "[5]", "[rax + rcx * 3]", "[rax + rcx * 0]", "[rax + rcx * 16]", "[rax + rcx * 5]", "[rax + rcx * 6]", "[rax + rcx * 7]",
              "[rax + rcx * 9]", "[rax + rcx * 64]", "[rax + rcx * 256]", "[rax + rcx * 257]", "[rax + rcx * 260]",
              "[rax * 2]", "[rax + rcx * 2 * 2]", "[rax + 4 + 4]", "[rax + rcx + rdx]", "[rax + rcx - rdx]", "[rax - rcx]", "[rax - rcx * 2]",
              "[rax rcx]", "[rax + ]", "[rax - ]", "[rax + rcx * ]", "[rax + rcx * (4)]", "[xmm0]", "[rax + xmm1 * 2]", "[rax, rcx]",
              "[[rax]]", "[rax + 4294967296]", "[rax + 2147483648]", "[rax - 2147483649]", "[rax + 99999999999]", "[rax + 4.5]",
              "[rax * rcx]", "[rip + rcx]", "[rip + rcx * 4]", "[rip + rcx * 4 + 8]", "[rax + rip]", "[rax + rip * 2]",
              "[rax + rsp]", "[rax + rsp * 1]", "[rax + rsp * 2]", "[rax + rsp * 4 + 8]", "[rsp + rsp]", "[rip + rsp * 8]", "[rbp + rsp * 8 - 9]",
              "[rax + rcx 4]", "[4 + rax]", "[(4) + rax]", "[l]", "[l + rax]", "[l + 4]"):
        for mn, t in (("movq", "movq rax, %s;"), ("movl", "movl %s, 5;"), ("addb", "addb %s, rcx;"), ("negq", "negq %s;"), ("addsd", "addsd xmm1, %s;"),
                      ("call", "call %s;"), ("lea", "lea rdi, %s;"), ("movsd", "movsd %s, xmm2;"), ("popq", "popq %s;")):
            out.append(B(mn, t % m))
    for mn, t in (("addq", "addq rax rcx;"), ("addq", "addq rax, rcx"), ("addq", "addq rax, rcx, ;"), ("addq", "addq rax,, rcx;"), ("addq", "addq , rax;"),
                  ("addq", "addq rax, 5 + 5;"), ("addq", "addq rax, 5 rcx;"), ("movq", "movq rax, qword;"), ("movq", "movq qword 5, rax;"),
                  ("movq", "movq [rax], qword 5;"), ("movq", "movq rax, qword rcx;"), ("movl", "movl rax, qword 5;"), ("movq", "movq xmm1, 5;"),
                  ("movq", "movq xmm1, qword 5;"), ("movq", "movq rax, dword 5;"), ("dq", "dq rax;"), ("dq", "dq;"), ("dq", "dq \"a\";"), ("dq", "dq (5);"),
                  ("dq", "dq 99999999999999999999;"), ("dq", "dq 5, 6;"), ("call", "call 5;"), ("call", "call \"a\";"), ("jmp", "jmp 5;"), ("jmp", "jmp (5);"),
                  ("jz", "jz [rax];"), ("jz", "jz (5);"), ("jz", "jz 5;"), ("jz", "jz R(3);"), ("jmp", "jmp l l;"), ("ret", "ret 8;"), ("ret", "ret rax;"), ("leave", "leave rax;"),
                  ("syscall", "syscall 3;"), ("roundpd", "roundpd xmm1, xmm2;"), ("roundpd", "roundpd xmm1, xmm2, 300;"), ("roundpd", "roundpd xmm1, xmm2, (-1);"),
                  ("roundpd", "roundpd xmm1, xmm2, (256);"), ("roundpd", "roundpd xmm1, xmm2, rax;"), ("addq", "addq rax, 99999999999999999999999999999999999999999;"),
                  ("addq", "addq rax, 4.5;"), ("shlq", "shlq rax, rdx;"), ("shlq", "shlq rax, rax;"), ("sarl", "sarl [rax], rdi;"), ("rolq", "rolq rax, r9;"),
                  ("shrl", "shrl rcx, rsp;"), ("addq", "addq rip, rax;"), ("addq", "addq rax, rip;"), ("movq", "movq rip, 5;"), ("movq", "movq rax, rip;"),
                  ("pushq", "pushq rip;"), ("popq", "popq rip;"), ("call", "call rip;"), ("jmp", "jmp rip;"), ("xchgq", "xchgq rax, rip;"), ("xchgq", "xchgq rip, rax;"),
                  ("negq", "negq rip;"), ("setz", "setz rip;"), ("movsxl", "movsxl rip, rax;"), ("movb", "movb rip, 5;"), ("testq", "testq rip, 5;"),
                  ("lea", "lea rip, [rax];"), ("movl", "movl rip, 5;"), ("imul", "imul rip, rax;"), ("cmoveq", "cmoveq rip, rax;"), ("cvttsd2siq", "cvttsd2siq rip, xmm1;"),
                  ("cvtsi2sdq", "cvtsi2sdq xmm1, rip;"), ("movq", "movq xmm1, rip;"), ("movq", "movq rip, xmm1;"), ("idivl", "idivl rip;"), ("popcntq", "popcntq rip, rax;")):
        out.append(B(mn, t))
    return out


def near_misses(d, thorough):
    """Names one edit away from a mnemonic, with that mnemonic's operands, and names one edit away from a register."""
    rnd = random.Random(SEED * 31 + 8)
    B = lambda mn, ops: {"mn": mn, "src": "%s %s;" % (mn, ", ".join(ops)), "ops": ["K::Bad"], "l": "l" in ops}
    valid = {f["mn"] for f in d["forms"]}
    opnd = {"r": "rdx", "k": "rcx", "x": "xmm3", "m": "[rbx + 8]", "i": "5", "Q": "qword 5", "l": "l", "d": "(8)", "N": "rdx", "q": "5"}
    out, seen = [], set()

    def add(mn, shs):
        if mn not in valid and mn not in seen and mn.isidentifier() and not keyword(mn):
            seen.add(mn)
            for sh in shs:
                out.append(B(mn, [opnd[k] for k in sh]))
    for f in d["forms"]:
        mn, shs = f["mn"], [f["sh"][0], f["sh"][-1]] if len(f["sh"]) > 1 else f["sh"]
        near = [mn[:-1], mn[1:], mn + mn[-1], mn.upper(), mn.capitalize(), mn + "_", "_" + mn, mn[:-1] + mn[-1].upper()]
        near += [mn + c for c in "bwlqdszxe"] + [mn[:-1] + c for c in "bwlqdszx"] + [c + mn for c in "fvpcm"]
        k = rnd.randrange(len(mn) - 1)
        near += [mn[:k] + mn[k + 1] + mn[k] + mn[k + 2:], mn[:k] + mn[k + 1:], mn[:k] + rnd.choice("abcdeglmnopqrstvwxz") + mn[k + 1:]]
        if f["c"] in ("jcc", "set", "cmov") and not thorough:
            near = rnd.sample(near, 4)
        for n in near:
            add(n, shs[:1] if f["c"] in ("jcc", "set", "cmov") else shs)
    letters = "abceglnopstz"
    for n in (1, 2, 3):
        for c in itertools.product(letters, repeat=n):
            if n == 3 and not thorough and rnd.random() > .12:
                continue
            c = "".join(c)
            add("j" + c, [["l"]])
            add("set" + c, [["r"]])
            for w in "qlw":
                if n < 3 or rnd.random() < .3:
                    add("cmov" + c + w, [["r", "r"]])
    for r in ("eax", "ecx", "ax", "al", "ah", "bl", "dl", "ch", "dil", "sil", "spl", "r8d", "r9w", "r10b", "r1", "r7", "r20", "r88", "rxa", "rbi", "rsb", "rdx_", "_rax",
              "raxx", "ra", "rflags", "eip", "ymm0", "xmm_1", "xm0", "mm0", "rr8", "gs", "cs", "ds", "st0", "k1", "r0", "rc", "xmm20"):
        for t in ("addq %s, rax;", "movl rcx, %s;", "negq %s;", "pushq %s;", "addsd xmm1, %s;", "addsd %s, xmm1;", "movq rax, [%s];", "movb [%s + 8], 5;",
                  "movw rax, [rcx + %s * 2];", "lea rax, [rcx + %s];", "shlq rax, %s;", "movsd [%s], xmm1;", "imul rax, %s;", "cvtsi2sdq xmm1, %s;"):
            if t == "lea rax, [rcx + %s];":
                continue    # a name there may be a displacement label
            out.append({"mn": t.split()[0], "src": t % r, "ops": ["K::Bad"], "l": False})
    return out


def keyword(s):
    return s in ("as", "in", "if", "fn", "do", "let", "mut", "mod", "pub", "ref", "use", "box", "dyn", "for", "loop", "move", "self", "Self", "type", "impl", "enum", "else",
                 "true", "false", "match", "static", "struct", "super", "trait", "unsafe", "where", "while", "return", "crate", "const", "extern", "break", "continue",
                 "abstract", "become", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "async", "await", "gen")


LABEL_MEM = [("[R(p.b) + l]", "K::MB"), ("[R(p.b) - l]", "K::MB"), ("[rip - l]", "K::MB"), ("[R(p.b) + R(p.i) * 2 + l]", "K::MBI"),
             ("[R(p.b) + R(p.i) - l]", "K::MBI"), ("[rip + R(p.i) * 4 + l]", "K::MBI")]
D64 = [("[R(p.b) + (p.dq)]", None), ("[R(p.b) + R(p.i) * 4 + (p.dq)]", "K::MQ(4)")]


def check():
    rep = vlib.Report("C08", "model_checking")
    thorough = TIER == "thorough"
    d = gen.forms()
    static = wrong_shapes(d, thorough) + bad_tokens() + near_misses(d, thorough)
    dyn = []
    for f in d["forms"]:
        if f["c"] in ("cmov", "set") and f["cc"] not in (4, 13) and not thorough:
            continue
        for sh in f["sh"]:
            if sh in ([], ["q"]) or f["c"] == "dq":
                continue
            for s in gen.expand(f, sh, gen.MEM_NOLABEL if not thorough else gen.MEM_DEFAULT):
                if any(k.startswith(("K::R(", "K::X", "K::C", "K::M")) and k != "K::ML" for k in s["ops"]):
                    dyn.append(s)
            if "m" in sh:
                for t in gen.expand(f, sh, LABEL_MEM[:4] if not thorough else LABEL_MEM) + gen.expand(f, sh, [D64[1]]):
                    t["l"] = True
                    dyn.append(t)
    rep.add(static_statements=len(static), dynamic_statements=len(dyn))
    main = '''fn main() {
    quiet();
    let out = std::env::args().nth(1).unwrap();
    let mut d = Driver::new(env_u64("VERIF_SEED", 1));
    for i in 0..STS.len() { d.run_bad(STS, i, %d); }
    d.finish(STS, &out);
}''' % (2 if not thorough else 8)
    # statements the macro must refuse: whatever still compiles is assembled and judged
    smain = main.replace("run_bad(STS, i, %d)" % (2 if not thorough else 8), "one_plain(STS, i)")
    n = 3
    # the run-time refusals also without overflow checks and debug assertions
    parts = [static] + [dyn[k::n] for k in range(n)] * 2
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(7) as ex:
        res = list(ex.map(lambda k: enc.build_run("c08p%d" % k, parts[k], main if k else smain, release=k > n), range(2 * n + 1)))
    enc.finish_parts(rep, "c08", parts, res)
    rep.assumptions = ["A statement of the static list counts as rejected when the compiler reports an error inside it."]
    return rep.finish()
