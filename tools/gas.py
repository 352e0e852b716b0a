"""Cross-check of the oracle: the same statements, assembled by GNU as, must be accepted by the specification (thorough tier)."""
import os, re, shutil, subprocess
import gen, vlib

CC = ["o", "no", "b", "ae", "e", "ne", "be", "a", "s", "ns", "p", "np", "l", "ge", "le", "g"]
R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % k for k in range(8, 16)]
R32 = ["eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"] + ["r%dd" % k for k in range(8, 16)]
R16 = ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"] + ["r%dw" % k for k in range(8, 16)]
R8 = ["al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"] + ["r%db" % k for k in range(8, 16)]
REG = {64: R64, 32: R32, 16: R16, 8: R8}
PTR = {64: "qword ptr ", 32: "dword ptr ", 16: "word ptr ", 8: "byte ptr ", 128: "xmmword ptr ", 0: ""}
XMM128 = ("xorps", "andpd", "xorpd", "sqrtpd")


class Skip(Exception):
    pass


def value(o):
    return o[1] if o[0] in ("n", "d") else int.from_bytes(bytes(o[1]), "little", signed=True)


def opnd(o, w, k):
    """Operand text at width w; k numbers the statement (label operands need it)."""
    t = o[0]
    if t == "r":
        return REG[w][o[1]]
    if t == "x":
        return "xmm%d" % o[1]
    if t in ("n", "i"):
        return str(value(o))
    if t == "m":
        b, i, s, d = o[1:]
        if b > 16 or b == 16 and i >= 0 or i == 4 or i > 15 or s not in (1, 2, 4, 8):
            raise Skip
        a = "rip" if b == 16 else R64[b]
        if i >= 0:
            a += " + %s * %d" % (R64[i], s)
        return "%s[%s %s %d]" % (PTR[w], a, "-" if d < 0 else "+", abs(d))
    if t == "ml":
        return "%s[rip + t%d]" % (PTR[w], k)
    if t == "l":
        return "t%d" % k
    raise Skip


def text(f, ops, k):
    c, o, w = f["c"], f["o"], f["w"]
    j = lambda *ws: ", ".join(opnd(x, y, k) for x, y in zip(ops, ws))
    kinds = [x[0] for x in ops]
    if c == "alu" or c == "test" or c == "xchg":
        return "%s %s" % (o, j(w, w))
    if c == "mov":
        if "x" in kinds:
            return "movq " + j(64, 64)
        if w == 64 and kinds[0] == "r" and kinds[1] in ("n", "i"):
            return "movabs " + j(64, 64)
        return "mov " + j(w, w)
    if c == "movx":
        s = int(o[5:])
        return "%s %s" % ("movsxd" if s == 32 else o[:5], j(64, s))
    if c == "un":
        return "%s %s" % (o, j(w))
    if c == "rrm":
        return "%s %s" % (o, j(w, w))
    if c == "lea":
        return "lea " + j(64, 0)
    if c == "shift":
        return "%s %s" % (o, j(w, 8))
    if c == "set":
        return "set%s %s" % (CC[f["cc"]], j(8))
    if c == "cmov":
        return "cmov%s %s" % (CC[f["cc"]], j(w, w))
    if c == "jcc":
        return "j%s %s" % (CC[f["cc"]], j(64))
    if c == "sse":
        return "%s %s" % (o, j(128, 128 if o in XMM128 else 64))
    if c == "movsd":
        return "movsd " + j(64, 64)
    if c == "round":
        return "roundpd " + j(128, 128, 8)
    if c == "cvtix":
        return "cvtsi2sd " + j(128, 64)
    if c == "cvtxi":
        return "cvttsd2si " + j(64, 64)
    if c in ("call", "jmp"):
        return "%s %s" % (o, j(64))
    if c == "bare":
        return {("cdq", 64): "cqo", ("cdq", 32): "cdq"}.get((o, w), o)
    raise Skip


def groups(recorded, per):
    """Events [operands, bytes by GNU as] for a sample of the recorded (accepted) statements, grouped like a trace."""
    if not shutil.which("as") or not shutil.which("objcopy"):
        return []
    forms = {f["mn"]: f for f in gen.forms()["forms"]}
    want = []
    for g in recorded:
        if g["mn"] not in forms:
            continue
        cs = [c for c in g["cs"] if c[1] != [-1]]
        for c in cs[:: max(1, len(cs) // per)]:
            try:
                want.append((g["mn"], c[0], text(forms[g["mn"]], c[0], len(want))))
            except (Skip, IndexError):
                pass
    work = vlib.workdir("gas")
    src, obj, raw = (os.path.join(work, "s." + x) for x in ("s", "o", "bin"))
    skip = set()
    for _ in range(4):
        with open(src, "w") as f:
            f.write(".intel_syntax noprefix\n.text\n")
            for k, (mn, ops, t) in enumerate(want):
                if k in skip:
                    f.write("\n")
                    continue
                lab = [o for o in ops if o[0] in ("ml", "l")]
                f.write("s%d: %s%s; e%d:\n" % (k, ".set t%d, s%d + %d; " % (k, k, lab[0][1]) if lab else "", t, k))
        p = subprocess.run(["as", "--64", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
        # operands GNU as does not take (e.g. an immediate the statement should not have accepted)
        bad = {int(m.group(1)) - 3 for m in re.finditer(r":(\d+): Error", p.stdout)}
        if not bad:
            raise vlib.ToolError("as: " + p.stdout[-2000:])
        skip |= bad
    else:
        raise vlib.ToolError("as: " + p.stdout[-2000:])
    subprocess.run(["objcopy", "-O", "binary", "-j", ".text", obj, raw], check=True)
    data = open(raw, "rb").read()
    sym = {}
    for line in subprocess.check_output(["nm", obj], text=True).splitlines():
        w = line.split()
        if len(w) == 3:
            sym[w[2]] = int(w[0], 16)
    out = {}
    for k, (mn, ops, t) in enumerate(want):
        if k not in skip:
            out.setdefault(mn, {"mn": mn, "src": "as", "cs": []})["cs"].append([ops, list(data[sym["s%d" % k]:sym["e%d" % k]])])
    return list(out.values())
