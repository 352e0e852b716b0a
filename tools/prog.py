"""Check C18: whole programs assembled, run on the processor, and judged by spec/Prog.tla."""
import concurrent.futures as cf
import json, os, random, re, struct
import gen, vlib
from vlib import TIER, SEED

WIN, SP = 384, 376
RESERVED = (3, 4, 12, 13)          # rbx, rsp, r12, r13: window bases and stack
BASES = {3: 0, 12: 64, 13: 128}    # where they point
COUNTERS = (15, 14)
FREE = [0, 1, 2, 6, 7, 8, 9, 10, 11]
DATA = 184                         # bytes of the window used by memory operands
MEM = [m for m in gen.MEM_DEFAULT if m[1] in ("K::M", "K::MI(2)", "K::MI(8)", "K::ML")]
SET_CMOV = ("o", "no", "b", "ae", "z", "ne", "be", "a", "s", "ns", "p", "np", "lt", "ge", "le", "gt")
XM = [m for m in gen.MEM_DEFAULT if m[1] in ("K::M", "K::MI(8)", "K::ML")]


def select():
    d = gen.forms()
    items = []
    for f in d["forms"]:
        c, o, mn = f["c"], f["o"], f["mn"]
        if c == "dq" or o in ("int3", "syscall") or mn.startswith("sal"):
            continue
        if c == "set" and mn[3:] not in SET_CMOV:
            continue
        if c == "cmov" and (mn[4:-1] not in SET_CMOV or f["w"] == 16):
            continue
        for sh in f["sh"]:
            if sh == ["d"]:
                continue
            mem = MEM if c in ("alu", "mov", "jmp", "call", "un", "lea", "test", "movx") else XM
            for s in gen.expand(f, sh, mem):
                s["f"] = f
                items.append(s)
    return items


KSLOT = re.compile(r"^K::([A-Z]+)(?:\((\d+)\))?$")


class Table:
    """Finds the driver statement for an instruction of a program."""

    def __init__(self, items):
        self.by = {}
        for n, s in enumerate(items):
            key = []
            for k in s["ops"]:
                m = KSLOT.match(k)
                h = m.group(1)
                key.append("R" if h == "R" else "C" if h == "C" else "X" if h == "X" else k[3:])
            q = "Q" if "qword" in s["src"] else ""
            self.by[(s["mn"], tuple(key), q)] = n
        self.mns = {}
        for s in items:
            self.mns.setdefault(s["f"]["c"], set()).add(s["mn"])
        self.mns = {c: sorted(v) for c, v in self.mns.items()}
        self.items = items

    def line(self, mn, ops):
        key, r, x = [], [], []
        b = i = d = v = lab = 0
        for k, o in enumerate(ops):
            t = o[0]
            if t == "r" and mn in ("jmp", "call"):
                key.append("RF(%d)" % o[1])
            elif t == "r":
                key.append("R")
                r.append(o[1])
            elif t == "k":
                key.append("C")
                r = r + [0] * (1 - len(r)) + [1]
            elif t == "x":
                key.append("X")
                x.append(o[1])
            elif t == "m":
                b, i, d = o[1], max(o[2], 0), o[4]
                key.append("M" if o[2] < 0 else "MI(%d)" % o[3])
            elif t == "s":
                key.append("ML")
                lab = 1000 + o[1]
            elif t == "n":
                key.append("IB" if mn == "roundpd" else "I")
                v = o[1]
            elif t == "L":
                key.append("ML" if mn == "lea" else "L")
                lab = o[1]
        n = self.by.get((mn, tuple(key), ""))
        if n is None:
            raise KeyError((mn, key))
        r = (r + [0, 0])[:2]
        x = (x + [0, 0])[:2]
        return "st %d %d %d %d %d %d %d %d %d %d" % (n, r[0], r[1], x[0], x[1], b, i, d, v, lab)


SUF = {64: "q", 32: "l", 16: "w", 8: "b"}


class Gen:
    def __init__(self, tab, rng):
        self.t, self.g = tab, rng
        self.labels = 0
        self.items = []          # (kind, value, offset in the model's memory, size)
        self.mem = WIN
        self.segs = []
        self.cur = None
        self.funcs = []          # (label, stack slots needed)
        self.patches = []
        self.budget = 60

    # -- pieces ------------------------------------------------------------
    def label(self):
        self.labels += 1
        return self.labels - 1

    def item(self, kind, v):
        n = 4 if kind.endswith("32") else 8
        self.items.append((kind, v, self.mem, n))
        self.mem += n
        return len(self.items) - 1

    def ins(self, mn, *ops):
        self.t.line(mn, ops)
        self.cur.append(("ins", mn, ops))

    def bind(self, l):
        self.cur.append(("bind", l))

    def value(self):
        g = self.g
        k = g.randrange(6)
        if k == 0:
            return g.choice([0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, -32768, 65535, 2**31 - 1, -2**31])
        if k == 1:
            return g.randrange(-100, 100)
        return g.randrange(-2**31, 2**31)

    def imm(self, w):
        v = self.value()
        if w == 8:
            return ((v + 128) & 255) - 128
        if w == 16:
            return ((v + 32768) & 65535) - 32768
        return v

    def reg(self):
        return self.g.choice(FREE)

    def src_reg(self):
        return self.g.choice(FREE + [3, 5, 12, 13, 14, 15] * 1)

    def memop(self, n, wide=True):
        """An operand of n bytes in the window; may set up an index register first."""
        g = self.g
        off = g.randrange(0, DATA - n)
        if n == 16:
            off &= ~15
        if self.items and g.random() < 0.25:
            its = [k for k, it in enumerate(self.items) if it[3] >= n and it[0] not in ("abs", "cf64")]
            if its and n <= 8:
                return ("s", g.choice(its))
        b = g.choice(list(BASES))
        if g.random() < 0.5:
            return ("m", b, -1, 1, off - BASES[b])
        i = g.choice([r for r in FREE])
        s = g.choice([2, 8] if wide else [8])
        k = g.randrange(-8, 9)
        self.ins("movq", ("r", i), ("n", k))
        return ("m", b, i, s, off - BASES[b] - k * s)

    def plain(self):
        g = self.g
        c = g.choice(["alu"] * 8 + ["mov"] * 4 + ["movx", "xchg", "neg", "imul", "count", "shift", "shift", "set", "cmov", "cdq",
                                                 "test", "lea", "fpmov"])
        if c in ("alu", "mov", "test"):
            mn = g.choice(self.t.mns[c])
            w = [f for f in (self.t.items) if f["mn"] == mn][0]["f"]["w"] if mn not in WID else WID[mn]
            WID[mn] = w
            k = g.randrange(5)
            if k == 0:
                self.ins(mn, ("r", self.reg()), ("r", self.src_reg()))
            elif k == 1:
                self.ins(mn, ("r", self.reg()), ("n", self.imm(w)))
            elif k == 2 and c != "test":
                m = self.memop(w // 8)
                self.ins(mn, ("r", self.reg()), m)
            elif k == 3:
                m = self.memop(w // 8)
                self.ins(mn, m, ("n", self.imm(w)))
            else:
                m = self.memop(w // 8)
                self.ins(mn, m, ("r", self.src_reg()))
        elif c == "movx":
            mn = g.choice(self.t.mns["movx"])
            n = {"l": 4, "w": 2, "b": 1}[mn[-1]]
            o = ("r", self.src_reg()) if g.random() < 0.5 else self.memop(n)
            self.ins(mn, ("r", self.reg()), o)
        elif c == "xchg":
            if g.random() < 0.5:
                self.ins("xchgq", ("r", self.reg()), ("r", self.reg()))
            else:
                m = self.memop(8, False)
                self.ins("xchgq", m, ("r", self.reg()))
        elif c == "neg":
            self.ins("negq", ("r", self.reg()))
        elif c == "imul":
            o = ("r", self.src_reg()) if g.random() < 0.5 else self.memop(8, False)
            self.ins("imul", ("r", self.reg()), o)
            self.redefine()
        elif c == "count":
            w = g.choice("ql")
            o = ("r", self.src_reg()) if g.random() < 0.5 else self.memop(8 if w == "q" else 4, False)
            self.ins(g.choice(["lzcnt", "tzcnt", "popcnt"]) + w, ("r", self.reg()), o)
            self.redefine()
        elif c == "shift":
            mn = g.choice(self.t.mns["shift"])
            w = 64 if mn[-1] == "q" else 32
            o = ("r", self.reg()) if g.random() < 0.6 else self.memop(w // 8, False)
            self.ins(mn, o, ("n", g.randrange(0, w)) if g.random() < 0.6 else ("k",))
            self.redefine()
        elif c == "set":
            self.ins("set" + g.choice(SET_CMOV), ("r", self.reg()) if g.random() < 0.7 else self.memop(1, False))
        elif c == "cmov":
            w = g.choice("ql")
            o = ("r", self.src_reg()) if g.random() < 0.5 else self.memop(8 if w == "q" else 4, False)
            self.ins("cmov" + g.choice(SET_CMOV) + w, ("r", self.reg()), o)
        elif c == "cdq":
            self.ins(g.choice(["cqo", "cdq"]))
        elif c == "lea":
            b = self.src_reg()
            if g.random() < 0.5:
                self.ins("lea", ("r", self.reg()), ("m", b, -1, 1, self.value()))
            else:
                self.ins("lea", ("r", self.reg()), ("m", b, self.src_reg(), g.choice([2, 8]), self.value()))
        elif c == "fpmov":
            x, y = g.randrange(16), g.randrange(16)
            k = g.randrange(6)
            if k == 0:
                self.ins("movq", ("x", x), ("r", self.src_reg()))
            elif k == 1:
                self.ins("movq", ("r", self.reg()), ("x", x))
            elif k == 2:
                m = self.memop(8, False)
                self.ins(g.choice(["movsd"]), m, ("x", x))
            elif k == 3:
                m = self.memop(8, False)
                self.ins("movsd", ("x", x), m)
            elif k == 4:
                self.ins(g.choice(["movsd", "movq"]), ("x", x), ("x", y))
            else:
                self.ins(g.choice(["xorps", "xorpd", "andpd"]), ("x", x), ("x", y))

    def redefine(self):
        self.ins("cmpq", ("r", self.src_reg()), ("n", self.value()))

    def cond(self):
        """Something that sets the flags, and a condition over them."""
        g = self.g
        k = g.randrange(4)
        if k == 0:
            self.ins("cmpq", ("r", self.src_reg()), ("n", self.value()))
        elif k == 1:
            self.ins("cmpl", ("r", self.src_reg()), ("r", self.src_reg()))
        elif k == 2:
            self.ins("testq", ("r", self.src_reg()), ("r", self.src_reg()))
        else:
            m = self.memop(2, True)
            self.ins("cmpw", m, ("n", self.imm(16)))
        return g.choice(self.t.mns["jcc"])

    def goto(self, l):
        """An unconditional jump in one of its many guises."""
        g = self.g
        k = g.random()
        if k < 0.6:
            self.ins("jmp", ("L", l))
        elif k < 0.75:
            r = self.reg()
            self.ins("lea", ("r", r), ("L", l))
            self.ins("jmp", ("r", r))
        elif k < 0.9:
            self.ins("jmp", ("s", self.item("abs", l)))
        else:
            r = self.reg()
            self.ins("lea", ("r", r), ("L", l))
            m = self.memop_not(r)
            self.ins("movq", m, ("r", r))
            self.ins("jmp", m)

    def memop_not(self, r):
        b = self.g.choice(list(BASES))
        return ("m", b, -1, 1, self.g.randrange(0, DATA - 8) - BASES[b])

    def call(self, l):
        g = self.g
        k = g.random()
        if k < 0.5:
            self.ins("call", ("L", l))
        elif k < 0.7:
            r = self.reg()
            self.ins("lea", ("r", r), ("L", l))
            self.ins("call", ("r", r))
        elif k < 0.85:
            self.ins("call", ("s", self.item("abs", l)))
        else:
            r = self.reg()
            self.ins("lea", ("r", r), ("L", l))
            m = self.memop_not(r)
            self.ins("movq", m, ("r", r))
            self.ins("call", m)

    def seg(self, l):
        s = []
        self.segs.append(s)
        self.cur = s
        self.bind(l)

    def fp(self, depth, slots):
        g = self.g
        x, y = g.sample(range(16), 2)
        a, b = self.reg(), self.reg()
        n1, n2 = g.randrange(-200, 200), g.randrange(-200, 200)
        op = g.choice(["addsd", "subsd", "mulsd", "divsd", "minsd", "maxsd", "sqrtsd", "ucomisd", "roundpd", "const", "sqrtpd"])
        if op in ("roundpd", "sqrtpd"):
            self.ins("xorps", ("x", x), ("x", x))
        if op == "divsd":
            n2 = g.choice([1, 2, 4, 8, 16, -2, -8])
        if op in ("sqrtsd", "sqrtpd"):
            n1 = g.randrange(0, 20) ** 2
        if op == "const":
            it = self.item("cf64", struct.unpack("<q", struct.pack("<d", g.randrange(-3000, 3000) / 16))[0])
            self.ins("movsd", ("x", x), ("s", it))
            if g.random() < 0.5:
                self.ins("addsd", ("x", x), ("s", it))
            else:
                self.ins("ucomisd", ("x", x), ("s", it))
            self.ins("cvttsd2siq", ("r", a), ("x", x))
            return 0
        self.ins("movq", ("r", a), ("n", n1))
        self.ins("cvtsi2sdq", ("x", x), ("r", a))
        if op == "roundpd":
            self.ins("movq", ("r", b), ("n", 16))
            self.ins("cvtsi2sdq", ("x", y), ("r", b))
            self.ins("divsd", ("x", x), ("x", y))
            self.ins("roundpd", ("x", y), ("x", x), ("n", g.randrange(0, 12)))
            self.ins("cvttsd2siq", ("r", a), ("x", y))
            return 0
        if op in ("sqrtsd", "sqrtpd"):
            self.ins(op, ("x", y), ("x", x))
            self.ins("cvttsd2siq", ("r", a), ("x", y))
            return 0
        if g.random() < 0.5:
            self.ins("movq", ("r", b), ("n", n2))
            self.ins("cvtsi2sdq", ("x", y), ("r", b))
            o = ("x", y)
        else:
            self.ins("movq", ("r", b), ("n", n2))
            self.ins("cvtsi2sdq", ("x", y), ("r", b))
            m = self.memop_not(b)
            self.ins("movsd", m, ("x", y))
            o = m
        self.ins(op, ("x", x), o)
        if op == "ucomisd":
            return self.ite(depth, slots, g.choice(self.t.mns["jcc"]))
        self.ins("cvttsd2siq", ("r", a), ("x", x))
        return 0

    def ite(self, depth, slots, jcc=None):
        g = self.g
        jcc = jcc or self.cond()
        els, end = self.label(), self.label()
        self.ins(jcc, ("L", els))
        a = self.body(depth - 1, slots)
        if g.random() < 0.4:
            # the other branch lies out of line
            keep = self.cur
            self.ins("jmp", ("L", end)) if g.random() < 0.5 else self.goto(end)
            self.seg(els)
            b = self.body(depth - 1, slots)
            self.goto(end)
            # keep is closed by the jump; the code goes on in a segment of its own
            self.seg(end)
        else:
            self.ins("jmp", ("L", end))
            self.bind(els)
            b = self.body(depth - 1, slots)
            self.bind(end)
            self.plain()
        return max(a, b)

    def gadget(self, depth, slots):
        """Appends one construct; returns the stack slots it needs."""
        g = self.g
        self.budget -= 1
        if depth <= 0 or self.budget < 0:
            self.plain()
            return 0
        k = g.choice(["plain"] * 5 + ["ite", "ite", "loop", "call", "push", "frame", "cold", "jump", "patch", "div", "fp", "fp", "item", "item"])
        if k == "plain":
            self.plain()
        elif k == "ite":
            return self.ite(depth, slots)
        elif k == "loop":
            free = [c for c in COUNTERS if c not in self.busy]
            if not free:
                self.plain()
                return 0
            c = free[0]
            self.busy.append(c)
            top = self.label()
            self.ins("movq", ("r", c), ("n", g.randrange(1, 5)))
            self.bind(top)
            a = self.body(depth - 1, slots)
            dec = g.choice(["subq", "addq", "subl"])
            self.ins(dec, ("r", c), ("n", -1 if dec == "addq" else 1))
            self.ins(g.choice(["jne", "jnz", "jgt"]), ("L", top))
            self.busy.remove(c)
            self.plain()
            return a
        elif k == "call":
            fs = [f for f in self.funcs if f[1] + 1 <= slots and not (set(f[2]) & set(self.busy))]
            if not fs:
                self.plain()
                return 0
            f = g.choice(fs)
            self.call(f[0])
            self.plain()
            return f[1] + 1
        elif k == "push":
            if slots < 2:
                return 0
            n = g.randrange(3)
            if n == 0:
                self.ins("pushq", ("r", self.src_reg()))
            else:
                m = self.memop(8)
                self.ins("pushq", m)
            a = self.body(depth - 1, slots - 1)
            if g.random() < 0.6:
                self.ins("popq", ("r", self.reg()))
            else:
                m = self.memop(8)
                self.ins("popq", m)
            return a + 1
        elif k == "frame":
            if slots < 5:
                return 0
            self.ins("pushq", ("r", 5))
            self.ins("movq", ("r", 5), ("r", 4))
            self.ins("subq", ("r", 4), ("n", 16))
            self.ins("movq", ("m", 5, -1, 1, -8), ("r", self.src_reg()))
            self.ins("movl", ("m", 5, -1, 1, -16), ("n", self.value()))
            a = self.body(depth - 1, slots - 3)
            self.ins("addq", ("r", self.reg()), ("m", 5, -1, 1, -8))
            self.ins("leave")
            return a + 3
        elif k == "cold":
            out, back = self.label(), self.label()
            self.goto(out)
            self.seg(out)
            a = self.body(depth - 1, slots)
            self.goto(back)
            self.seg(back)
            self.plain()
            return a
        elif k == "jump":
            l = self.label()
            self.goto(l)
            self.cur.append(("junk", g.randrange(1, 9)))
            self.bind(l)
            self.plain()
        elif k == "patch":
            p, a_, b_, e = self.label(), self.label(), self.label(), self.label()
            self.bind(p)
            self.ins("jmp", ("L", a_))
            self.bind(b_)
            x = self.body(depth - 1, slots)
            self.ins("jmp", ("L", e))
            self.bind(a_)
            y = self.body(depth - 1, slots)
            self.bind(e)
            self.plain()
            self.patches.append((p, b_))
            return max(x, y)
        elif k == "div":
            self.ins("movq", ("r", 0), ("n", g.randrange(-100000, 100000)))
            w = g.choice(["idivq", "idivl", "idiv"])
            self.ins("cdq" if w == "idivl" else "cqo")
            d = g.choice([v for v in range(-20, 20) if v])
            if g.random() < 0.5:
                r = g.choice([r for r in FREE if r not in (0, 2)])
                self.ins("movq", ("r", r), ("n", d))
                self.ins(w, ("r", r))
            else:
                m = self.memop_not(0)
                self.ins("movq", m, ("n", d))
                self.ins(w, m)
            self.redefine()
        elif k == "fp":
            return self.fp(depth, slots)
        elif k == "item":
            kind = g.choice(["ci64", "di64", "ci32", "di32"])
            v = self.value() if kind.endswith("32") else g.randrange(-2**63, 2**63)
            it = self.item(kind, v)
            if kind.endswith("32"):
                self.ins(g.choice(["movl", "addl", "movsxl", "cmpl"]), ("r", self.reg()), ("s", it))
                if g.random() < 0.5:
                    self.ins(g.choice(["movl", "subl", "xorl"]), ("s", it), ("r", self.src_reg()))
            else:
                self.ins(g.choice(["movq", "addq", "xorq"]), ("r", self.reg()), ("s", it))
                if g.random() < 0.5:
                    self.ins(g.choice(["movq", "sbbq", "orq"]), ("s", it), ("r", self.src_reg()))
        return 0

    def body(self, depth, slots):
        need = 0
        for _ in range(self.g.randrange(1, 4)):
            need = max(need, self.gadget(depth, slots))
        self.plain()
        return need

    # -- the whole program ------------------------------------------------------
    def program(self):
        g = self.g
        entry, out = self.label(), self.label()
        self.busy = []
        for n in range(g.randrange(0, 3)):
            l = self.label()
            self.seg(l)
            # a function uses at most the second counter
            self.busy = [15] if g.random() < 0.5 else [15, 14]
            used = [14] if self.busy == [15] else []
            need = self.body(2, 6)
            self.ins("ret")
            self.funcs.append((l, need, used))
        self.busy = []
        self.seg(entry)
        for _ in range(g.randrange(2, 6)):
            self.gadget(3, 20)
        self.goto(out)
        self.seg(out)
        self.cur.append(("exit",))
        self.entry, self.out = entry, out
        return self.layout()

    def layout(self):
        """Segments in some order, on some page, with finalizations in between."""
        g = self.g
        segs = list(self.segs)
        if g.random() < 0.8:
            g.shuffle(segs)
        lines = ["new %d" % self.labels]
        win = bytes(g.randrange(256) for _ in range(WIN))
        lines.append("win " + win.hex())
        ins, lab, exit_ = [], {}, None
        order = list(range(len(self.items)))
        early = g.random() < 0.5
        made = {}
        tail = []

        def make(k):
            if k not in made:
                made[k] = len(made)
                kind, v = self.items[k][:2]
                body.append("item %s %d" % (kind, v))
        body = []
        if early:
            g.shuffle(order)
            for k in order:
                make(k)
        many = g.random()
        two = g.random() < 0.7
        pend = []
        for s in segs:
            if two:
                body.append("page %d" % g.randrange(2))
            if g.random() < 0.3:
                body.append("al %d" % g.choice([4, 8, 16]))
            for it in s:
                if it[0] == "bind":
                    body.append("bind %d" % it[1])
                    pend.append(it[1])
                elif it[0] == "junk":
                    body.append("junk %d" % it[1])
                else:
                    if it[0] == "ins":
                        for o in it[2]:
                            if o[0] == "s":
                                make(o[1])
                        body.append((it[1], it[2]))
                        ins.append([it[1], it[2]])
                    else:
                        body.append("exit")
                        ins.append(["exit", []])
                        exit_ = len(ins)
                    for l in pend:
                        lab[l] = len(ins)
                    pend = []
            if g.random() < many * 0.5:
                body.append("fin")
        body.append("fin")
        # items are numbered by creation
        offs, size, off = {}, [], WIN
        mem = list(win)
        absn = []
        for k in sorted(made, key=lambda k: made[k]):
            kind, v, _, n = self.items[k]
            offs[k] = off
            if kind == "abs":
                absn.append([off, v + 1])
                mem += [0] * 8
            else:
                mem += list((v & (2**(8 * n) - 1)).to_bytes(n, "little"))
            off += n
        for b in body:
            if isinstance(b, tuple):
                mn, ops = b
                lines.append(self.t.line(mn, [("s", made[o[1]]) if o[0] == "s" else o for o in ops]))
            else:
                lines.append(b)

        def spec(o):
            if o[0] == "s":
                return ["s", offs[o[1]]]
            if o[0] == "L":
                return ["L", o[1] + 1]
            if o[0] == "k":
                return ["r", 1]
            return list(o)
        pins = [[mn, [spec(o) for o in ops]] for mn, ops in ins]
        prog = {"ins": pins, "lab": [lab[l] for l in range(self.labels)], "exit": exit_, "entry": lab[self.entry],
                "m": mem, "abs": absn}
        runs = [prog]
        lines.append("run %d %d" % (self.entry, g.randrange(2**40)))
        if self.patches:
            ps = g.sample(self.patches, g.randrange(1, len(self.patches) + 1))
            nxt = json.loads(json.dumps(prog))
            for p, l in ps:
                lines.append("patch %d %d" % (p, l))
                i = lab[p]
                nxt["ins"][i - 1] = ["jmp", [["L", l + 1]]]
            nxt["m"] = None
            lines.append("run %d %d" % (self.entry, g.randrange(2**40)))
            runs.append(nxt)
        lines.append("end")
        return lines, runs


WID = {}


def render(items):
    text, lines = gen.render_with("fn main() { prog::prog_main(STS); }")(items)
    return text.replace("mod rt;\n", "mod rt; mod cpu; mod prog;\n", 1), lines


def check():
    rep = vlib.Report("C18", "model_checking")
    items = select()
    src = lambda n: open(os.path.join(vlib.VERIF, "driver", n)).read()
    exe, rej = vlib.build_driver("progdrv", render, items, {n: src(n) for n in ("rt.rs", "cpu.rs", "prog.rs")})
    for k, m in rej.items():
        rep.violation("statement not accepted: " + items[k]["src"], {"why": m})
    if rej:
        return rep.finish()
    tab = Table(items)
    n = 2500 if TIER == "quick" else 12000
    wd = vlib.workdir("c18")
    progs = [Gen(tab, random.Random(SEED * 1000003 + k)).program() for k in range(n)]
    chunks = [progs[k::8] for k in range(8)]

    def go(k):
        pf, of = os.path.join(wd, "prog%d.txt" % k), os.path.join(wd, "out%d.ndjson" % k)
        with open(pf, "w") as f:
            for lines, runs in chunks[k]:
                f.write("\n".join(lines) + "\n")
        vlib.run_driver(exe, [pf, of], timeout=600 if TIER == "quick" else 3000)
        return [json.loads(l) for l in open(of)]
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(go, range(8)))
    evs, texts = [], []
    for k in range(8):
        it = iter(outs[k])
        for lines, runs in chunks[k]:
            for j, r in enumerate(runs):
                o = next(it)
                e = dict(r)
                if o["out"][0] == 0:
                    e["ins"] = [[a[0], a[1], b[0], b[1]] for a, b in zip(r["ins"], o["addrs"])]
                    for q in ("r", "f", "wb", "x"):
                        e[q] = o[q]
                    if e["m"] is None:
                        e["m"] = o["m"]
                        e["abs"] = []
                else:
                    e["m"] = e["m"] or []
                e["out"] = o["out"]
                e["why"] = o.get("why", "")
                evs.append(e)
                texts.append((lines, j))
    # copies of runs with one bit of the outcome flipped: the specification must refuse them
    real = len(evs)
    ctl = {}
    for a in range(0, real, 29):
        if evs[a]["out"][0] == 0:
            e = json.loads(json.dumps(evs[a]))
            [lambda: e["out"][1][a % 16].__setitem__(a % 8, e["out"][1][a % 16][a % 8] ^ 1),
             lambda: e["out"][3].__setitem__(a % len(e["out"][3]), e["out"][3][a % len(e["out"][3])] ^ 16)][a % 2]()
            evs.append(e)
            ctl[len(evs)] = a + 1
    trace = os.path.join(wd, "trace.ndjson")
    with open(trace, "w") as f:
        for e in evs:
            f.write(json.dumps(e) + "\n")
    out, g_, d = vlib.tlc("ProgTrace", env={"TRACE": trace}, workers=8, heap="12g")
    bad = vlib.bad_events(out)
    ended = len(re.findall(r'<<\s*"END"', out))
    undef = len(re.findall(r'<<\s*"UNDEF"', out))
    flagged = {a for a, b in bad}
    if ended + undef + len({a for a in flagged if evs[a - 1]["out"][0] != 0}) < len(evs) and not flagged - set(ctl):
        raise vlib.ToolError("only %d of %d runs reached their end in the model" % (ended + undef, len(evs)))
    if sum(1 for c, a in ctl.items() if a not in flagged and c not in flagged) > 0.1 * len(ctl):
            raise vlib.ToolError("the specification accepts a corrupted run")
    evs = evs[:real]
    bad = [(a, b) for a, b in bad if a <= real]
    for a, b in bad:
        lines, j = texts[a - 1]
        rep.violation("program %d run %d" % (a, j), {"why": evs[a - 1]["why"], "steps": b, "script": lines,
                                                   "outcome": evs[a - 1]["out"][:1]})
    used = {(i[0]) for e in evs for i in e["ins"]}
    rep.add(states=d, transitions=g_, traces_validated_against_impl=len(evs), programs=n, steps=d - real - len(ctl), corrupted_runs_refused=len(ctl),
            statements=sum(len(e["ins"]) for e in evs), mnemonics=len(used), undefined_outcomes=undef,
            finalizations=sum(l.count("fin") for l, _ in progs), second_runs=sum(1 for _, r in progs if len(r) > 1))
    for e in evs[:3]:
        rep.sample({"program": [[i[0], i[1]] for i in e["ins"][:12]], "outcome": e["out"][0]})
    rep.assumptions = ["Programs stay inside their scratch window and never depend on flags the architecture leaves undefined."]
    return rep.finish()
