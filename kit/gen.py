"""Seeded generators of devices and patches.

Devices are built from name families that overlap on purpose (TIM1/TIM10/TIM2_S, CR1/cr1/CR10 ...), so that a rule
which selects too much or too little is visible.  Patches are grown rule by rule: each proposed rule is run through
the reference interpreter; refused proposals are dropped, except for the share that is kept to test refusal.
"""

from . import ref
from .model import clone
from .ref import Reject, Unspecified


PER_NAMES = ["TIM1", "TIM2", "TIM10", "TIM2_S", "TIM3", "GPIOA", "GPIOB", "GPIOC", "GPIOAB", "USART1", "UART4",
             "DAC", "DAC1", "ADC_C", "I2C1", "I2C10", "SPI", "spi1", "RTC", "TI", "SEC_TIM1", "CRYP", "LPTIM1"]
REG_SINGLE = ["CR", "CR1", "CR2", "CR10", "SR", "ISR", "ICR", "MODER", "IDR", "ODR", "cr1", "BSRR", "PRE_A_CR",
              "PRE_B_CR", "PRE_AB_SR", "X_PRE_SR", "LOCK", "LCK_END", "SR_END", "KEY_X_END", "M", "VER"]
REG_FAM = ["CCR{}", "DR{}", "CH{}_CFG", "BUF{}", "MAP{}R", "EXTI{}", "CH{}_DATA", "CH{}_STS", "TX{}", "Q{}_LO"]
FLD_SINGLE = ["UIF", "OVR", "BUSY", "MODE", "DIV", "en0", "PRESC", "P_A_EN", "P_B_EN", "P_AB_X", "RDY_F", "ERR_F",
              "LOCKED", "M", "DIV1X"]
FLD_FAM = ["EN{}", "MODE{}", "CH{}IE", "F{}_X", "B{}", "SEL{}"]
CLU_SINGLE = ["GRP", "CH", "BANK", "CTRL", "CHX"]
CLU_ARR = ["CH%s", "BANK[%s]", "GRP%s", "DMA%s_S", "Q[%s]"]
WORDS = ["control", "status", "channel", "enable", "data <in>", "a & b", "mode", "config", "\"quoted\"", "clear",
         "it's", "overrun", "prescaler", "été", "x"]
IRQ = ["TIM1_UP", "TIM1_CC", "TIM10", "USART1", "DMA1_CH1", "DMA1_CH2", "EXTI0", "EXTI1", "EXTI10", "GLOBAL", "RTC_WKUP"]
ACC = ["read-only", "read-write", "write-only", "writeOnce", "read-writeOnce"]
MWV = list(ref.MWV)
RA = list(ref.RA)
EVN = ["Disabled", "Enabled", "Low", "High", "Auto", "Manual", "Div1", "Div2", "Div4", "Slow", "Fast", "Off", "On"]


class Gen:
    def __init__(self, rng, size=1):
        self.r = rng
        self.size = size

    # ------------------------------------------------------------ primitives
    def p(self, x):
        return self.r.random() < x

    def ch(self, xs):
        return self.r.choice(list(xs))

    def text(self):
        return " ".join(self.ch(WORDS) for _ in range(self.r.randint(1, 4)))

    def props(self, n, pr=0.3):
        if self.p(pr):
            n["size"] = self.ch([8, 16, 32, 32, 64])
        if self.p(pr):
            n["access"] = self.ch(ACC)
        if self.p(pr):
            n["resetValue"] = self.r.getrandbits(self.ch([1, 4, 8]))
        if self.p(pr * 0.7):
            n["resetMask"] = self.ch([0xFF, 0xFFFF, 0xFFFFFFFF, 0])
        return n

    # ------------------------------------------------------------ devices
    def device(self, nper=None):
        d = {"k": "device", "vendor": "ACME" if self.p(0.5) else None, "name": "DEV" + str(self.r.randint(1, 9)),
             "version": "1.%d" % self.r.randint(0, 9), "description": self.text(), "addressUnitBits": 8, "width": 32}
        for k, v in (("vendorID", "acme"), ("series", "S1"), ("licenseText", "free & open"),
                     ("headerSystemFilename", "dev.h"), ("headerDefinitionsPrefix", "D_")):
            if self.p(0.25):
                d[k] = v
        d = {k: v for k, v in d.items() if v is not None}
        self.props(d, 0.4)
        if self.p(0.5):
            d["cpu"] = self.cpu()
        n = nper or self.r.randint(1, 3 + 2 * self.size)
        names = self.r.sample(PER_NAMES, n)
        ps = []
        base = 0x40000000
        irqs = []
        for nm in names:
            base += self.ch([0x400, 0x1000, 0x800])
            p = {"k": "peripheral", "name": nm, "baseAddress": base if self.p(0.9) else base - 0x2000,
                 "interrupts": [], "addressBlocks": [], "children": []}
            self.per_attrs(p)
            for _ in range(self.ch([0, 0, 1, 1, 2, 3])):
                nm2 = self.ch(IRQ)
                if any(i["name"] == nm2 for i in p["interrupts"]):
                    continue
                i = {"name": nm2, "value": self.r.randint(0, 60)}
                if self.p(0.6):
                    i["description"] = self.text()
                p["interrupts"].append(i)
            bases = [q["name"] for q in ps if "derivedFrom" not in q]
            if bases and self.p(0.3):
                p["derivedFrom"] = self.ch(bases)
                if self.p(0.15) and ps:
                    p["derivedFrom"] = self.ch([q["name"] for q in ps])
            else:
                self.props(p, 0.25)
                if self.p(0.6):
                    for _ in range(self.ch([1, 1, 1, 2])):
                        p["addressBlocks"].append({"offset": self.ch([0, 0, 0x100]), "size": self.ch([0x400, 0x20]),
                                                   "usage": self.ch(["registers", "buffer", "reserved"])})
                if self.p(0.95):
                    p["children"] = self.block(0, nm)
                    p["hasregs"] = bool(p["children"])
            if self.p(0.05) and "derivedFrom" not in p:
                p["dim"] = {"dim": 2, "inc": 0x100, "index": ["0", "1"]}
                p["name"] = nm + "_%s"
            ps.append(p)
        if self.p(0.15):
            self.r.shuffle(ps)
        d["peripherals"] = ps
        self.derive_refs(d)
        return d

    def cpu(self):
        c = {"name": self.ch(["CM3", "CM4", "CM7"]), "revision": "r1p0", "endian": self.ch(["little", "big"]),
             "mpuPresent": self.p(0.5), "fpuPresent": self.p(0.5), "nvicPrioBits": self.r.randint(2, 8),
             "vendorSystickConfig": self.p(0.5)}
        for k in ("fpuDP", "dspPresent", "vtorPresent"):
            if self.p(0.3):
                c[k] = self.p(0.5)
        if self.p(0.3):
            c["deviceNumInterrupts"] = self.r.randint(10, 100)
        return c

    def per_attrs(self, p):
        for k, pr in (("displayName", 0.2), ("version", 0.2), ("description", 0.7), ("groupName", 0.3),
                      ("prependToName", 0.1), ("headerStructName", 0.1)):
            if self.p(pr):
                p[k] = self.text() if k == "description" else p["name"] + "_" + k[:3]

    def block(self, depth, ctx):
        """Children of a peripheral or cluster."""
        out, names, cnames = [], set(), set()
        off = 0

        def add(r, step=None):
            if r["name"] in names:
                return
            names.add(r["name"])
            out.append(r)

        nseg = self.r.randint(1, 3 if depth == 0 else 2) + (1 if self.p(0.3) else 0)
        for _ in range(nseg):
            k = self.r.random()
            if k < 0.4:
                for nm in self.r.sample(REG_SINGLE, self.r.randint(1, 4)):
                    add(self.register(nm, off))
                    off += self.ch([4, 4, 4, 8, 2])
            elif k < 0.7:
                off = self.family(add, off)
            elif k < 0.8:
                nm = self.ch(["ARR%s", "BUF[%s]", "W%s_D", "CCR%sX"])
                r = self.register(nm, off)
                n = self.r.randint(1, 4)
                inc = self.ch([4, 4, 8])
                r["dim"] = {"dim": n, "inc": inc}
                if "[%s]" not in nm or self.p(0.3):
                    r["dim"]["index"] = self.ch([[str(i) for i in range(n)], [str(i + 1) for i in range(n)],
                                                 list("ABCD")[:n]])
                if self.p(0.5):
                    r["description"] = "Buffer %s word"
                if self.p(0.3):
                    r["displayName"] = nm
                add(r)
                off += n * inc
            elif depth < 2:
                arr = self.p(0.6)
                nm = self.ch(CLU_ARR if arr else CLU_SINGLE)
                if nm in cnames:
                    continue
                cnames.add(nm)
                c = {"k": "cluster", "name": nm, "addressOffset": off, "children": []}
                if self.p(0.7):
                    c["description"] = self.text()
                for k2 in ("alternateCluster", "headerStructName"):
                    if self.p(0.12):
                        c[k2] = self.ch(["PRE_A_ALT", "ALT_END", "HDR"])
                self.props(c, 0.15)
                c["children"] = self.block(depth + 1, ctx)
                ext = extent(c["children"])
                if arr:
                    n = self.r.randint(1, 3)
                    inc = (ext + 7) // 4 * 4 + self.ch([0, 0, 16])
                    c["dim"] = {"dim": n, "inc": inc}
                    if "[%s]" not in nm and self.p(0.8):
                        c["dim"]["index"] = self.ch([[str(i) for i in range(n)], [str(i + 1) for i in range(n)],
                                                     list("ABC")[:n]])
                    off += n * inc
                else:
                    off += ext
                out.append(c)
            if self.p(0.2):
                off += 0x10
        if not out:
            out.append(self.register("CR", 0))
        if self.p(0.1):
            self.r.shuffle(out)
        return out

    def family(self, add, off, n=None, broken=0.15):
        """Regular run of registers that could become an array, or interleaved groups for a cluster."""
        n = n or self.r.randint(2, 4)
        idx = self.ch([[str(i) for i in range(n)], [str(i + 1) for i in range(n)], list("ABCDEF")[:n],
                       [str(9 + i) for i in range(n)]])
        pats = [self.ch(REG_FAM)]
        if self.p(0.4):
            pats = self.r.sample(["CH{}_CFG", "CH{}_DATA", "CH{}_STS", "CH{}_X"], self.r.randint(2, 3))
        unit, dim = 4, None
        if self.p(0.12):
            # registers that are arrays themselves
            k = self.r.randint(1, 3)
            dim = {"dim": k, "inc": 4}
            if self.p(0.6):
                dim["index"] = self.ch([[str(i) for i in range(k)], list("XYZ")[:k]])
            pats = [pat + self.ch(["_%s", "%s", "_D%s"]) for pat in pats]
            unit = 4 * k
        elif self.p(0.15):
            # several registers in a word
            unit = self.ch([1, 2])
        step = unit * len(pats) if self.p(0.7) else 0x10
        if step < unit * len(pats):
            step = unit * len(pats)
        inter = self.p(0.6) or len(pats) == 1
        width = self.r.randint(1, 3)
        for g, pat in enumerate(pats):
            proto = self.register("X", 0, fam=True)
            dtpl = self.ch(["Channel {} " + self.text(), self.text(), "desc {0}", None, "{} and {} of " + self.ch(WORDS)])
            dn = self.ch([None, None, pat, "disp"])
            ids = idx
            if g and self.p(broken * 0.6):
                # as many registers as in the other groups, but not under the same indexes
                ids = idx[::-1] if self.p(0.4) else [chr(ord(x[-1]) + 1) if not x.isdigit() else str(int(x) + 1) for x in idx]
            order = list(enumerate(ids))
            if self.p(0.12):
                self.r.shuffle(order)
            for i, ix in order:
                r = clone(proto)
                r["name"] = pat.format(ix)
                if unit < 4 and self.p(0.8):
                    r["size"] = 8 * unit
                r["addressOffset"] = off + (i * step + g * unit if inter else (g * n + i) * step)
                if dim is not None:
                    r["dim"] = dict(dim)
                    if self.p(broken * 0.6):
                        # one of another shape
                        if self.p(0.4):
                            r["dim"].pop("index", None)
                        elif self.p(0.5):
                            r["dim"] = {"dim": max(1, dim["dim"] - 1), "inc": 4}
                        else:
                            r["dim"]["inc"] = 2
                elif i and pat.endswith("{}") and self.p(broken * 0.1):
                    # an array among single ones
                    r["name"] += "%s"
                    r["dim"] = {"dim": 2, "inc": 1, "index": ["0", "1"]}
                r.pop("description", None)
                r.pop("displayName", None)
                if dtpl is not None:
                    r["description"] = dtpl.format(ix, ix) if "{" in dtpl else dtpl
                if dn is not None:
                    r["displayName"] = dn.format(ix)
                if self.p(0.15):
                    for f in r["fields"]:
                        f["description"] = self.text()
                if self.p(broken * 0.5):
                    r["addressOffset"] += self.ch([4, 0x40])
                if self.p(broken * 0.4) and r["fields"]:
                    r["fields"].pop()
                if self.p(broken * 0.4):
                    r["description"] = self.text()
                add(r)
        return off + len(pats) * n * step + 8

    def register(self, nm, off, fam=False):
        r = {"k": "register", "name": nm, "addressOffset": off, "fields": []}
        if self.p(0.7):
            r["description"] = self.text()
        if self.p(0.3):
            r["displayName"] = nm
        if self.p(0.1):
            r["alternateGroup"] = "AG"
        if self.p(0.1):
            r["alternateRegister"] = self.ch(["PRE_A_ALT", "ALT_END", "CR1"])
        self.props(r, 0.35)
        if self.p(0.08):
            r["dataType"] = "uint32_t"
        if self.p(0.08):
            r["modifiedWriteValues"] = self.ch(MWV)
        if self.p(0.08):
            r["readAction"] = self.ch(RA)
        if self.p(0.06):
            r["wc"] = self.wc(8)
        if self.p(0.9):
            r["fields"] = self.fields(32)
        return r

    def fields(self, bits):
        out, names = [], set()
        pos = 0

        def put(nm, width, off=None, **kw):
            nonlocal pos
            if nm in names:
                return None
            names.add(nm)
            f = {"k": "field", "name": nm, "off": pos if off is None else off, "width": width, "enums": [],
                 "br": self.ch(["bitRange", "lsb", "offset"])}
            f.update(kw)
            out.append(f)
            pos = max(pos, f["off"] + width)
            return f

        for _ in range(self.r.randint(1, 3)):
            if pos > bits - 8:
                break
            k = self.r.random()
            if k < 0.5:
                for nm in self.r.sample(FLD_SINGLE, self.r.randint(1, 3)):
                    if pos < bits - 5:
                        f = put(nm, self.ch([1, 1, 1, 2, 3, 4]))
                        if f:
                            self.field_attrs(f)
                        pos += self.ch([0, 0, 1])
            elif k < 0.9:
                pat = self.ch(FLD_FAM)
                n = self.r.randint(2, 4)
                w = self.ch([1, 1, 2])
                step = w + self.ch([0, 0, 1])
                if pos + n * step > bits:
                    continue
                s = pos
                d = self.ch([None, "Bit {} " + self.text(), self.text()])
                acc = self.ch([None, None] + ACC)
                ixs = self.ch([list(range(n)), list(range(1, n + 1)), list("ABCD")[:n]])
                order = list(range(n))
                if self.p(0.3):
                    self.r.shuffle(order)
                for i in order:
                    kw = {}
                    if d is not None:
                        kw["description"] = d.format(ixs[i])
                    if acc is not None:
                        kw["access"] = acc
                    f = put(pat.format(ixs[i]), w if self.p(0.95) else w + 1, s + i * step + (0 if self.p(0.95) else 1),
                            **kw)
                    if f and self.p(0.15):
                        self.field_attrs(f)
                pos = max(pos, s + n * step + 1)
            else:
                f = put(self.ch(["FA%s", "G[%s]", "H%s_Z"]), self.ch([1, 2]))
                if f:
                    n = self.r.randint(2, 3)
                    f["dim"] = {"dim": n, "inc": f["width"]}
                    if "[" not in f["name"]:
                        f["dim"]["index"] = [str(i) for i in range(n)]
                    pos += n * f["width"]
        if self.p(0.2):
            self.r.shuffle(out)
        return out

    def wc(self, width):
        k = self.r.random()
        if k < 0.5:
            m = (1 << width) - 1
            a = self.r.randint(0, m)
            return ["range", a, self.r.randint(a, m)]
        if k < 0.8:
            return ["useEnumeratedValues", True]
        return ["writeAsRead", True]

    def field_attrs(self, f):
        if self.p(0.6):
            f["description"] = self.text()
        if self.p(0.3):
            f["access"] = self.ch(ACC)
        if self.p(0.15):
            f["modifiedWriteValues"] = self.ch(MWV)
        if self.p(0.1):
            f["readAction"] = self.ch(RA)
        if self.p(0.2):
            f["wc"] = self.wc(f["width"])
        if self.p(0.3):
            f["enums"] = self.enums(f)

    def enums(self, f):
        two = f.get("access", "read-write") in ref.RWACC and self.p(0.25)
        out = []
        for u in (["read", "write"] if two else [None if self.p(0.7) else "read-write"]):
            e = {"values": self.ev(f["width"])}
            if u:
                e["usage"] = u
            if self.p(0.6):
                e["name"] = f["name"].replace("%s", "").replace("[", "").replace("]", "") + {
                    "read": "R", "write": "W"}.get(u, "")
            out.append(e)
        return out

    def ev(self, width):
        n = min(1 << width, self.r.randint(1, 4))
        vals = sorted(self.r.sample(range(min(1 << width, 16)), n))
        names = self.r.sample(EVN, n)
        out = []
        for v, nm in zip(vals, names):
            e = {"name": nm, "value": v}
            if self.p(0.8):
                e["description"] = self.text()
            out.append(e)
        if self.p(0.15):
            out.append({"name": "Other", "description": "rest", "isDefault": True})
        return out

    def derive_refs(self, d):
        """Turn some registers and fields into derived ones."""
        for p in d["peripherals"]:
            for b in blocks(p):
                rs = [c for c in b["children"] if c["k"] == "register"]
                if len(rs) > 1 and self.p(0.3):
                    a, s = self.r.sample(rs, 2)
                    if "derivedFrom" not in s and not any(c.get("derivedFrom") == a["name"] for c in rs):
                        a["derivedFrom"] = s["name"]
                        if self.p(0.8):
                            a["fields"] = []
                        if self.p(0.7):
                            for k in ref.PROP5[:2] + ref.PROP5[3:] + ("wc", "modifiedWriteValues", "dataType"):
                                a.pop(k, None)
                for r in rs:
                    fs = [f for f in r["fields"] if "dim" not in f]
                    if len(fs) > 1 and self.p(0.12):
                        a, s = self.r.sample(fs, 2)
                        if "derivedFrom" not in s and not any(
                                f.get("derivedFrom", "").split(".")[-1] == a["name"] for f in fs):
                            a["derivedFrom"] = s["name"] if self.p(0.6) else "%s.%s" % (r["name"], s["name"])
                            a["enums"] = []
                            a.pop("wc", None)
                    evs = [(f, e) for f in fs for e in f["enums"] if e.get("name")]
                    if evs and self.p(0.2):
                        f, e = self.ch(evs)
                        t = self.ch(fs)
                        if t is not f and not t["enums"] and t["width"] == f["width"] and "derivedFrom" not in t and \
                                sum(1 for _, x in evs if x["name"] == e["name"]) == 1:
                            t["enums"] = [{"derivedFrom": e["name"], "values": []}]
                            if self.p(0.3):
                                t["enums"][0]["name"] = "ALIAS" + t["name"].replace("%s", "").replace("[]", "")

    # ------------------------------------------------------------ patterns
    def pattern(self, name, universe, allow_opt=True, exact=0.4):
        """A specification that matches `name` (and perhaps others of universe)."""
        if self.p(exact):
            s = esc(name)
        else:
            k = self.r.randint(0, 11)
            others = [u for u in universe if u != name]
            if k == 0 and name:
                i = self.r.randrange(len(name))
                s = esc(name[:i]) + "?" + esc(name[i + 1:])
            elif k == 1:
                i = self.r.randint(1, len(name))
                s = esc(name[:i]) + "*"
            elif k == 2:
                i = self.r.randint(0, len(name) - 1)
                s = "*" + esc(name[i:])
            elif k == 3:
                i = self.r.randrange(len(name))
                c = name[i]
                if c in "%s[]":
                    s = esc(name)
                else:
                    extra = self.ch("AB012xZ")
                    s = esc(name[:i]) + "[" + "".join(sorted({c, extra})) + "]" + esc(name[i + 1:])
            elif k == 4 and others:
                s = "{%s,%s}" % (name.replace("[", "\\[").replace("]", "\\]"), esc2(self.ch(others)))
            elif k == 5 and others:
                o = [esc(name), esc(self.ch(others))]
                if self.p(0.3):
                    o[1] = o[1][:2] + "*"
                self.r.shuffle(o)
                s = ",".join(o)
            elif k == 6:
                i = self.r.randrange(len(name))
                c = name[i]
                if c.isdigit():
                    s = esc(name[:i]) + "[0-%s]" % self.ch([x for x in "123456789" if x >= c]) + esc(name[i + 1:])
                elif c.isupper():
                    s = esc(name[:i]) + "[A-%s]" % self.ch([x for x in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if x >= c]) + \
                        esc(name[i + 1:])
                else:
                    s = esc(name)
            elif k == 7:
                i = self.r.randrange(len(name))
                c = name[i]
                bad = self.ch([x for x in "ABCM12_" if x != c])
                if c in "%s[]":
                    s = esc(name)
                else:
                    s = esc(name[:i]) + "[!%s]" % bad + esc(name[i + 1:])
            elif k == 8 and len(name) > 2:
                i = self.r.randint(1, len(name) - 1)
                s = esc(name[:i]) + "*" + esc(name[i + self.r.randint(0, 1):])
            elif k == 9 and len(name) > 1:
                i = self.r.randint(1, len(name) - 1)
                alt = self.ch(["Z", name[i:] + "0", "1"])
                s = esc2(name[:i]) + "{%s,%s}" % (esc2(name[i:]), alt)
            elif k == 10:
                s = "*"
            else:
                s = "?" * len(name)
        if allow_opt and self.p(0.12):
            s = "?~" + s
        return s

    def missing(self):
        return self.ch(["NOPE", "ZZ*", "TIM99", "CRX", "[0-9]Q", "cR1", "{QA,QB}", "QA,QB"])


def esc(s):
    """Literal text as a glob outside braces."""
    return s.replace("[", "\\[").replace("]", "\\]")


esc2 = esc


def blocks(p):
    """The peripheral and all its clusters, recursively."""
    out = [p]
    for c in p["children"]:
        if c["k"] == "cluster":
            out.extend(blocks(c))
    return out


def registers(p):
    out = []
    for c in p["children"]:
        if c["k"] == "cluster":
            out.extend(registers(c))
        else:
            out.append(c)
    return out


def extent(children):
    e = 4
    for c in children:
        n, inc = (c["dim"]["dim"], c["dim"]["inc"]) if "dim" in c else (1, 0)
        sz = 8 if c["k"] == "register" else extent(c["children"])
        e = max(e, c["addressOffset"] + (n - 1) * inc + sz)
    return e
