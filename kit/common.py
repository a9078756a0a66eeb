"""Devices and patches in the language that the Python and the Rust patcher share."""
from .model import clone, norm
from .ref import match, opt

WORDS = ("control", "status", "data", "channel", "enable", "mode", "level", "x", "A & B", "a <b> c", "\"quoted\"", "é")
PERS = ("TIM1", "TIM2", "TIM15", "GPIOA", "GPIOB", "SPI1", "ADC_C", "USART3")
REGS = ("CR1", "CR2", "SR", "DR", "PRE_A_CR", "PRE_B_CR", "CH1_CFG", "CH2_CFG", "BSRR", "MODER", "STAT_X", "KEY_X", "LOCK")
FLDS = ("EN", "MODE", "DIV", "RDY", "PRE_A", "PRE_B", "F_X", "G_X", "LVL", "STOP", "IE", "OUT")
ACC = ("read-write", "read-only", "write-only")


class Make:
    def __init__(self, rng):
        self.r = rng
        self.tags = set()

    def p(self, x):
        return self.r.random() < x

    def ch(self, x):
        return self.r.choice(list(x))

    def text(self):
        return " ".join(self.r.choices(WORDS, k=self.r.randint(1, 4)))

    # ---------------------------------------------------------- devices
    def device(self):
        d = {"k": "device", "name": "DEV", "version": "1.0", "description": self.text(), "addressUnitBits": 8, "width": 32,
             "vendor": "V", "series": "S", "peripherals": []}
        for k, v in (("size", 32), ("access", "read-write"), ("resetValue", 0), ("resetMask", 0xFFFFFFFF)):
            if self.p(0.5):
                d[k] = v
        names = self.r.sample(PERS, self.r.randint(2, 5))
        heirs = self.ch((0.2, 0.2, 0.6))
        for n in names:
            p = {"k": "peripheral", "name": n, "description": self.text(), "interrupts": [],
                 "baseAddress": 0x40000000 + 0x400 * len(d["peripherals"]),
                 "addressBlocks": [{"offset": 0, "size": 0x400, "usage": "registers"}], "children": []}
            for k in range(self.ch((0, 0, 1, 2))):
                p["interrupts"].append({"name": "%s_I%d" % (n, k), "description": self.text(), "value": self.r.randint(0, 200)})
            real = [q for q in d["peripherals"] if "derivedFrom" not in q]
            if real and self.p(heirs):
                p["derivedFrom"] = self.ch(real if heirs < 0.5 else real[:1])["name"]
                p["addressBlocks"] = []
                d["peripherals"].append(p)
                continue
            if self.p(0.4):
                p["groupName"] = "G"
            off = 0
            for rn in self.r.sample(REGS, self.r.randint(2, 6)):
                p["children"].append(self.register(rn, off))
                off += 4
            stems = self.r.sample(("BUF", "CCR", "ARR"), self.ch((0, 1, 2, 2)))
            n, base, both, first0 = self.r.randint(2, 4), off, self.p(0.5), self.ch((0, 1))
            for j, stem in enumerate(stems):
                first = first0 if both else self.ch((0, 1))
                fs = self.fields()
                step = self.ch((4, 4, 8))
                if both:
                    step, off = 4 * len(stems), base + 4 * j
                text = self.ch(("%s", "part %s of it", "the same"))
                for k in range(n if both else self.r.randint(2, 4)):
                    reg = self.register("%s%d" % (stem, first + k), off, fs)
                    reg.pop("displayName", None)
                    reg["description"] = text.replace("%s", str(first + k))
                    p["children"].append(reg)
                    off += step
            if self.p(0.2):
                src = self.ch(p["children"])
                p["children"].append({"k": "register", "name": "DREG", "addressOffset": off, "derivedFrom": src["name"], "fields": []})
            if self.p(0.3):
                x = self.register("VEC%s", off + 8)
                x["dim"] = {"dim": 3, "inc": 4, "index": ["0", "1", "2"]}
                p["children"].append(x)
            for cn in self.r.sample(("BLK", "UNIT%s"), self.ch((0, 0, 1, 2))):
                c = {"k": "cluster", "name": cn, "description": self.text(), "addressOffset": off + 0x40 + (0x80 if "%" in cn else 0),
                     "children": [self.register(rn, 4 * k) for k, rn in enumerate(self.r.sample(REGS, self.r.randint(2, 4)))]}
                if "%" in cn:
                    c["dim"] = {"dim": 2, "inc": 0x20, "index": ["0", "1"]}
                p["children"].append(c)
            if self.p(0.3):                # not stored in the order of the offsets
                self.r.shuffle(p["children"])
                for x in p["children"]:
                    if x["k"] == "register":
                        self.r.shuffle(x["fields"])
            d["peripherals"].append(p)
        return d

    def fields(self):
        fs, bit = [], 0
        for n in self.r.sample(FLDS, self.r.randint(1, 5)):
            bit += self.ch((0, 0, 1, 3))
            w = self.ch((1, 1, 2, 3, 4))
            if bit + w > 26:
                break
            f = {"k": "field", "name": n, "description": self.text(), "off": bit, "width": w, "enums": [],
                 "br": self.ch(("offset", "offset", "lsb", "bitRange"))}
            if self.p(0.25):
                f["access"] = self.ch(ACC)
            if self.p(0.1):
                f["wc"] = ("range", 0, (1 << w) - 1)
            bit += w
            fs.append(f)
        if self.p(0.4) and bit < 20:
            first, step = self.ch((0, 1)), self.ch((1, 1, 2))
            for k in range(self.r.randint(2, 4)):
                fs.append({"k": "field", "name": "CH%dE" % (first + k), "description": "channel %d" % (first + k), "off": bit,
                           "width": 1, "enums": [], "br": "offset"})
                bit += step
        ev = [f for f in fs if "wc" not in f]
        if ev and self.p(0.25):
            f = self.ch(ev)
            f["enums"] = [{"name": "E_" + f["name"], "usage": self.ch(("read-write",) * 3 + ("read", "write")) if "access" not in f else
                           {"read-only": "read", "write-only": "write"}.get(f["access"], "read-write"), "values": [
                {"name": "Off", "description": "off", "value": 0}, {"name": "On", "description": "on", "value": 1}]}]
        return fs

    def register(self, name, off, fs=None):
        r = {"k": "register", "name": name, "description": self.text(), "addressOffset": off, "size": 32,
             "fields": clone(fs) if fs is not None else self.fields()}
        if self.p(0.4):
            r["displayName"] = name
        if self.p(0.6):
            r["resetValue"] = self.r.getrandbits(16)
        if self.p(0.2):
            r["access"] = "read-write"
        return r

    # ---------------------------------------------------------- names
    def spec(self, name, names):
        """A pattern for a name."""
        k = self.r.randint(0, 7)
        if k <= 3:
            return name
        if k == 4:
            return name[:-1] + "?"
        if k == 5:
            return name[:2] + "*"
        other = self.ch(names)
        if k == 6:
            return "%s,%s" % (name, other) if other != name else name
        if other != name:
            c = 0
            while c < min(len(name), len(other)) and name[c] == other[c]:
                c += 1
            return "%s{%s,%s}" % (name[:c], name[c:], other[c:]) if name[c:] and other[c:] else "{%s,%s}" % (name, other)
        return "%s[%s]" % (name[:-1], name[-1])

    def some(self, names):
        names = list(names)
        return self.spec(self.ch(names), names) if names and not self.p(0.03) else "NONE*"

    def names(self, nodes):
        return [n["name"] for n in nodes]

    # ---------------------------------------------------------- rules
    def pat(self, nodes, pool, tries=6):
        """A pattern that selects at least one of `pool` and nothing else of `nodes`."""
        pool = list(pool)
        ok = {n["name"] for n in pool}
        n = self.ch(pool)["name"]
        for _ in range(tries):
            s = self.spec(n, sorted(ok))
            hit = [x["name"] for x in nodes if match(x["name"], s)]
            if hit and set(hit) <= ok:
                return s
        return n

    def patch(self, d, n, bad=False):
        """Rules that both patchers should accept; with `bad` one of them cannot be applied.

        Each block of a peripheral or register (`_delete`, `_modify`, ...) is used at most once for the same target, and targets
        are chosen from the device as it was, so that rules do not get into each other's way."""
        for _ in range(30):
            tags = set(self.tags)
            y = self.patch1(d, n, bad)
            if not self.clash():
                break
            self.tags = tags
        return y

    def clash(self):
        """Does a rule apply to a peripheral that another one removes, renames or replaces?"""
        used = [opt(s)[0] for s in self.y if not s.startswith("_")] + list(self.y.get("_clear_fields", []))
        m = self.y.get("_modify", {})
        used += [s for s in m if s not in self.renamed] + list(m.get("_peripherals", {}))
        ab = [s for t in (m, m.get("_peripherals", {})) for s, v in t.items() if isinstance(v, dict) for k in v if k.startswith("addressBlock")]
        if len(ab) > 1:
            return True
        return any(match(n, s) for n in self.gone for s in used)

    def patch1(self, d, n, bad):
        self.gone, self.renamed = set(), set()
        self.d, self.y, self.used = d, {}, set()
        self.bad = False
        for k in range(40):
            if n <= 0:
                break
            kind = self.ch(("dev",) * 4 + ("per",) * 6 + ("reg",) * 9 + ("clu",))
            self.bad = bad and n == 1
            self.was_bad = False
            t = getattr(self, kind)()
            if t and not (self.bad and not self.was_bad):
                self.tags.add(t)
                if self.was_bad:
                    self.tags.add("refused " + t)
                n -= 1
            elif self.bad and t:
                n = 1        # the rule had no failing form; keep trying
        for s, v in list(self.y.items()):
            if not s.startswith("_"):
                for t in [t for t in v if not t.startswith("_") and v[t] == {}] if isinstance(v, dict) else ():
                    del v[t]
                if not v:
                    del self.y[s]
        return self.y

    def fail(self, p=1.0):
        if self.bad and not self.was_bad and self.p(p):
            self.was_bad = True
            return True
        return False

    def once(self, *key):
        if key in self.used:
            return False
        self.used.add(key)
        return True

    def real(self):
        return [p for p in self.d["peripherals"] if "derivedFrom" not in p]

    def bases(self):
        return {p["derivedFrom"] for p in self.d["peripherals"] if "derivedFrom" in p}

    def opt(self, s):
        """Sometimes optional; sometimes optional and unmatched."""
        if self.p(0.85):
            return s
        self.tags.add("optional")
        return "?~" + s if self.p(0.6) else "?~NOSUCH*"

    # -- device
    def dev(self):
        y, d = self.y, self.d
        ps, real = d["peripherals"], self.real()
        k = self.ch(("delete", "attr", "attr", "per", "per", "per", "name", "cpu", "add", "add", "add", "derive", "rebase", "copy", "copyfile",
                     "clear"))
        if k == "delete":
            free = [p for p in ps if p["name"] not in self.bases()]
            if not free or not self.once("plist") or len(ps) < 3:
                return None
            s = self.pat(ps, free)
            self.gone |= {p["name"] for p in ps if match(p["name"], s)}
            y.setdefault("_delete", []).append(s)
        elif k == "attr":
            a = self.ch(("name", "version", "description", "vendor", "series", "size", "resetValue", "resetMask", "width", "addressUnitBits",
                         "licenseText", "headerSystemFilename", "access"))
            y.setdefault("_modify", {})[a] = {
                "size": 16, "width": 16, "addressUnitBits": 16, "resetValue": self.r.randint(0, 9), "resetMask": 0xFF,
                "description": self.text(), "licenseText": self.text(), "access": "read-write"}.get(a, "N1")
        elif k == "per":
            a = self.ch(("description", "groupName", "baseAddress", "addressBlock", "addressBlocks", "version", "size", "headerStructName",
                         "prependToName"))
            v = {"description": self.text(), "groupName": "GX", "version": "1.5", "size": 16,
                 "baseAddress": 0x50000000 + 0x400 * self.r.randint(0, 40), "addressBlock": self.ab(), "addressBlocks": [self.ab(), self.ab()],
                 "headerStructName": "HS", "prependToName": "PX_"}[a]
            t = y.setdefault("_modify", {})
            if self.p(0.3):
                t = t.setdefault("_peripherals", {})
            t.setdefault(self.pat(ps, real), {})[a] = v
        elif k == "name":
            p = self.ch(ps)
            if not self.once("plist"):
                return None
            self.gone.add(p["name"])
            self.renamed.add(p["name"])
            y.setdefault("_modify", {}).setdefault(p["name"], {})["name"] = p["name"] + "N"
        elif k == "cpu":
            if not self.once("cpu"):
                return None
            y.setdefault("_modify", {})["cpu"] = {
                "name": self.ch(("CM0", "CM4", "CM7")), "revision": "r%dp%d" % (self.r.randint(0, 3), self.r.randint(0, 3)), "endian": "little",
                "mpuPresent": self.ch(("true", "false")), "fpuPresent": self.ch(("true", "false")),
                "nvicPrioBits": self.r.randint(2, 8), "vendorSystickConfig": "false"}
        elif k == "add":
            n = self.ch(("NEWP", "NEWQ"))
            if not self.once("add", n):
                return None
            if self.fail(0.5):
                n = self.ch(ps)["name"]
                if not self.once("plist"):
                    return None
            h = {"description": self.text(), "baseAddress": 0x60000000 + 0x400 * self.r.randint(0, 9)}
            if self.p(0.3):
                if not self.once("plist"):
                    return None
                h["derivedFrom"] = self.ch(real)["name"]
            else:
                if self.p(0.5):
                    h["groupName"] = "GN"
                if self.p(0.5):
                    h["addressBlock"] = self.ab()
                else:
                    h["addressBlocks"] = [self.ab(), self.ab()]
                h["registers"] = {rn: self.newreg(4 * i) for i, rn in enumerate(self.r.sample(REGS, 2))}
                if self.fail():
                    self.was_bad = False
                    return None
            if self.p(0.5):
                h["interrupts"] = {"NI%d" % i: {"description": self.text(), "value": self.r.randint(0, 99)} for i in range(self.ch((1, 2)))}
            y.setdefault("_add", {})[n] = h
        elif k == "derive":
            a, b = self.ch(real), self.ch(real)
            if a is b or "groupName" in a or not self.once("plist"):
                return None
            v = "NOSUCH" if self.fail() else b["name"]
            if self.p(0.3):
                v = {"_from": v, "baseAddress": 0x51000000, "description": self.text()}
                if self.p(0.4):
                    a = {"name": "DERP"}
            self.gone.add(a["name"])
            y.setdefault("_derive", {})[a["name"]] = v
        elif k == "rebase":
            ds = [p for p in ps if "derivedFrom" in p]
            if not ds or not self.once("plist"):
                return None
            q = self.ch(ds)
            if self.fail():
                y.setdefault("_rebase", {}).update({q["name"]: "NOSUCH"} if self.p(0.5) else {"NOSUCH": q["derivedFrom"]})
            else:
                self.gone |= {q["name"], q["derivedFrom"]}
                y.setdefault("_rebase", {})[q["name"]] = q["derivedFrom"]
        elif k in ("copy", "copyfile"):
            a = self.ch(real)
            if not self.once("plist"):
                return None
            src = "NOSUCH" if self.fail() else a["name"]
            if k == "copyfile":
                src = "other/dev2.svd:" + src
                self.other = True
            others = [p for p in real if p is not a and p["name"] not in self.bases()]
            if others and self.p(0.5):
                t = self.ch(others)["name"]
                self.gone.add(t)
                y.setdefault("_copy", {})[t] = {"from": src}
                k += " over"
            else:
                y.setdefault("_copy", {})["CPY"] = {"from": src}
                y.setdefault("_modify", {}).setdefault("CPY", {})["baseAddress"] = 0x70000000
        else:
            flat = [p for p in ps if all(c["k"] == "register" for c in p["children"])]
            if not flat:
                return None
            y.setdefault("_clear_fields", []).append(self.pat(ps, flat))
        return "device " + k

    def ab(self):
        return {"offset": 0x100 * self.r.randint(0, 3), "size": 0x100, "usage": self.ch(("registers", "buffer"))}

    def newreg(self, off):
        h = {"description": self.text(), "addressOffset": off}
        if self.p(0.5):
            h["size"] = self.ch((8, 16, 32))
        if self.p(0.5):
            h["access"] = self.ch(ACC)
        if self.p(0.5):
            h["resetValue"] = self.r.getrandbits(8)
        if self.p(0.3):
            h["displayName"] = "SHOWN"
        if self.p(0.7):
            h["fields"] = {n: self.newfield(i * 2) for i, n in enumerate(self.r.sample(FLDS, self.r.randint(1, 3)))}
        return h

    def newfield(self, bit):
        h = {"description": self.text()}
        w = self.r.randint(1, 2)
        h.update({"bitOffset": bit, "bitWidth": w} if self.p(0.7) else {"lsb": bit, "msb": bit + w - 1} if self.p(0.5) else
                 {"bitRange": "[%d:%d]" % (bit + w - 1, bit)})
        if self.p(0.3):
            h["access"] = self.ch(ACC)
        if self.p(0.2):
            h["readAction"] = "clear"
        if self.p(0.2):
            h["modifiedWriteValues"] = "oneToSet"
        return h

    # -- peripherals
    def block(self, p, ps, pool):
        """The rules of a peripheral, under a pattern for it."""
        if self.fail(0.05):
            spec = "NOSUCH*"
        else:
            spec = p["name"] if self.p(0.8) else self.opt(self.pat(ps, pool))
        return self.y.setdefault(spec, {})

    def per(self):
        ps = self.d["peripherals"]
        p = self.ch(ps)
        k = self.ch(("delete", "strip", "strip_end", "modify", "modify", "add", "add", "derive", "copy", "clear", "array", "array", "array",
                     "cluster", "cluster", "irq", "irq"))
        if "derivedFrom" in p or k == "irq":
            return self.irq(p, ps)
        if not self.once(p["name"], "names" if k in ("delete", "modify", "clear", "strip", "strip_end", "array", "cluster", "derive", "copy") else k):
            return None
        h = self.block(p, ps, [p])
        rs = [r for r in p["children"] if r["k"] == "register"]
        cs = [r for r in p["children"] if r["k"] == "cluster"]
        plain = [r for r in rs if "derivedFrom" not in r and "dim" not in r]
        bases = {r["derivedFrom"] for r in rs if "derivedFrom" in r}
        free = [r for r in rs if r["name"] not in bases]
        if k == "delete":
            if not free or len(rs) < 3:
                return None
            s = [self.pat(rs + cs, free) for _ in range(self.ch((1, 1, 2)))]
            if self.p(0.3):
                h["_delete"] = {"_registers": s}
            else:
                h["_delete"] = s
        elif k == "strip":
            h["_strip"] = self.r.sample(("PRE_", "CH1_", "PRE_?_", "KEY_"), self.ch((1, 2)))
        elif k == "strip_end":
            h["_strip_end"] = self.r.sample(("_X", "_CFG", "_CR", "_?R"), self.ch((1, 2)))
        elif k == "modify":
            a = self.ch(("description", "displayName", "size", "access", "resetValue", "resetMask", "addressOffset", "name", "alternateGroup"))
            m = h.setdefault("_modify", {})
            if self.p(0.3):
                m = m.setdefault("_registers", {})
            if a == "name":
                if not plain:
                    return None
                n = self.ch(plain)["name"]
                if n in bases:
                    return None
                m.setdefault(n, {})["name"] = n + "N"
            else:
                m.setdefault(self.pat(rs + cs, plain), {})[a] = {
                    "description": self.text(), "displayName": "DN", "size": 16, "access": "read-write", "alternateGroup": "AG",
                    "resetValue": self.r.getrandbits(12), "resetMask": 0xFF, "addressOffset": 0x280 + 4 * self.r.randint(0, 8)}[a]
        elif k == "add":
            for n in self.r.sample(("NR1", "NR2", "NR3"), self.ch((1, 2))):
                if self.fail():
                    n = self.ch(rs)["name"]
                    if not self.once(p["name"], "names"):
                        return None
                t = h.setdefault("_add", {})
                if self.p(0.3):
                    t = t.setdefault("_registers", {})
                t[n] = self.newreg(0x300 + 4 * self.r.randint(0, 9))
        elif k == "derive":
            a = self.ch(plain)
            b = self.ch(plain)
            if a is b or a["name"] in bases or "displayName" in a or any(x in a for x in ("resetValue", "access", "size")) and self.p(0):
                return None
            v = "NOSUCH" if self.fail() else b["name"]
            if self.p(0.4):
                v = {"_from": v, "addressOffset": 0x290, "description": self.text()}
            h.setdefault("_derive", {})[a["name"] if self.p(0.5) or isinstance(v, str) else "DERV"] = v
        elif k == "copy":
            b = self.ch(plain)
            v = {"_from": "NOSUCH" if self.fail() else b["name"], "addressOffset": 0x2A0 + 4 * self.r.randint(0, 4)}
            if self.p(0.5):
                v["description"] = self.text()
            h.setdefault("_copy", {})[self.ch(("CP1", "CP2"))] = v
        elif k == "clear":
            if cs:
                return None
            h["_clear_fields"] = [self.pat(rs, rs)]
        elif k in ("array", "cluster"):
            stems = sorted({r["name"][:3] for r in rs if r["name"][:3] in ("BUF", "CCR", "ARR") and r["name"] not in bases})
            if not stems or set(stems) & {b[:3] for b in bases}:
                return None
            if k == "array":
                s = self.ch(stems)
                mem = [r for r in rs if r["name"].startswith(s)]
                v = {}
                if self.p(0.3):
                    v["_start_from_zero"] = True
                if self.p(0.3):
                    v["name"] = s[:2] + "%s"
                if self.p(0.5) or v.get("_start_from_zero") or mem[0]["name"][-1] != "0":
                    v["description"] = self.ch(("_original", self.text(), "n %s"))
                if self.p(0.3) and mem[0]["fields"]:
                    f = self.ch(mem[0]["fields"])
                    v["_modify"] = {f["name"]: {"description": self.text()}}
                    if v.get("name") is None and self.p(0.5) and not f["enums"] and "wc" not in f and "access" not in f:
                        v[f["name"]] = self.enum(f["width"])
                sp = s + self.ch(("*", "?", "[0-9]"))
                if self.fail():
                    sp = self.ch(("NOSUCH*", s + "1*" if mem[0]["name"][-1] == "0" else "QQ*"))
                    if sp.endswith("1*"):
                        sp = "NOSUCH?"
                h.setdefault("_array", {})[self.opt(sp) if not self.was_bad else sp] = v
            else:
                pick = self.r.sample(stems, self.r.randint(1, len(stems)))
                v = {s + self.ch("*?"): {} for s in pick}
                if self.fail():
                    v["NOSUCH*"] = {}
                else:
                    mem = [[r for r in rs if r["name"].startswith(s)] for s in pick]
                    a = [m[0]["addressOffset"] for m in mem]
                    if len({tuple(r["name"][3:] for r in m) + (self.step(m),) for m in mem}) > 1:
                        if not self.bad:
                            v = {s + "*": {} for s in pick[:1]}
                        else:
                            self.was_bad = True
                    elif max(a) - min(a) >= self.step(mem[0]):
                        v = {s + "*": {} for s in pick[:1]}
                for s in v:
                    if self.p(0.4):
                        v[s] = {"name": s[:2] + "Q"}
                    if self.p(0.3):
                        v[s]["description"] = self.text()
                if self.p(0.6):
                    v["description"] = self.text()
                h.setdefault("_cluster", {})[self.ch(("CLU%s", "BANK%s"))] = v
        return "peripheral " + k

    def step(self, rs):
        return rs[1]["addressOffset"] - rs[0]["addressOffset"] if len(rs) > 1 else 0

    def irq(self, p, ps):
        k = self.ch(("add", "add", "modify", "delete"))
        if not self.once(p["name"], "irq"):
            return None
        h = self.block(p, ps, [p])
        if k == "add":
            for n in self.r.sample(("XI0", "XI1", "XI2"), self.ch((1, 2))):
                if self.fail(0.5):
                    if not p["interrupts"]:
                        self.was_bad = False
                        return None
                    n = self.ch(p["interrupts"])["name"]
                h.setdefault("_add", {}).setdefault("_interrupts", {})[n] = {"description": self.text(), "value": self.r.randint(0, 90)}
        elif not p["interrupts"]:
            return None
        elif k == "modify":
            i = self.ch(p["interrupts"])
            s, m = self.ch(((self.pat(p["interrupts"], p["interrupts"]), {"value": self.r.randint(0, 90)}),
                            (self.pat(p["interrupts"], p["interrupts"]), {"description": self.text()}),
                            (i["name"], {"name": "INT_N"})))
            h.setdefault("_modify", {}).setdefault("_interrupts", {})[s] = m
        elif k == "delete":
            t = h.setdefault("_delete", {})
            if not isinstance(t, dict):
                return None
            t.setdefault("_interrupts", []).append(self.pat(p["interrupts"], p["interrupts"]))
        return "interrupts " + k + (" of derived" if "derivedFrom" in p else "")

    # -- clusters
    def clu(self):
        ps = self.d["peripherals"]
        own = [(p, c) for p in self.real() for c in p["children"] if c["k"] == "cluster"]
        if not own:
            return None
        p, c = self.ch(own)
        if not self.once(p["name"], c["name"]) or not self.once(p["name"], "names"):
            return None
        h = self.block(p, ps, [p]).setdefault("_clusters", {})
        cs = [x for x in p["children"] if x["k"] == "cluster"]
        spec = "NOSUCH" if self.fail(0.5) else self.pat(cs, [c])
        rs = c["children"]
        k = self.ch(("delete", "strip", "modify", "add"))
        v = h.setdefault(spec, {})
        if k == "delete":
            v["_delete"] = [self.pat(rs, rs[1:])]
        elif k == "strip":
            v["_strip" if self.p(0.5) else "_strip_end"] = [self.ch(("PRE_", "_X", "_CFG", "CH1_"))]
        elif k == "modify":
            v["_modify"] = {self.pat(rs, rs): self.ch(({"description": self.text()}, {"size": 16}, {"resetValue": 5}))}
        else:
            v["_add"] = {self.ch(rs)["name"] if self.fail() else "NR1": self.newreg(0x18)}
        return "cluster " + k

    # -- registers
    def reg(self):
        ps = self.d["peripherals"]
        p = self.ch(self.real())
        rs = [r for r in p["children"] if r["k"] == "register"]
        plain = [r for r in rs if "derivedFrom" not in r and r["fields"]]
        if not plain or (p["name"], "names") in self.used:
            return None
        r = self.ch(plain)
        fs = r["fields"]
        like = [x for x in plain if [(f["name"], f["off"], f["width"]) for f in x["fields"]] == [(f["name"], f["off"], f["width"]) for f in fs]]
        if not self.once(p["name"], r["name"], "reg"):
            return None
        h = self.block(p, ps, [p])
        if self.fail(0.05):
            rspec = "NOSUCH"
        else:
            rspec = self.opt(r["name"]) if len(like) == 1 or self.p(0.4) else self.pat(rs, like)
            for x in like:
                if match(x["name"], rspec) and x is not r and not self.once(p["name"], x["name"], "reg"):
                    return None
        if rspec in h:
            return None
        self.used.add((p["name"], "names"))
        h = h.setdefault(rspec, {})
        f = self.ch(fs)
        n = 0
        done = []
        for k in self.r.sample(("delete", "strip", "strip_end", "clear", "modify", "name", "add", "merge", "split", "enum", "enum2", "replace",
                                "sides", "range", "array", "constraint"), self.ch((1, 1, 1, 2, 3))):
            if k in ("delete", "strip", "strip_end", "name", "merge", "split", "array") and n:
                continue
            if getattr(self, "f_" + k)(h, fs, f):
                done.append(k)
                n += 100 if k in ("delete", "strip", "strip_end", "name", "merge", "split", "array") else 1
                if any(a in v for v in h.get("_modify", {}).values() for a in ("access", "bitOffset", "bitWidth")):
                    break
                if n >= 100:
                    break
        for k in done[1:]:
            self.tags.add("register " + k)
        return "register " + done[0] if done else None

    def f_delete(self, h, fs, f):
        if len(fs) < 2:
            return False
        h["_delete"] = [self.pat(fs, fs[1:])]
        return True

    def f_strip(self, h, fs, f):
        h["_strip"] = self.r.sample(("PRE_", "F_", "G_"), self.ch((1, 2)))
        return True

    def f_strip_end(self, h, fs, f):
        h["_strip_end"] = self.r.sample(("_X", "VL", "_[AB]"), self.ch((1, 2)))
        return True

    def f_clear(self, h, fs, f):
        h["_clear"] = [self.pat(fs, fs)]
        return True

    def f_modify(self, h, fs, f):
        ok = [x for x in fs if x["br"] == "offset"]
        a = self.ch(("description", "access", "bitOffset", "bitWidth", "modifiedWriteValues", "readAction"))
        if a in ("bitOffset", "bitWidth", "access"):
            ok = [x for x in ok if not x["enums"] and "wc" not in x]
            if not ok or h:
                return False
        else:
            ok = fs
        h.setdefault("_modify", {}).setdefault(self.pat(fs, ok), {})[a] = {
            "description": self.text(), "access": self.ch(ACC), "bitOffset": self.r.randint(0, 28), "bitWidth": self.r.randint(1, 3),
            "modifiedWriteValues": self.ch(("oneToClear", "set")), "readAction": self.ch(("clear", "modify"))}[a]
        return True

    def f_name(self, h, fs, f):
        h.setdefault("_modify", {}).setdefault(f["name"], {})["name"] = f["name"] + "N"
        return True

    def f_constraint(self, h, fs, f):
        w = min(x["width"] for x in fs)
        h.setdefault("_modify", {}).setdefault(self.pat(fs, fs), {})["_write_constraint" if self.p(0.7) else "writeConstraint"] = self.ch((
            "none", "enum", [0, (1 << w) - 1]))
        return True

    def f_add(self, h, fs, f):
        n = f["name"] if self.fail(0.7) else self.ch(("NF1", "NF2"))
        h["_add"] = {n: self.newfield(self.r.randint(0, 28))}
        return True

    def f_merge(self, h, fs, f):
        def bare(x):
            return not x["enums"] and "wc" not in x and "access" not in x
        by = sorted(fs, key=lambda x: x["off"])
        if by != fs:       # which description the merged field gets depends on the order in the file
            return False
        pairs = [(a, b) for a, b in zip(by, by[1:]) if a["off"] + a["width"] == b["off"] and bare(a) and bare(b)]
        ch = [x for x in by if x["name"].startswith("CH")]
        if self.fail():
            h["_merge"] = self.ch((["NOSUCH*"], {"MRG": "NOSUCH?"}, {"MRG": ["NOSUCH1", "NOSUCH2"]}))
        elif len(ch) > 1 and ch[1]["off"] == ch[0]["off"] + 1 and all(map(bare, ch)) and self.p(0.5):
            h["_merge"] = ["CH?E"]
        elif pairs:
            a, b = self.ch(pairs)
            h["_merge"] = {"MRG": self.ch(([a["name"], b["name"]], "%s,%s" % (a["name"], b["name"])))}
        else:
            return False
        return True

    def f_split(self, h, fs, f):
        ws = [x for x in fs if x["width"] > 1 and not x["enums"] and "wc" not in x and "access" not in x]
        if not ws:
            return False
        w = self.ch(ws)["name"]
        if self.fail():
            w = "NOSUCH"
        elif self.p(0.1):
            w = self.opt(w)
        if self.p(0.5):
            h["_split"] = [w]
        else:
            h["_split"] = {w: self.ch(({"name": "S%s"}, {"description": "bit %s"}, {"name": "Q%sX", "description": "b%s"}))}
        return True

    def f_array(self, h, fs, f):
        ch = sorted((x for x in fs if x["name"].startswith("CH")), key=lambda x: x["off"])
        if len(ch) < 2:
            return False
        v = {}
        if self.p(0.3):
            v["_start_from_zero"] = True
        if self.p(0.3):
            v["name"] = "CC%s"
        if self.p(0.5) or v.get("_start_from_zero") or ch[0]["name"] != "CH0E":
            v["description"] = self.ch(("_original", "n %s"))
        h["_array"] = {"NOSUCH*" if self.fail() else self.opt("CH?E"): v}
        return True

    def same_sort(self, h, fs, f, usage, clean=True):
        """A pattern for fields that can share an enumeration of this usage."""
        ok = [x for x in fs if x["width"] == f["width"] and x.get("access", "read-write") in ("read-write", usage) and x["name"] not in h
              and (not clean or not x["enums"])]
        if not ok:
            return None
        s = self.pat(fs, ok)
        for other in h:
            if not other.startswith("_") and any(match(x["name"], opt(other)[0]) and match(x["name"], s) for x in fs):
                return None
        return s

    def f_enum(self, h, fs, f):
        s = self.same_sort(h, fs, f, "read-write")
        if not s:
            return False
        v = self.enum(f["width"])
        if self.fail(0.9):
            j = self.r.randint(0, 3)
            if j == 0:
                v["Twice"] = [next(iter(v.values()))[0], "again"]
            elif j == 1:
                v = {"0" + k: x for k, x in v.items()}
            elif j == 2:
                s = "NOSUCH"
            else:
                e = [x for x in fs if x["enums"] and x["enums"][0]["usage"] == "read-write"]
                if not e:
                    self.was_bad = False
                    return False
                s = e[0]["name"]
        else:
            if self.p(0.2):
                v["_name"] = "ENM_" + f["name"]
            s = self.opt(s)
        h[s] = v
        return True

    f_enum2 = f_enum

    def f_replace(self, h, fs, f):
        e = [x for x in fs if not x["enums"] or x["enums"][0]["usage"] == "read-write"]
        if not e:
            return False
        f = self.ch([x for x in e if x["enums"]] or e)
        if f["name"] in h or f.get("access", "read-write") != "read-write" or any(match(f["name"], opt(o)[0]) for o in h if not o.startswith("_")):
            return False
        h[f["name"]] = {"_replace_enum": self.enum(f["width"])}
        return True

    def f_sides(self, h, fs, f):
        v = {}
        side = self.ch(("r", "w", "rw"))
        s = self.same_sort(h, fs, f, {"r": "read-only", "w": "write-only", "rw": "read-write"}[side])
        if not s:
            return False
        act = True
        if "r" in side:
            k = self.ch(("_read", "_read", "_RM", "_RS", "_RC", "_RME"))
            v[k] = self.enum(f["width"]) if k == "_read" or self.p(0.6) else {}
        if "w" in side:
            k = self.ch(("_write", "_write", "_WM", "_WS", "_WC", "_W1S", "_W0C", "_W1C", "_W0S", "_W1T", "_W0T"))
            v[k] = self.enum(f["width"]) if k == "_write" or self.p(0.6) else {}
        h[self.opt(s)] = v
        return True

    def f_range(self, h, fs, f):
        ok = [x for x in fs if x["width"] >= f["width"] and "wc" not in x and x.get("access") != "read-only"]
        if not ok:
            return False
        s = "NOSUCH" if self.fail(0.8) else self.opt(self.pat(fs, ok))
        if s in h:
            return False
        h[s] = [0, self.r.randint(0, (1 << f["width"]) - 1)]
        return True

    def enum(self, w):
        n = self.r.randint(1, min(1 << w, 3))
        vs = self.r.sample(range(1 << w), n)
        h = {nm: [v, self.text()] for nm, v in zip(self.r.sample(("Off", "On", "Slow", "Fast", "Div2"), n), vs)}
        if self.p(0.1):
            h["Rest"] = [-1, "rest"]
        return h


# ------------------------------------------------------------------ comparison
def canon(d):
    """Content of a device without the order of siblings and without ways of writing the same thing."""
    d = clone(d)
    d.pop("schemaVersion", None)

    def field(f, acc, named):
        acc = f.get("access", acc)
        f.pop("br", None)
        if f.get("modifiedWriteValues") == "modify":
            del f["modifiedWriteValues"]
        for e in f["enums"]:
            u = e.get("usage", named.get(e.get("derivedFrom"), "read-write"))
            e["usage"] = u
            if u == "read-write" or (u, acc) in (("read", "read-only"), ("write", "write-only")):
                e.pop("usage", None)
            e["values"].sort(key=lambda v: (v.get("value", -1), v["name"]))
        f["enums"].sort(key=lambda e: str(e.get("usage", "")))

    def rc(n, acc):
        acc = n.get("access", acc)
        if n["k"] == "register":
            named = {e["name"]: e.get("usage", "read-write") for f in n["fields"] for e in f["enums"] if "name" in e}
            for f in n["fields"]:
                field(f, acc, named)
            n["fields"].sort(key=lambda f: (f["name"], f["off"]))
        else:
            for x in n["children"]:
                rc(x, acc)
            n["children"].sort(key=lambda x: (x["k"], x["name"], x["addressOffset"]))

    for p in d["peripherals"]:
        for x in p["children"]:
            rc(x, p.get("access", d.get("access", "read-write")))
        p["children"].sort(key=lambda x: (x["k"], x["name"], x["addressOffset"]))
        p["interrupts"].sort(key=lambda x: x["name"])
    d["peripherals"].sort(key=lambda p: p["name"])
    return norm(d)
