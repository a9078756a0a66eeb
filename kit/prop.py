"""Rule proposers: grow a patch rule by rule against a device model."""
import re

from . import ref
from .gen import Gen, esc, ACC, MWV, EVN
from .model import clone, norm
from .ref import Reject, Unspecified, match, opt
from .yamlout import Raw



class Skip(Exception):
    pass


def hx(n):
    return "0x%x" % n


class Prop:
    def __init__(self, g, dev, enum_derive="enum", other=None, notation=0.3, placeholders=0.15):
        self.g, self.dev, self.cur = g, dev, dev
        self.enum_derive = enum_derive
        self.other = other
        self.y = {}
        self.kept = []
        self.reject = None
        self.notation = notation
        self.placeholders = placeholders
        self.opt_rate = 0.12
        self.loader = (lambda f: other if f == "other.svd" else None)
        self.missing_rate = 0.02
        self.clu = 0.3
        self.reuse = None           # how often a rule goes to a block that is already there

    # ------------------------------------------------------------ growth
    def grow(self, weights, n, refuse=0.1, tries=None, noop=0.15, reject_from=None, reject_ok=None):
        names = list(weights)
        ws = [weights[k] for k in names]
        tries = tries or n * 5
        while n > 0 and tries > 0:
            tries -= 1
            name = self.g.r.choices(names, ws)[0]
            cand = clone(self.y)
            try:
                tag = getattr(self, "r_" + name)(cand) or name
            except (Skip, IndexError):
                continue
            if cand == self.y:
                continue
            try:
                new = ref.apply(self.dev, cand, self.enum_derive, self.loader)
            except Reject as e:
                if self.g.p(refuse) and (reject_from is None or name in reject_from) and (
                        reject_ok is None or reject_ok(str(e))):
                    self.y, self.reject = cand, (tag, str(e))
                    self.kept.append(tag)
                    return
                continue
            except Unspecified:
                continue
            eff = norm(new) != norm(self.cur)
            if not eff and not self.g.p(noop):
                continue
            self.y, self.cur = cand, new
            self.kept.append(tag if eff else tag + "~")
            n -= 1

    def state(self):
        return self.cur if self.g.p(0.65) else self.dev

    # ------------------------------------------------------------ values
    def num(self, n):
        g = self.g
        if n < 0 or not g.p(self.notation):
            return n
        k = g.r.randint(0, 7)
        if k == 0:
            return Raw("0x%X" % n)
        if k == 1:
            return "0x%x" % n
        if k == 2:
            return "0X%X" % n
        if k == 3:
            return "%d" % n
        if k == 4:
            return "#%s" % g.ch([bin(n)[2:], bin(n)[2:].replace("0", "x")])
        if k == 5:
            return "0b%s" % g.ch([bin(n)[2:], bin(n)[2:].replace("0", "x")])
        if k == 6:
            s = "%d" % n
            return s[:1] + "_" + s[1:] if len(s) > 1 else s
        s = "%x" % n
        return "0x" + s[:1] + "_" + s[1:] if len(s) > 1 else "0x" + s

    def text(self, kind=None):
        t = self.g.text()
        if self.g.p(self.placeholders):
            for _ in range(self.g.r.randint(1, 2)):
                t += " " + self.g.ch(["`peripheral`", "`block_path`", "`register`", "`register_path`", "`periph`",
                                      "``"]) + self.g.ch(["", ".", "x `y"])
        return t

    def ident(self):
        return self.g.ch(["NEW", "ADDED", "X9", "CR1", "CR3", "TIM1", "TIM9", "NEW_A", "GPIOA", "EN7", "FX"]) + \
            (str(self.g.r.randint(0, 9)) if self.g.p(0.4) else "")

    def optspec(self, s, rate=None):
        return "?~" + s if self.g.p(self.opt_rate if rate is None else rate) and not s.startswith("?~") else s

    def pick(self, names, exact=0.4, allow_opt=True):
        """A pattern for one of the names."""
        names = list(names)
        if self.g.p(self.missing_rate):
            s = self.g.missing()
            return self.optspec(s, 0.4) if allow_opt else s
        if not names:
            raise Skip
        s = self.g.pattern(self.g.ch(names), names, False, exact)
        return self.optspec(s) if allow_opt else s

    def dim(self, h, n=None, inc=4):
        n = n or self.g.r.randint(1, 4)
        h["dim"] = self.num(n)
        h["dimIncrement"] = self.num(inc * self.g.ch([1, 1, 2]))
        if self.g.p(0.6):
            ix = self.g.ch([[str(i) for i in range(n)], [str(i + 2) for i in range(n)], list("ABCDEF")[:n]])
            if self.g.p(0.6):
                h["dimIndex"] = ix
            elif n > 1 and self.g.p(0.6):
                h["dimIndex"] = "%s-%s" % (ix[0], ix[-1])
            else:
                h["dimIndex"] = ",".join(ix)
        if self.g.p(0.08):
            h["dimName"] = "DimT"
        if self.g.p(0.08):
            h["dimArrayIndex"] = {"headerEnumName": "IdxE", **{"ix%d" % i: [i, self.text()] for i in range(n)}}
        return h

    def props(self, h, pr=0.4):
        g = self.g
        if g.p(pr):
            h["size"] = self.num(g.ch([8, 16, 32, 64]))
        if g.p(pr):
            h["access"] = g.ch(ACC)
        if g.p(pr):
            h["resetValue"] = self.num(g.r.getrandbits(g.ch([1, 7, 8, 15])))
        if g.p(pr * 0.6):
            h["resetMask"] = self.num(g.ch([0xFF, 0xFFFF, 0xFFFFFFFF]))
        if g.p(pr * 0.3):
            h["protection"] = g.ch(["s", "n", "p"])
        return h

    def wcrule(self):
        g = self.g
        k = g.r.randint(0, 5)
        if k == 0:
            return "none"
        if k == 1:
            return "enum"
        if k == 2 and g.p(0.15):
            return g.ch(["all", "range", [1], [0, 1, 1]])
        a = g.r.randint(0, 1)
        return [self.num(a), self.num(g.r.randint(a, g.ch([1, 3, 7])))]

    def field_attrs(self, h, add=False):
        g = self.g
        if add or g.p(0.2):
            w = g.ch([1, 1, 2, 3, 4])
            o = g.r.randint(0, 31 - w)
            k = g.r.randint(0, 3)
            if k == 0:
                h["bitRange"] = "[%d:%d]" % (o + w - 1, o)
            elif k == 1:
                h["lsb"], h["msb"] = self.num(o), self.num(o + w - 1)
            else:
                h["bitOffset"], h["bitWidth"] = self.num(o), self.num(w)
            if not add and g.p(0.5):
                h = {k2: v for k2, v in h.items() if k2 != "bitOffset"}
        if g.p(0.6):
            h["description"] = self.text()
        if g.p(0.3):
            h["access"] = g.ch(ACC)
        if g.p(0.15):
            h["modifiedWriteValues"] = g.ch(MWV)
        if g.p(0.15):
            h["readAction"] = g.ch(ref.RA)
        if g.p(0.2):
            h[g.ch(["_write_constraint", "writeConstraint"])] = self.wcrule()
        return h

    def reg_attrs(self, h, add=False):
        g = self.g
        if add or g.p(0.12):
            h["addressOffset"] = self.num(g.ch([0, 4, 8, 0xC, 0x10, 0x14, 0x30, 0x100]))
        if g.p(0.6):
            h["description"] = self.text()
        if g.p(0.25):
            h["displayName"] = self.g.ch(["Disp", "CR one", "X"])
        if g.p(0.08):
            h["alternateGroup"] = "ALTG"
        if g.p(0.08):
            h["alternateRegister"] = "ALTR"
        if g.p(0.08):
            h["dataType"] = g.ch(ref.DATATYPE)
        if g.p(0.08):
            h["modifiedWriteValues"] = g.ch(MWV)
        if g.p(0.08):
            h["readAction"] = g.ch(ref.RA)
        self.props(h, 0.25)
        if g.p(0.08):
            h[g.ch(["_write_constraint", "writeConstraint"])] = self.wcrule()
        if g.p(0.6 if add else 0.08):
            fs = {}
            for nm in g.r.sample(["FA", "FB", "FC", "EN0", "EN1", "FD"], g.r.randint(1, 3)):
                fs[nm] = self.field_attrs({}, True)
                if g.p(0.1):
                    del fs[nm]
                    fs[nm + "%s"] = self.dim(self.field_attrs({}, True), inc=2)
            if fs:
                h["fields"] = fs
        return h

    # ------------------------------------------------------------ places
    def per_at(self, cand, derived=False):
        ps = [p for p in self.state()["peripherals"] if derived or "derivedFrom" not in p]
        if not ps:
            raise Skip
        if self.reuse and self.g.p(self.reuse):
            ps = [p for p in ps if any(k not in ref.DEV_KW and match(p["name"], opt(k)[0]) for k in cand)] or ps
        p = self.g.ch(ps)
        ks = [k for k in cand if k not in ref.DEV_KW and match(p["name"], opt(k)[0])]
        if ks and self.g.p(self.reuse or 0.75):
            k = self.g.ch(ks)
        else:
            names = [q["name"] for q in self.cur["peripherals"]]
            k = self.optspec(self.g.pattern(p["name"], names, False, 0.7))
        return cand.setdefault(k, {}), p

    forced = None
    chain = ()

    def block_at(self, cand, clu=None):
        if self.forced:
            return self.forced
        clu = self.clu if clu is None else clu
        blk, node = self.per_at(cand)
        path = True
        self.chain = [node]
        while self.g.p(clu):
            cs = [c for c in node["children"] if c["k"] == "cluster" and "derivedFrom" not in c]
            if not cs:
                break
            c = self.g.ch(cs)
            names = [x["name"] for x in node["children"]]
            if self.g.p(0.5):
                d = blk.setdefault("_clusters", {})
            else:
                d = blk
            ks = [k for k in d if k not in ref.PER_KW and match(c["name"], opt(k)[0]) and isinstance(d[k], dict)]
            k = self.g.ch(ks) if ks and self.g.p(self.reuse or 0.6) else self.optspec(self.g.pattern(c["name"], names, False, 0.6))
            if k in ref.PER_KW:
                raise Skip
            blk, node, path = d.setdefault(k, {}), c, False
            if not isinstance(blk, dict):
                raise Skip
            self.chain.append(node)
        return blk, node, path

    def names(self, node, k=None):
        return [c["name"] for c in node["children"] if k is None or c["k"] == k]

    def reg_at(self, cand):
        blk, node, _ = self.block_at(cand)
        rs = [c for c in node["children"] if c["k"] == "register" and
              ("derivedFrom" not in c or self.g.p(0.1))]
        if not rs:
            raise Skip
        if self.reuse and self.g.p(self.reuse):
            rs = [r for r in rs if any(k not in ref.PER_KW and match(r["name"], opt(k)[0]) for k in blk)] or rs
        r = self.g.ch(rs)
        ks = [k for k in blk if k not in ref.PER_KW and match(r["name"], opt(k)[0])]
        if ks and self.g.p(self.reuse or 0.7):
            k = self.g.ch(ks)
        else:
            k = self.optspec(self.g.pattern(r["name"], self.names(node), False, 0.65))
        if k in ref.PER_KW:
            raise Skip
        return blk.setdefault(k, {}), r

    # ------------------------------------------------------------ device level
    def r_dev_delete(self, c):
        names = [p["name"] for p in self.state()["peripherals"]]
        s = self.pick(names, allow_opt=False)
        v = c.get("_delete")
        if v is None and self.g.p(0.3):
            c["_delete"] = s
        elif isinstance(v, str):
            c["_delete"] = [v, s]
        else:
            c.setdefault("_delete", []).append(s)

    def r_dev_copy(self, c):
        g = self.g
        names = [p["name"] for p in self.state()["peripherals"]]
        to = g.ch(names) if g.p(0.5) else self.ident()
        if self.other and g.p(0.4):
            o = [p["name"] for p in self.other["peripherals"]]
            src = "other.svd:" + (g.ch(o) if g.p(0.93) else "NOPE")
        else:
            src = g.ch(names) if g.p(0.95) else "NOPE"
        c.setdefault("_copy", {})[to] = {"from": src}

    def r_dev_attr(self, c):
        g = self.g
        m = c.setdefault("_modify", {})
        k = g.ch(["vendor", "vendorID", "name", "series", "version", "description", "licenseText",
                  "headerSystemFilename", "headerDefinitionsPrefix", "addressUnitBits", "width", "size", "resetValue",
                  "resetMask", "access", "protection"])
        if k in ("addressUnitBits", "width", "size"):
            m[k] = self.num(g.ch([8, 16, 32, 64, 1, 4]))
        elif k in ("resetValue", "resetMask"):
            m[k] = self.num(g.r.getrandbits(8))
        elif k == "access":
            m[k] = g.ch(ACC)
        elif k == "protection":
            m[k] = g.ch(["s", "n", "p"])
        else:
            m[k] = g.ch(["new " + k, g.text(), "x & <y>"])

    def boolean(self, v):
        """A truth value in one of its notations."""
        return self.g.ch([v, v, v, int(v), str(v), str(v).lower()])

    def r_dev_cpu(self, c):
        g = self.g
        m = c.setdefault("_modify", {}).setdefault("cpu", {})
        if g.p(0.4):
            m.update({"name": "CM4", "revision": "r2p1", "endian": g.ch(["little", "big", "selectable", "other"]),
                      "mpuPresent": self.boolean(g.p(0.5)), "fpuPresent": self.boolean(g.p(0.5)),
                      "nvicPrioBits": self.num(4), "vendorSystickConfig": self.boolean(g.p(0.5))})
        for k in g.r.sample(["fpuDP", "dspPresent", "icachePresent", "dcachePresent", "itcmPresent", "dtcmPresent",
                             "vtorPresent", "mpuPresent", "fpuPresent"], g.r.randint(0, 3)):
            m[k] = self.boolean(g.p(0.5))
        for k in g.r.sample(["deviceNumInterrupts", "sauNumRegions", "nvicPrioBits"], g.r.randint(0, 2)):
            m[k] = self.num(g.r.randint(0, 9))
        if g.p(0.3):
            m["revision"] = "r9p%d" % g.r.randint(0, 9)

    def irq_attrs(self, h, add=False):
        g = self.g
        if add or g.p(0.5):
            h["value"] = self.num(g.r.randint(0, 99))
        if g.p(0.5):
            h["description"] = g.text()
        if not add and g.p(0.2):
            h["name"] = "IRQ_R%d" % g.r.randint(0, 9)
        return h

    def ab(self):
        g = self.g
        return {"offset": self.num(g.ch([0, 0x10, 0x100])), "size": self.num(g.ch([0x20, 0x400])),
                "usage": g.ch(["registers", "buffer", "reserved"])}

    def r_dev_per(self, c):
        g = self.g
        ps = self.state()["peripherals"]
        p = g.ch(ps)
        m = c.setdefault("_modify", {})
        if g.p(0.5):
            m = m.setdefault("_peripherals", {})
        ks = [k for k in m if k not in ("cpu", "_peripherals") and isinstance(m[k], dict) and match(p["name"], k)]
        k = g.ch(ks) if ks and g.p(0.4) else self.pick([q["name"] for q in ps], 0.5, False)
        if k in ("cpu", "name", "width", "size", "_peripherals"):
            raise Skip
        h = m.setdefault(k, {})
        for a in g.r.sample(ref.PER_STR, g.r.randint(0, 2)):
            h[a] = g.text() if g.p(0.85) else ""
        if g.p(0.15):
            h["baseAddress"] = self.num(0x50000000 + 0x400 * g.r.randint(0, 9))
        if g.p(0.2):
            self.props(h)
        if g.p(0.2) and p["interrupts"]:
            i = g.ch(p["interrupts"])
            h["interrupts"] = {i["name"]: self.irq_attrs({})}
        if g.p(0.2):
            if g.p(0.5):
                h["addressBlock"] = self.ab()
                if g.p(0.4):
                    h["addressBlock"].pop(g.ch(list(h["addressBlock"])))
            else:
                h["addressBlocks"] = [self.ab() for _ in range(g.r.randint(1, 2))]
        if g.p(0.25):
            h["name"] = g.ch(["RENAMED", "TIM77", p["name"] + "_R", "REN%s", ""])
        if g.p(0.04):
            h["registers"] = {"CR": self.reg_attrs({}, True)}
        if g.p(0.03):
            h["derivedFrom"] = g.ch([q["name"] for q in ps])
        if not h:
            raise Skip

    def r_dev_clear(self, c):
        s = self.pick([p["name"] for p in self.state()["peripherals"]], 0.3, False)
        c.setdefault("_clear_fields", []).append(s)

    def per_new(self, h):
        g = self.g
        if g.p(0.95):
            h["baseAddress"] = self.num(g.ch([0x40000000 + 0x400 * g.r.randint(0, 40), 0x60000000, 0x1000]))
        for a in g.r.sample(ref.PER_STR, g.r.randint(0, 3)):
            h[a] = g.text()
        self.props(h, 0.2)
        if g.p(0.5):
            h["addressBlock"] = self.ab()
        elif g.p(0.3):
            h["addressBlocks"] = [self.ab() for _ in range(2)]
        if g.p(0.4):
            h["interrupts"] = {n: self.irq_attrs({}, True) for n in g.r.sample(["I_A", "I_B", "I_C"], g.r.randint(1, 2))}
        if g.p(0.7):
            h["registers"] = {n: self.reg_attrs({}, True)
                              for n in g.r.sample(["CR1", "CR2", "SR", "DR", "BB"], g.r.randint(1, 3))}
            if g.p(0.2):
                h["registers"]["ARR%s"] = self.dim(self.reg_attrs({}, True))
        return h

    def r_dev_add(self, c):
        g = self.g
        names = [p["name"] for p in self.state()["peripherals"]]
        n = self.ident() if g.p(0.93) else g.ch(names)
        h = self.per_new({})
        if g.p(0.1):
            n += "%s"
            self.dim(h, inc=0x1000)
        elif g.p(0.1):
            h["derivedFrom"] = g.ch(names)
            h.pop("registers", None)
        c.setdefault("_add", {})[n] = h

    def r_dev_derive(self, c):
        g = self.g
        names = [p["name"] for p in self.state()["peripherals"]]
        src = g.ch(names) if g.p(0.96) else "NOPE"
        d = c.setdefault("_derive", {})
        if len(names) > 2 and g.p(0.12):
            ch = g.r.sample(names, g.r.randint(3, len(names)))
            for a, b in zip(ch, ch[1:]):
                d[b] = a if g.p(0.5) else {"_from": a}
            if g.p(0.6):
                d.pop(ch[0], None)
                d[ch[0]] = g.ch(ch[1:] + ch[-1:] * 3)
            return
        if g.p(0.6):
            to = g.ch(names)
            if g.p(0.6):
                d[to] = src
            else:
                h = {"_from": src}
                if g.p(0.5):
                    h["description"] = g.text()
                if g.p(0.4):
                    h["baseAddress"] = self.num(0x48000000 + 0x400 * g.r.randint(0, 9))
                if g.p(0.2):
                    h["groupName"] = "GG"
                if g.p(0.1):
                    self.dim(h, inc=0x1000)
                d[to] = h
        else:
            h = {"_from": src, "baseAddress": self.num(0x48000000 + 0x400 * g.r.randint(0, 9))}
            if g.p(0.5):
                h["description"] = g.text()
            if g.p(0.3):
                h["displayName"] = "D"
            n = self.ident()
            if g.p(0.25):
                n += "%s"
                self.dim(h, inc=0x1000)
            x = self.per_new({})
            h.update((k, x[k]) for k in ("interrupts", "addressBlock", "addressBlocks", "version") if k in x and g.p(0.5))
            d[n] = h

    def r_dev_rebase(self, c):
        names = [p["name"] for p in self.state()["peripherals"]]
        ps = self.state()["peripherals"]
        der = [p for p in ps if "derivedFrom" in p and p["derivedFrom"] in names]
        if der and self.g.p(0.8):
            p = self.g.ch(der)
            c.setdefault("_rebase", {})[p["name"]] = p["derivedFrom"]
        elif len(names) > 1:
            a, b = self.g.r.sample(names, 2)
            c.setdefault("_rebase", {})[a] = b
        else:
            raise Skip

    # ------------------------------------------------------------ block level
    def r_delete(self, c):
        g = self.g
        blk, node, isper = self.block_at(c)
        v = blk.get("_delete")
        kinds = ["_registers", "_clusters"] + (["_interrupts"] if isper else [])
        if isinstance(v, dict) or v is None and g.p(0.4):
            k = g.ch(kinds)
            d = blk.setdefault("_delete", {})
            if k == "_interrupts":
                s = self.pick([i["name"] for i in node["interrupts"]], allow_opt=False)
            elif k == "_clusters":
                s = self.pick(self.names(node, "cluster") or (["NOPE"] if g.p(0.5) else []))
            else:
                s = self.pick(self.names(node, "register") or (["NOPE"] if g.p(0.2) else []), allow_opt=False)
            if g.p(0.2) and k not in d:
                d[k] = s
            else:
                x = d.setdefault(k, [])
                if isinstance(x, str):
                    x = d[k] = [x]
                x.append(s)
        else:
            s = self.pick(self.names(node), allow_opt=False)
            if v is None and g.p(0.3):
                blk["_delete"] = s
            elif isinstance(v, str):
                blk["_delete"] = [v, s]
            else:
                blk.setdefault("_delete", []).append(s)

    def r_irq(self, c, only=None):
        g = self.g
        blk, p = self.per_at(c, True)
        k = only or g.ch(["_delete", "_modify", "_add"])
        names = [i["name"] for i in p["interrupts"]]
        if k == "_delete":
            d = blk.setdefault("_delete", {})
            if not isinstance(d, dict):
                raise Skip
            x = d.setdefault("_interrupts", [])
            if not isinstance(x, list):
                raise Skip
            x.append(self.pick(names, allow_opt=False))
        elif k == "_modify":
            blk.setdefault("_modify", {}).setdefault("_interrupts", {})[self.pick(names, allow_opt=False)] = \
                self.irq_attrs({})
        else:
            n = g.ch(names) if names and g.p(0.1) else g.ch(["NEW_IRQ", "ZZ_IRQ", "TIM1_UP", "IRQ5"])
            blk.setdefault("_add", {}).setdefault("_interrupts", {})[n] = self.irq_attrs({}, True)
        return "irq" + k

    def r_copy(self, c):
        g = self.g
        blk, node, _ = self.block_at(c)
        rs = self.names(node, "register")
        if not rs:
            raise Skip
        to = g.ch(rs) if g.p(0.35) else self.ident()
        h = {"_from": g.ch(rs) if g.p(0.96) else "NOPE"}
        if g.p(0.8):
            self.reg_attrs(h, g.p(0.6))
        if g.p(0.15):
            if to not in rs:
                to += "%s"
            self.dim(h)
        d = blk.setdefault("_copy", {})
        if g.p(0.3):
            d = d.setdefault("_registers", {})
        d[to] = h

    def affix(self, names, end):
        """A pattern for a prefix/suffix that some name has."""
        g = self.g
        n = g.ch(names)
        if g.p(0.06):
            return g.ch(["NOPE_", "", "CR", "*", "?"])
        if not end:
            cuts = [m.end() for m in re.finditer("_", n)]
            k = g.ch(cuts) if cuts and g.p(0.7) else g.r.randint(1, len(n))
            a = n[:k]
        else:
            cuts = [m.start() for m in re.finditer("_", n)]
            k = g.ch(cuts) if cuts and g.p(0.7) else g.r.randint(0, len(n) - 1)
            a = n[k:]
        if "%" in a or "[" in a:
            raise Skip
        q = g.r.randint(0, 9)
        if q < 5 or not a:
            return esc(a)
        i = g.r.randrange(len(a))
        if q == 5:
            return a[:i] + "?" + a[i + 1:]
        if q == 6:
            return a[:i] + "[" + "".join(sorted({a[i], "A", "X"})) + "]" + a[i + 1:]
        if q == 7:
            return "{%s,ZZ_}" % a
        us = [j for j, ch in enumerate(a) if ch == "_"]
        if len(us) > 1:
            return a[:us[0] + 1] + "*" + a[us[1]:]
        if end:
            return "_*" if a.startswith("_") and g.p(0.5) else a
        return a if len(a) < 2 else a[0] + "*" + a[-1]

    def r_strip(self, c):
        g = self.g
        blk, node, _ = self.block_at(c)
        ns = [c2[k] for c2 in node["children"] for k in ref.NAMES[c2["k"]] if k in c2]
        if not ns:
            raise Skip
        end = g.p(0.5)
        self.push(blk, "_strip_end" if end else "_strip", self.affix(ns, end))
        return "strip_end" if end else "strip"

    def push(self, d, k, s):
        v = d.get(k)
        if v is None and self.g.p(0.5):
            d[k] = s
        elif isinstance(v, str):
            d[k] = [v, s]
        else:
            d.setdefault(k, []).append(s)

    def r_prefix(self, c):
        blk, node, _ = self.block_at(c)
        k = self.g.ch(["_prefix", "_suffix"])
        blk[k] = self.g.ch(["P_", "X", "_S", "CR"])

    def r_modify(self, c):
        g = self.g
        blk, node, isper = self.block_at(c)
        m = blk.setdefault("_modify", {})
        k = g.r.random()
        if k < 0.5:
            d, s = m, self.pick(self.names(node))
        elif k < 0.75:
            d, s = m.setdefault("_registers", {}), self.pick(self.names(node, "register"))
        else:
            d, s = m.setdefault("_clusters", {}), self.pick(self.names(node, "cluster"))
        if s in ("_registers", "_clusters", "_interrupts"):
            raise Skip
        h = self.reg_attrs({})
        if g.p(0.12):
            h["name"] = g.ch(["RENAMED", "REN%s", "REN%s", "REN[%s]", "CR1", ""])
        if g.p(0.12):
            self.dim(h)
            if g.p(0.3):
                h.pop(g.ch(list(h)))
            if g.p(0.7):
                h["name"] = g.ch(["REN%s", "REN[%s]"])
        if g.p(0.1):
            h[g.ch(["description", "displayName", "access", "alternateGroup", "alternateRegister", "headerStructName"])] = ""
        if g.p(0.1):
            h[g.ch(["headerStructName", "alternateCluster"])] = "HEAD_S"
        if g.p(0.03):
            h["derivedFrom"] = g.ch(self.names(node, "register") or ["X"])
        if not h:
            raise Skip
        d[s] = h

    def r_clear_fields(self, c):
        blk, node, _ = self.block_at(c, 0.35)

        def allnames(n):
            out = []
            for x in n["children"]:
                out += [x["name"]] if x["k"] == "register" else allnames(x)
            return out
        self.push(blk, "_clear_fields", self.pick(allnames(node), 0.3, False))

    def r_add(self, c):
        g = self.g
        blk, node, isper = self.block_at(c)
        a = blk.setdefault("_add", {})
        rs = self.names(node, "register")
        n = g.ch(rs) if rs and g.p(0.05) else self.ident()
        if g.p(0.3):
            h = {"addressOffset": self.num(g.ch([0, 4, 0x10, 0x44]))}
            if g.p(0.6):
                h["description"] = self.text()
            if g.p(0.15):
                h[g.ch(["headerStructName", "alternateCluster"])] = "HEAD_S"
            self.props(h, 0.2)
            if g.p(0.95):
                h["registers"] = {x: self.reg_attrs({}, True) for x in g.r.sample(["CR1", "SR", "Q"], g.r.randint(1, 2))}
                if g.p(0.2):
                    h["registers"][g.ch(["ARR%s", "ARR[%s]", "ARR"])] = self.dim(self.reg_attrs({}, True))
            cs = self.names(node, "cluster")
            if cs and g.p(0.12):
                n = g.ch(cs)
                if "%s" in n:
                    self.dim(h, inc=0x20)
                if "[%s]" in n:
                    h.pop("dimIndex", None)
            elif g.p(0.4):
                n += "%s"
                self.dim(h, inc=0x20)
            a.setdefault("_clusters", {})[n] = h
            return "add_cluster"
        h = self.reg_attrs({}, True)
        if g.p(0.2):
            n += g.ch(["%s", "[%s]"])
            self.dim(h)
            if "[" in n:
                h.pop("dimIndex", None)
        (a.setdefault("_registers", {}) if g.p(0.4) else a)[n] = h

    def r_derive(self, c):
        g = self.g
        blk, node, isper = self.block_at(c)
        rs = self.names(node, "register")
        if not rs:
            raise Skip
        k = g.r.random()
        src = g.ch(rs)
        if k > 0.97:
            src = "NOPE"
        elif k > 0.8:
            st = self.state()
            p = g.ch(st["peripherals"])
            x = [q["name"] for q in p["children"] if q["k"] == "register"]
            if not x:
                raise Skip
            src = "%s.%s" % (p["name"], g.ch(x))
        d = blk.setdefault("_derive", {})
        if g.p(0.25):
            d = d.setdefault("_registers", {})
        if len(rs) > 2 and g.p(0.08):
            # a chain, perhaps closed to a ring
            ch = g.r.sample(rs, g.r.randint(3, min(6, len(rs))))
            for a, b in zip(ch, ch[1:]):
                d[b] = a
            if g.p(0.6):
                d.pop(ch[0], None)
                d[ch[0]] = g.ch(ch[1:] + ch[-1:] * 3)
            return
        if g.p(0.65):
            to = self.pick(rs, 0.6)
            v = src
            if g.p(0.4):
                v = {"_from": src}
                self.reg_attrs(v, False)
                v.pop("fields", None)
                if g.p(0.15):
                    self.dim(v)
        else:
            to = self.ident()
            v = {"_from": src}
            self.reg_attrs(v, True)
            v.pop("fields", None)
            if g.p(0.2):
                to += "%s"
                self.dim(v)
        d[to] = v

    def r_expand_array(self, c):
        blk, node, _ = self.block_at(c)
        ns = [x["name"] for x in node["children"] if x["k"] == "register" and "dim" in x]
        if not ns:
            raise Skip
        blk.setdefault("_expand_array", {})[self.pick(ns, 0.5, False)] = {}

    def r_expand_cluster(self, c):
        g = self.g
        blk, node = self.per_at(c)
        cs = [x for x in node["children"] if x["k"] == "cluster"]
        ns = [x["name"] for x in cs if "dim" in x or g.p(0.1)]
        if not ns:
            raise Skip
        s = self.pick(ns, 0.5)
        v = blk.get("_expand_cluster")
        if v is None and g.p(0.2):
            blk["_expand_cluster"] = s
        elif isinstance(v, list) or v is None and g.p(0.3):
            blk.setdefault("_expand_cluster", []).append(s)
        elif v is None or isinstance(v, dict):
            h = {}
            if g.p(0.4):
                h["_preindex"] = g.ch(["", "_", "N"])
            if g.p(0.4):
                h["_postindex"] = g.ch(["", "_", "__"])
            if g.p(0.3):
                h["_zeroindex"] = self.boolean(g.p(0.7))
            if g.p(0.15):
                h["_noprefix"] = self.boolean(g.p(0.8))
            blk.setdefault("_expand_cluster", {})[s] = h
        else:
            raise Skip

    def templates(self, names):
        t = {}
        for n in names:
            for m in re.finditer(r"\d+|[A-F]", n):
                t.setdefault((n[:m.start()], n[m.end():]), []).append(m.group())
        return {k: v for k, v in t.items() if len(set(v)) > 1}

    def wild(self, idx):
        g = self.g
        one = all(len(i) == 1 for i in idx)
        k = g.r.randint(0, 5)
        if k == 0 and one:
            return "?"
        if one and all(i.isdigit() for i in idx) and k in (1, 2):
            return g.ch(["[0-9]", "[%s-%s]" % (min(idx), max(idx)),
                         "[" + "".join(sorted(idx)) + "]"])
        if one and all(i.isalpha() for i in idx) and k in (1, 2):
            return g.ch(["[A-Z]", "[" + "".join(sorted(idx)) + "]", "[%s-%s]" % (min(idx), max(idx))])
        if not one and all(len(i) == 2 for i in idx) and k == 0:
            return "??"
        return "*"

    def array_value(self, h):
        g = self.g
        if g.p(0.3):
            h["name"] = g.ch(["ARRN%s", "ARRX[%s]", "NEW%s_A"])
        if g.p(0.35):
            h["description"] = g.ch(["_original", self.g.text(), "Word %s of many"])
        if g.p(0.25):
            h["_start_from_zero"] = g.ch(["", True])
        return h

    def r_array(self, c):
        g = self.g
        blk, node, _ = self.block_at(c, 0.25)
        rs = [x for x in node["children"] if x["k"] == "register" and "dim" not in x]
        t = self.templates([x["name"] for x in rs])
        if not t:
            raise Skip
        (pre, post), idx = g.ch(sorted(t.items()))
        s = pre + self.wild(idx) + post
        if g.p(0.04):
            s = "{%s,%s}" % (pre + idx[0] + post, pre + idx[1] + post)
        if g.p(0.06):
            s = g.ch([pre + idx[0] + "*", pre + "[" + idx[0] + "]" + post])
        h = self.array_value({})
        if g.p(0.25):
            h["displayName"] = g.ch(["_original", "DN%s"])
        if g.p(0.25):
            sel = [x for x in rs if match(x["name"], s) and "derivedFrom" not in x]
            if sel:
                self.reg_rule(h, min(sel, key=lambda x: x["addressOffset"]))
        if g.p(0.1):
            h["dimIncrement"] = self.num(g.ch([4, 8]))
        blk.setdefault("_array", {})[self.optspec(s)] = h

    def r_cluster(self, c):
        g = self.g
        blk, node, isper = self.block_at(c, 0.15)
        rs = [x for x in node["children"] if x["k"] == "register"]
        cl = blk.setdefault("_cluster", {})
        used = {k for v in cl.values() for k in v}
        y, inside = {}, []
        if g.p(0.25):
            n = g.r.randint(1, min(3, len(rs))) if rs else 0
            if not n:
                raise Skip
            name = g.ch(["GRP", "BLOCK", "CTRLX"])
            sel = g.r.sample(rs, n)
            t = self.templates([x["name"] for x in rs])
            if t and g.p(0.4):
                (pre, post), idx = g.ch(sorted(t.items()))
                sel = [x for x in rs if x["name"] in {pre + i + post for i in idx}][:4]
            for r in sel:
                inside.append(r)
                v = {}
                if g.p(0.2):
                    v["name"] = g.ch(["INNER", r["name"] + "_I"])
                if g.p(0.2) and "derivedFrom" not in r:
                    self.reg_rule(v, r)
                y[self.optspec(g.pattern(r["name"], [r["name"]], False, 0.8), 0.1)] = v
        else:
            t = self.templates([x["name"] for x in rs])
            by = {}
            for k, v in t.items():
                by.setdefault(tuple(sorted(set(v))), []).append((k, v))
            if not by:
                raise Skip
            groups = sorted(by.values(), key=lambda z: (-len(z), z[0][0]))
            grp = groups[0] if g.p(0.7) else g.ch(groups)
            sel = g.r.sample(grp, g.r.randint(1, min(3, len(grp))))
            if g.p(0.2):
                # groups of as many registers under other indexes
                like = [(k, v) for k, v in t.items() if len(set(v)) == len(set(sel[0][1])) and set(v) != set(sel[0][1])]
                if like:
                    sel = sel[:1] + [g.ch(like)]
            name = g.ch(["CHAN%s", "GRPS[%s]", "UNIT%s", "CLU%s_X"])
            for (pre, post), idx in sel:
                v = {}
                if g.p(0.5):
                    v["name"] = g.ch([(pre + post).strip("_") or "REG", "CFG", "R%s" % g.r.randint(0, 3)])
                fr = [x for x in rs if match(x["name"], pre + "*" + post)]
                if fr:
                    inside.append(dict(min(fr, key=lambda x: x["addressOffset"]),
                                       name=v.get("name") or pre + post or "R"))
                if g.p(0.2):
                    v["description"] = self.text()
                if g.p(0.15):
                    fr = [x for x in rs if match(x["name"], pre + "*" + post) and "derivedFrom" not in x]
                    if fr:
                        self.reg_rule(v, min(fr, key=lambda x: x["addressOffset"]))
                w = self.wild(idx) if g.p(0.97) else g.ch([idx[0], "{%s,%s}" % (idx[0], idx[-1]), "?*", "[!x]"])
                y[self.optspec(pre + w + post, 0.1)] = v
            if g.p(0.15):
                y["dimIncrement"] = self.num(g.ch([4, 8, 0x10, 0x40]))
        if g.p(0.4):
            y["description"] = self.text()
        if g.p(0.1):
            y["_prefix"] = "Z_"
        if g.p(0.08):
            y["_modify"] = {"*": {"description": self.text()}}
        if name in cl:
            raise Skip
        if inside and g.p(0.35):
            # sections of the cluster that is made; they see its registers
            saved, self.forced = self.forced, (y, {"k": "cluster", "name": name, "addressOffset": 0, "children": inside}, False)
            try:
                for _ in range(g.r.randint(1, 2)):
                    n = g.ch(["r_array", "r_array", "r_cluster", "r_delete", "r_modify", "r_add", "r_copy", "r_derive",
                              "r_strip", "r_prefix", "r_expand_array", "r_clear_fields"])
                    try:
                        getattr(self, n)(None)
                    except Skip:
                        pass
            finally:
                self.forced = saved
        cl[name] = y
        if any(k in y for k in ("_array", "_cluster", "_expand_array")):
            return "cluster_collects"
        if any(k in ref.PER_KW for k in y):
            return "cluster_sections"

    # ------------------------------------------------------------ register level
    REGW = {"f_delete": 2, "f_strip": 2, "f_prefix": 1, "f_clear": 2, "f_modify": 4, "f_add": 2, "f_derive": 2,
            "f_merge": 2, "f_split": 2, "f_enum": 8, "f_range": 2, "f_array": 3}

    def reg_rule(self, h, r, only=None):
        w = only or self.REGW
        k = self.g.r.choices(list(w), list(w.values()))[0]
        return getattr(self, k)(h, r) or k

    def r_reg(self, c, only=None):
        h, r = self.reg_at(c)
        if not isinstance(h, dict):
            raise Skip
        return self.reg_rule(h, r, only)

    def __getattr__(self, n):
        if n.startswith("r_irq_"):
            return lambda c: self.r_irq(c, n[5:])
        if n.startswith("r_f_"):
            k = n[2:]
            return lambda c: self.r_reg(c, {k: 1})
        raise AttributeError(n)

    def fnames(self, r):
        ns = [f["name"] for f in r["fields"]]
        if not ns:
            raise Skip
        return ns

    def f_delete(self, h, r):
        self.push(h, "_delete", self.pick(self.fnames(r), allow_opt=False))

    def f_strip(self, h, r):
        end = self.g.p(0.5)
        self.push(h, "_strip_end" if end else "_strip", self.affix(self.fnames(r), end))

    def f_prefix(self, h, r):
        h[self.g.ch(["_prefix", "_suffix"])] = self.g.ch(["P_", "Q", "_S"])

    def f_clear(self, h, r):
        self.push(h, "_clear", self.pick(self.fnames(r), 0.3, False))

    def f_modify(self, h, r):
        g = self.g
        v = self.field_attrs({})
        if g.p(0.1):
            v["name"] = g.ch(["RENF", "RENF%s", "EN0", "3RD", ""])
        if g.p(0.08):
            self.dim(v, inc=1)
            if g.p(0.3):
                v.pop(g.ch(list(v)))
            if g.p(0.7):
                v["name"] = "RENF%s"
        if g.p(0.08):
            v[g.ch(["description", "access"])] = ""
        if not v:
            raise Skip
        h.setdefault("_modify", {})[self.pick(self.fnames(r))] = v

    def f_add(self, h, r):
        g = self.g
        n = g.ch(self.fnames(r)) if g.p(0.06) and r["fields"] else self.ident()
        if g.p(0.04):
            n = "2ND"
        v = self.field_attrs({}, True)
        if g.p(0.1):
            n += "%s"
            self.dim(v, 2, 2)
        if g.p(0.03):
            v.pop(g.ch(list(v)))
        h.setdefault("_add", {})[n] = v

    def f_derive(self, h, r):
        g = self.g
        ns = self.fnames(r)
        if len(set(ns)) > 2 and g.p(0.1):
            d = h.setdefault("_derive", {})
            ch = g.r.sample(sorted(set(ns)), g.r.randint(3, min(6, len(set(ns)))))
            for a, b in zip(ch, ch[1:]):
                d[b] = a if g.p(0.5) else {"_from": a}
            if g.p(0.6):
                d.pop(ch[0], None)
                d[ch[0]] = g.ch(ch[1:] + ch[-1:] * 3)
            return
        src = g.ch(ns)
        if g.p(0.2):
            src = "%s.%s" % (r["name"], src)
        if len(self.chain) > 1 and not self.forced and g.p(0.4):  # a field next door, by way of the cluster it is in
            near = ["%s.%s.%s" % (c["name"], x["name"], f["name"]) for c in self.chain[-2]["children"] if c["k"] == "cluster"
                    for x in c["children"] if x["k"] == "register" for f in x["fields"]]
            src = g.ch(near) if near else src
        if g.p(0.7):
            to = self.pick(ns, 0.6)
            v = src if g.p(0.5) else dict(self.field_attrs({}), _from=src)
        else:
            to = self.ident()
            v = dict(self.field_attrs({}, True), _from=src)
            if g.p(0.2):
                to += "%s"
                self.dim(v, n=2, inc=4)
        h.setdefault("_derive", {})[to] = v

    def f_merge(self, h, r):
        g = self.g
        fs = sorted((f for f in r["fields"] if "dim" not in f), key=lambda f: f["off"])
        runs = []
        for i in range(len(fs)):
            for j in range(i + 1, len(fs)):
                if fs[j]["off"] != fs[j - 1]["off"] + fs[j - 1]["width"]:
                    break
                runs.append(fs[i:j + 1])
        if not runs or "_merge" in h:
            raise Skip
        run = [f["name"] for f in g.ch(runs)]
        k = g.r.randint(0, 3)
        pre = __import__("os").path.commonprefix(run)
        if k == 0:
            h["_merge"] = {"MERGED": run}
        elif k == 1:
            h["_merge"] = {"MERGED": ",".join(run)}
        elif pre:
            s = pre + "*"
            h["_merge"] = g.ch([s, [s], {"MRG": s}, {"MRG": [s]}])
        else:
            h["_merge"] = ["{%s}" % ",".join(run)]

    def f_split(self, h, r):
        g = self.g
        fs = [f for f in r["fields"] if "dim" not in f and (f["width"] > 1 or g.p(0.1))]
        if not fs or "_split" in h:
            raise Skip
        s = self.pick([f["name"] for f in fs], 0.8)
        if g.p(0.12):  # several fields at once, which is refused
            s = g.ch(["*", "?*"])
            s = "?~" + s if g.p(0.6) else s
        k = g.r.randint(0, 3)
        if k == 0:
            h["_split"] = g.ch([s, [s]])
        else:
            v = {}
            if g.p(0.6):
                v["name"] = g.ch(["SP%s", "BIT_%s_X"])
            if g.p(0.6):
                v["description"] = g.ch(["Bit %s here", "plain", "%s of %s"])
            h["_split"] = {s: v}

    def f_wc(self, h, r):
        """One of the attributes that constrain accesses, in a rule of its own."""
        g = self.g
        v = {}
        k = g.r.randint(0, 3)
        if k == 0:
            v["modifiedWriteValues"] = g.ch(MWV)
        elif k == 1:
            v["readAction"] = g.ch(ref.RA)
        else:
            v[g.ch(["_write_constraint", "writeConstraint"])] = self.wcrule()
        if g.p(0.15):
            v.update(_from=g.ch(self.fnames(r)))
            h.setdefault("_derive", {})[self.pick(self.fnames(r), 0.6)] = v
        elif g.p(0.2):
            v.update(bitOffset=self.num(g.r.randint(0, 30)), bitWidth=self.num(1))
            h.setdefault("_add", {})["ADDF%d" % g.r.randint(0, 9)] = v
        else:
            h.setdefault("_modify", {})[self.pick(self.fnames(r), 0.5)] = v

    def f_key(self, h, r):
        ns = self.fnames(r)
        s = self.pick(ns, 0.5)
        if s in ref.REG_KW:
            raise Skip
        return s

    def evs(self, width):
        g = self.g
        n = min(1 << width, g.r.randint(1, 4))
        vals = g.r.sample(range(min(1 << width, 16)), n)
        names = g.r.sample(EVN, n)
        h = {nm: [self.num(v), g.text()] for nm, v in zip(names, vals)}
        if g.p(0.12):
            h["Rest"] = [-1, "others"]
        q = g.r.random()
        if q < 0.02:
            h["9bad"] = [0, "x"]
        elif q < 0.04:
            h["Dup"] = [vals[0], "again"]
        elif q < 0.05:
            h["Short"] = [1]
        elif q < 0.06:
            h["Big"] = [1 << width, "too big"]
        if g.p(0.1):
            h["_name"] = g.ch(["ENUMN", "MY_ENUM", "EN0"])
        return h

    def f_enum(self, h, r):
        g = self.g
        s = self.f_key(h, r)
        fs = [f for f in r["fields"] if match(f["name"], opt(s)[0])]
        w = fs[0]["width"] if fs else 1
        if len({f["width"] for f in fs}) > 1 and g.p(0.8):
            raise Skip
        have = [e["name"] for f in r["fields"] for e in f["enums"] if "name" in e]
        if have and g.p(0.15):
            v = {"_derivedFrom": g.ch(have)}
        else:
            v = self.evs(w)
            if any(f["enums"] for f in fs) and g.p(0.7) or g.p(0.1):
                v = {"_replace_enum": v}
        k = g.r.random()
        x = h.get(s)
        if k < 0.55:
            if x is not None and g.p(0.8):
                raise Skip
            h[s] = v
        else:
            kind = g.ch(["_read", "_write"]) if g.p(0.5) else g.ch(list(ref.READ) + list(ref.WRITE))
            if not isinstance(x, dict) or any(not q.startswith("_") for q in x):
                x = h[s] = {}
            x[kind] = v if g.p(0.75) else {}
            return "f_enum" + kind

    def f_action(self, h, r):
        g = self.g
        s = self.f_key(h, r)
        x = h.get(s)
        if not isinstance(x, dict) or any(not q.startswith("_") for q in x):
            x = h[s] = {}
        x[g.ch(list(ref.READ)[1:] + list(ref.WRITE)[1:])] = {}

    def f_range(self, h, r):
        g = self.g
        s = self.f_key(h, r)
        fs = [f for f in r["fields"] if match(f["name"], opt(s)[0])]
        m = (1 << min((f["width"] for f in fs), default=1)) - 1
        a = g.r.randint(0, m)
        h[s] = [self.num(a), self.num(g.r.randint(a, m))]

    def f_array(self, h, r):
        g = self.g
        ns = [f["name"] for f in r["fields"] if "dim" not in f]
        t = self.templates(ns)
        if not t:
            raise Skip
        (pre, post), idx = g.ch(sorted(t.items()))
        s = pre + (self.wild(idx) if g.p(0.96) else g.ch([idx[0], "{%s,%s}" % (idx[0], idx[-1]), "?*", "[!x]"])) + post
        h.setdefault("_array", {})[self.optspec(s)] = self.array_value({})


ALL = {"dev_delete": 1, "dev_copy": 1, "dev_attr": 1, "dev_cpu": 1, "dev_per": 2, "dev_clear": 1, "dev_add": 1,
       "dev_derive": 1, "dev_rebase": 1, "delete": 2, "irq": 2, "copy": 2, "strip": 2, "prefix": 1, "modify": 4,
       "clear_fields": 1, "add": 3, "derive": 2, "expand_array": 2, "expand_cluster": 2, "array": 3, "cluster": 3,
       "f_delete": 1, "f_strip": 1, "f_prefix": 1, "f_clear": 1, "f_modify": 3, "f_add": 2, "f_derive": 2,
       "f_merge": 2, "f_split": 2, "f_enum": 6, "f_action": 2, "f_range": 2, "f_array": 3}
