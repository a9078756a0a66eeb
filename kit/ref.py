"""Reference interpreter of svdtools patches.

Works on the dict model of kit.model; written from the documentation of the rules (README.md of svdtools)
and shares no code with svdtools.  `apply(model, patch)` returns the expected model, or raises Reject when
the patch has to be refused.
"""
import os
import re

from .model import clone, dim_array_index
from .yamlout import Raw



class Reject(Exception):
    pass


class Unspecified(Exception):
    """The rules do not say what has to happen; the generator must not produce this."""


# ------------------------------------------------------------------ globs

_cache = {}


def glob_re(spec):
    """Regex source of one glob."""
    i, n, out, depth = 0, len(spec), [], 0
    while i < n:
        c = spec[i]
        i += 1
        if c == "*":
            out.append(".*")
        elif c == "?":
            out.append(".")
        elif c == "[":
            j = i
            neg = False
            if j < n and spec[j] in "!^":
                neg = True
                j += 1
            k = j
            if k < n and spec[k] == "]":
                k += 1
            while k < n and spec[k] != "]":
                k += 1
            if k >= n:
                raise Reject("bad glob %r" % spec)
            body = spec[j:k]
            parts, m = [], 0
            while m < len(body):
                if m + 2 < len(body) and body[m + 1] == "-":
                    if body[m] > body[m + 2]:
                        raise Reject("bad glob %r" % spec)
                    parts.append(re.escape(body[m]) + "-" + re.escape(body[m + 2]))
                    m += 3
                else:
                    parts.append(re.escape(body[m]))
                    m += 1
            out.append("[" + ("^" if neg else "") + "".join(parts) + "]")
            i = k + 1
        elif c == "{":
            depth += 1
            out.append("(?:")
        elif c == "}" and depth:
            depth -= 1
            out.append(")")
        elif c == "," and depth:
            out.append("|")
        elif c == "\\":
            if i >= n:
                raise Reject("bad glob %r" % spec)
            out.append(re.escape(spec[i]))
            i += 1
        else:
            out.append(re.escape(c))
    if depth:
        raise Reject("bad glob %r" % spec)
    return "".join(out)


def globm(spec, name):
    r = _cache.get(spec)
    if r is None:
        r = _cache[spec] = re.compile(glob_re(spec), re.S)
    return r.fullmatch(name) is not None


def subspec(name, spec):
    if "{" in spec:
        return spec if globm(spec, name) else None
    for s in spec.split(","):
        if globm(s, name):
            return s
    return None


def match(name, spec):
    return subspec(name, spec) is not None


def opt(spec):
    return (spec[2:], True) if spec.startswith("?~") else (spec, False)


# ------------------------------------------------------------------ typed access

def is_str(v):
    """Unquoted hexadecimal numbers are numbers to YAML."""
    return isinstance(v, str) and not (isinstance(v, Raw) and re.fullmatch("0x[0-9a-fA-F]+", v))


def gs(h, k):
    v = h.get(k)
    if k in h and not is_str(v):
        raise Reject("%s is not a string" % k)
    return v


def digits(t, base, v):
    ok = {2: r"[+-]?[01]+", 10: r"[+-]?[0-9]+", 16: r"[+-]?[0-9a-fA-F]+"}[base]
    if not re.fullmatch(ok, t, re.A):
        raise Reject("not a number %r" % v)
    n = int(t, base)
    if not -2 ** 63 <= n < 2 ** 63:
        raise Reject("number does not fit %r" % v)
    return n


def parse_int(v):
    if isinstance(v, bool):
        raise Reject("bool is not a number")
    if isinstance(v, int):
        if not -2 ** 63 <= v < 2 ** 63:
            raise Reject("number does not fit %r" % v)
        return v
    if not isinstance(v, str):
        raise Reject("not a number")
    t = v.replace("_", "")
    if t[:2] in ("0x", "0X"):
        return digits(t[2:], 16, v)
    if t[:1] == "#":
        return digits(t[1:].lower().replace("x", "0"), 2, v)
    if t[:2] == "0b":
        return digits(t[2:].replace("x", "0"), 2, v)
    return digits(t, 10, v)


WIDE = ("resetValue", "resetMask", "baseAddress", "range")


def parse_uint(v, k=""):
    n = parse_int(v)
    if not 0 <= n < 2 ** (64 if k in WIDE else 32):
        raise Reject("%s out of range" % k)
    return n


def gi(h, k):
    return parse_uint(h[k], k) if k in h else None


def gh(h, k):
    v = h.get(k)
    if k in h and not isinstance(v, dict):
        raise Reject("%s is not a mapping" % k)
    return v


def need_hash(v):
    if not isinstance(v, dict):
        raise Reject("not a mapping")
    return v


def need_str(v):
    if not is_str(v):
        raise Reject("not a string")
    return v


def hash_items(h, k):
    v = h.get(k)
    if v is not None and not isinstance(v, dict):
        raise Reject("%s is not a mapping" % k)
    return list((v or {}).items())


def str_list(h, k):
    if k not in h:
        return []
    v = h[k]
    if is_str(v):
        return [v]
    if isinstance(v, (list, tuple)) and all(is_str(x) for x in v):
        return list(v)
    raise Reject("%s: string or list of strings required" % k)


# ------------------------------------------------------------------ paths

class Path:
    def __init__(self, per, clusters=()):
        self.per, self.clusters = per, tuple(clusters)

    def cluster(self, name):
        return Path(self.per, self.clusters + (name,))

    def parent(self):
        return Path(self.per, self.clusters[:-1])

    def __str__(self):
        return ".".join((self.per,) + self.clusters)

    def interp(self, s):
        return s.replace("`peripheral`", self.per).replace("`block_path`", str(self))


class RPath:
    def __init__(self, block, name):
        self.block, self.name = block, name

    def __str__(self):
        return "%s.%s" % (self.block, self.name)

    def interp(self, s):
        return self.block.interp(s).replace("`register`", self.name).replace("`register_path`", str(self))


def interp(path, s):
    return s if s is None or path is None else path.interp(s)


# ------------------------------------------------------------------ builders

ACCESS = ("read-only", "read-write", "read-writeOnce", "write-only", "writeOnce")
MWV = ("oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear", "set", "modify")
RA = ("clear", "set", "modify", "modifyExternal")
PROTECTION = ("s", "n", "p")
DATATYPE = tuple("%sint%d_t%s" % (u, w, x) for u in ("u", "") for w in (8, 16, 32, 64) for x in ("", " *"))
PROP5 = ("size", "access", "protection", "resetValue", "resetMask")


def word(h, k, known, removable=False):
    """One of the words that SVD knows for an attribute."""
    v = gs(h, k)
    if v is None or removable and v == "":
        return None
    if v not in known:
        raise Reject("%r is not a %s" % (v, k))
    return v


def get_props(h):
    p = {}
    v = gi(h, "size")
    if v is not None:
        p["size"] = v
    a = word(h, "access", ACCESS, True)
    if a:
        p["access"] = a
    a = word(h, "protection", PROTECTION)
    if a:
        p["protection"] = a
    for k in ("resetValue", "resetMask"):
        v = gi(h, k)
        if v is not None:
            p[k] = v
    return p


def check_props(n):
    if "size" in n and "resetValue" in n and n["resetValue"].bit_length() > n["size"]:
        raise Reject("reset value too large")


def set_props(n, p):
    n.update(p)
    check_props(n)


def drop_props(n):
    for k in PROP5:
        n.pop(k, None)


def set_opt(n, k, v):
    """Empty string removes."""
    if v is None:
        return
    if v == "":
        n.pop(k, None)
    else:
        n[k] = v


def get_wc(h):
    """None: not given.  ('none',) etc."""
    v = h["_write_constraint"] if "_write_constraint" in h else h.get("writeConstraint")
    if "_write_constraint" not in h and "writeConstraint" not in h:
        return None
    if v == "none":
        return "none"
    if v == "enum":
        return ["useEnumeratedValues", True]
    if isinstance(v, (list, tuple)):
        if len(v) != 2:
            raise Reject("not a range")
        return ["range", parse_uint(v[0], "range"), parse_uint(v[1], "range")]
    raise Reject("unknown write constraint")


def make_dim(h):
    d = {}
    if "dimIndex" in h:
        v = h["dimIndex"]
        if is_str(v):
            d["index"] = parse_index(v)
        elif isinstance(v, (list, tuple)):
            if not all(is_str(x) for x in v):
                raise Reject("dimIndex")
            d["index"] = list(v)
        else:
            raise Reject("dimIndex")
    v = gs(h, "dimName")
    if v is not None:
        d["name"] = v
    v = gi(h, "dim")
    if v is not None:
        d["dim"] = v
    v = gi(h, "dimIncrement")
    if v is not None:
        d["inc"] = v
    v = gh(h, "dimArrayIndex")
    if v is not None:
        ai = {"values": []}
        for n, x in v.items():
            if n == "headerEnumName":
                ai[n] = need_str(x)
                continue
            if not isinstance(x, (list, tuple)) or len(x) != 2:
                raise Reject("bad value of dimArrayIndex")
            ai["values"].append({"name": need_str(n), "description": need_str(x[1]), "value": parse_uint(x[0], "enumval")})
        d["arrayIndex"] = ai
    return d or None


def parse_index(t):
    if "-" in t:
        a, b = t.split("-", 1)
        if a.isdigit() and b.isdigit():
            r = [str(i) for i in range(int(a), int(b) + 1)]
        elif len(a) == 1 and len(b) == 1 and (a.islower() and b.islower() or a.isupper() and b.isupper()):
            r = [chr(c) for c in range(ord(a), ord(b) + 1)]
        else:
            raise Reject("dimIndex")
    else:
        r = t.split(",")
    if not r:
        raise Reject("dimIndex")
    return r


def build_dim(d):
    if "dim" not in d or "inc" not in d:
        raise Reject("incomplete dim")
    d = dict(d)
    if d.get("index") == []:
        d.pop("index")
    if d.get("name") == "":
        d.pop("name")
    return d


def modify_dim(n, d):
    if d is None:
        return
    if "dim" in n:
        n["dim"].update(d)
        if n["dim"].get("index") == []:
            n["dim"].pop("index")
        if n["dim"].get("name") == "":
            n["dim"].pop("name")
    else:
        n["dim"] = build_dim(d)


def field_rule(h, rpath):
    """Parsed attributes of a field rule."""
    r = {"description": interp(rpath, gs(h, "description")), "derivedFrom": interp(rpath, gs(h, "derivedFrom")),
         "name": gs(h, "name"), "wc": get_wc(h)}
    r["access"] = word(h, "access", ACCESS, True)
    r["modifiedWriteValues"] = word(h, "modifiedWriteValues", MWV)
    r["readAction"] = word(h, "readAction", RA)
    msb, lsb = gi(h, "msb"), gi(h, "lsb")
    if msb is not None and lsb is not None:
        if msb < lsb:
            raise Reject("msb below lsb")
        r["off"], r["width"] = lsb, msb - lsb + 1
    else:
        b = gs(h, "bitRange")
        if b is not None:
            m = re.fullmatch(r"\[(\d+):(\d+)\]", b)
            if not m or int(m.group(1)) < int(m.group(2)):
                raise Reject("bad bitRange")
            r["off"], r["width"] = int(m.group(2)), int(m.group(1)) - int(m.group(2)) + 1
        else:
            if "bitOffset" in h:
                r["off"] = gi(h, "bitOffset")
            if "bitWidth" in h:
                r["width"] = gi(h, "bitWidth")
    return r


def validate_field(f):
    w = f["width"]
    if w == 0:
        raise Reject("zero width")
    if w < 64:
        for e in f["enums"]:
            for v in e["values"]:
                if v.get("value", 0) >= 1 << w:
                    raise Reject("enum value does not fit")
        wc = f.get("wc")
        if wc and wc[0] == "range" and (wc[1] > wc[2] or wc[2] >= 1 << w):
            raise Reject("range does not fit")


def build_field(name, h, rpath):
    r = field_rule(h, rpath)
    if "off" not in r or "width" not in r:
        raise Reject("field needs a bit range")
    f = {"k": "field", "name": name, "off": r["off"], "width": r["width"], "enums": []}
    for k in ("description", "derivedFrom", "access", "modifiedWriteValues", "readAction"):
        if r[k] is not None:
            f[k] = r[k]
    if r["wc"] not in (None, "none"):
        f["wc"] = r["wc"]
    validate_field(f)
    return f


def with_dim(n, h):
    d = make_dim(h)
    if d is not None:
        n["dim"] = build_dim(d)
    return n


def fields_of(h):
    v = gh(h, "fields")
    if v is None:
        return None
    return [with_dim(build_field(need_str(n), need_hash(x), None), x) for n, x in v.items()]


REG_WORD = (("dataType", DATATYPE), ("modifiedWriteValues", MWV), ("readAction", RA))


def register_rule(h, path):
    return {"displayName": gs(h, "displayName"), "description": interp(path, gs(h, "description")),
            "derivedFrom": interp(path, gs(h, "derivedFrom")), "alternateGroup": gs(h, "alternateGroup"),
            "alternateRegister": gs(h, "alternateRegister"), "props": get_props(h), "wc": get_wc(h),
            "fields": fields_of(h), "name": gs(h, "name"), "addressOffset": gi(h, "addressOffset"),
            **{k: v for k, ok in REG_WORD for v in (word(h, k, ok),)}}


def build_register(name, r):
    if r["addressOffset"] is None:
        raise Reject("addressOffset missing")
    n = {"k": "register", "name": name, "addressOffset": r["addressOffset"], "fields": clone(r["fields"] or [])}
    for k in ("displayName", "description", "derivedFrom", "alternateGroup", "alternateRegister"):
        if r[k] is not None:
            n[k] = r[k]
    if r["wc"] not in (None, "none"):
        n["wc"] = r["wc"]
    for k, _ in REG_WORD:
        if r[k] is not None:
            n[k] = r[k]
    set_props(n, r["props"])
    return n


def register_from(name, h, path):
    return with_dim(build_register(name, register_rule(h, path)), h)


def apply_register(n, r):
    if r["name"] is not None:
        n["name"] = r["name"]
    for k in ("displayName", "description", "alternateGroup", "alternateRegister"):
        set_opt(n, k, r[k])
    if r["addressOffset"] is not None:
        n["addressOffset"] = r["addressOffset"]
    if r["derivedFrom"] is not None:
        n["derivedFrom"] = r["derivedFrom"]
        n["fields"] = []
        drop_props(n)
        for k in ("dataType", "modifiedWriteValues", "wc"):
            n.pop(k, None)
    else:
        set_props(n, r["props"])
        if r["wc"] not in (None, "none"):
            n["wc"] = r["wc"]
        for k, _ in REG_WORD:
            if r[k] is not None:
                n[k] = r[k]
        if r["fields"] is not None:
            n["fields"] = clone(r["fields"])


def registers_of(h):
    v = gh(h, "registers")
    if v is None:
        return None
    return [register_from(need_str(n), need_hash(x), None) for n, x in v.items()]


def cluster_rule(h, path):
    return {"description": interp(path, gs(h, "description")), "derivedFrom": interp(path, gs(h, "derivedFrom")),
            "props": get_props(h), "children": registers_of(h), "name": gs(h, "name"),
            "alternateCluster": gs(h, "alternateCluster"), "headerStructName": gs(h, "headerStructName"),
            "addressOffset": gi(h, "addressOffset")}


def apply_cluster(n, r):
    if r["name"] is not None:
        n["name"] = r["name"]
    for k in ("description", "alternateCluster", "headerStructName"):
        set_opt(n, k, r[k])
    if r["addressOffset"] is not None:
        n["addressOffset"] = r["addressOffset"]
    if r["derivedFrom"] is not None:
        n["derivedFrom"] = r["derivedFrom"]
        n["children"] = []
        drop_props(n)
    else:
        set_props(n, r["props"])
        if r["children"] is not None:
            n["children"] = clone(r["children"])


def interrupt_rule(h):
    return {"name": gs(h, "name"), "description": gs(h, "description"), "value": gi(h, "value")}


def build_interrupt(name, h):
    r = interrupt_rule(h)
    if r["value"] is None:
        raise Reject("interrupt value missing")
    i = {"name": name, "value": r["value"]}
    if r["description"] is not None:
        i["description"] = r["description"]
    return i


def ab_rule(h):
    r = {}
    for k in ("offset", "size"):
        v = gi(h, k)
        if v is not None:
            r[k] = v
    u = word(h, "usage", ("registers", "buffer", "reserved"))
    if u:
        r["usage"] = u
    return r


def build_ab(r):
    if len(r) != 3:
        raise Reject("incomplete address block")
    return r


PER_STR = ("displayName", "version", "description", "alternatePeripheral", "groupName", "prependToName", "appendToName", "headerStructName")


def peripheral_rule(h, modify):
    r = {k: gs(h, k) for k in PER_STR + ("derivedFrom", "name")}
    r["baseAddress"] = gi(h, "baseAddress")
    r["interrupts"] = None
    if not modify:
        v = gh(h, "interrupts")
        if v is not None:
            r["interrupts"] = [build_interrupt(need_str(n), need_hash(x)) for n, x in v.items()]
    r["props"], r["children"], r["abs"] = {}, None, None
    if r["derivedFrom"] is None:
        r["props"] = get_props(h)
        if not modify:
            if "addressBlock" in h:
                r["abs"] = [build_ab(ab_rule(need_hash(h["addressBlock"])))]
            elif "addressBlocks" in h:
                if not isinstance(h["addressBlocks"], list):
                    raise Reject("addressBlocks is not a list")
                r["abs"] = [build_ab(ab_rule(need_hash(x))) for x in h["addressBlocks"]]
        r["children"] = registers_of(h)
    return r


def build_peripheral(name, r):
    if r["baseAddress"] is None:
        raise Reject("baseAddress missing")
    n = {"k": "peripheral", "name": name, "baseAddress": r["baseAddress"],
         "interrupts": clone(r["interrupts"] or []), "addressBlocks": clone(r["abs"] or []),
         "children": clone(r["children"] or []), "hasregs": r["children"] is not None}
    for k in PER_STR:
        if r[k]:
            n[k] = r[k]
    if r["derivedFrom"] is not None:
        n["derivedFrom"] = r["derivedFrom"]
    set_props(n, r["props"])
    return n


def apply_peripheral(n, r):
    if r["name"] is not None:
        n["name"] = r["name"]
    for k in PER_STR:
        set_opt(n, k, r[k])
    if r["baseAddress"] is not None:
        n["baseAddress"] = r["baseAddress"]
    if r["interrupts"] is not None:
        n["interrupts"] = clone(r["interrupts"])
    if r["derivedFrom"] is not None:
        n["derivedFrom"] = r["derivedFrom"]
        n["children"], n["hasregs"] = [], False
        n["addressBlocks"] = []
        drop_props(n)
    else:
        if r["abs"] is not None:
            n["addressBlocks"] = clone(r["abs"])
        set_props(n, r["props"])
        if r["children"] is not None:
            n["children"] = clone(r["children"])
            n["hasregs"] = bool(n["children"])


def adding_pos(items, addr, key):
    """After the last element with the greatest address among those not above `addr`."""
    best = pos = None
    for i, x in enumerate(items):
        a = x[key]
        if a <= addr and (best is None or a >= best):
            best, pos = a, i + 1
    return pos or 0


DIMNAME = re.compile(r"(%s|%s[_A-Za-z][_A-Za-z0-9]*|[_A-Za-z][_A-Za-z0-9]*(\[%s\])?|"
                     r"[_A-Za-z][_A-Za-z0-9]*(%s)?[_A-Za-z0-9]*)")


def check_dimable(name):
    if not DIMNAME.fullmatch(name):
        raise Reject("bad name %r" % name)


# ------------------------------------------------------------------ device level

DEV_KW = {"_svd", "_include", "_path", "_delete", "_copy", "_modify", "_clear_fields", "_add", "_derive", "_rebase"}
PER_KW = {"_include", "_path", "_delete", "_copy", "_strip", "_strip_end", "_prefix", "_suffix", "_modify",
          "_clear_fields", "_add", "_derive", "_expand_array", "_expand_cluster", "_array", "_cluster", "_clusters",
          "_interrupts"}
CLU_KW = PER_KW - {"_interrupts"}
REG_KW = {"_include", "_path", "_delete", "_derive", "_strip", "_strip_end", "_prefix", "_suffix", "_clear", "_modify",
          "_add", "_merge", "_split", "_array"}
COLLECTED = {"name", "displayName", "description", "dimIncrement", "_start_from_zero"}  # of an array or a cluster the register is in
CPU_STR = ("name", "revision", "endian")
CPU_INT = ("deviceNumInterrupts", "sauNumRegions", "nvicPrioBits")
CPU_BOOL = ("fpuDP", "dspPresent", "icachePresent", "dcachePresent", "itcmPresent", "dtcmPresent", "vtorPresent",
            "mpuPresent", "fpuPresent", "vendorSystickConfig")
ENDIAN = ("little", "big", "selectable", "other")


def gb(h, k):
    if k not in h:
        return None
    v = h[k]
    if isinstance(v, bool):
        return v
    if v in (0, 1):
        return bool(v)
    if v in ("true", "True"):
        return True
    if v in ("false", "False"):
        return False
    raise Reject("not a boolean")


class Ref:
    def __init__(self, dev, enum_derive="enum", loader=None):
        self.d = dev
        self.enum_derive = enum_derive
        self.loader = loader
        for p in dev["peripherals"]:
            p.setdefault("hasregs", bool(p["children"]) or bool(p.get("empty_registers")))

    # ---- device
    def find(self, name):
        for i, p in enumerate(self.d["peripherals"]):
            if p["name"] == name:
                return i
        return None

    def device(self, y):
        per = self.d["peripherals"]
        for spec in str_list(y, "_delete"):
            per[:] = [p for p in per if not match(p["name"], spec)]
        for name, v in hash_items(y, "_copy"):
            self.copy_peripheral(need_str(name), need_hash(v))
        for key, v in hash_items(y, "_modify"):
            self.modify_device(need_str(key), v)
        for spec in str_list(y, "_clear_fields"):
            for p in per:
                if match(p["name"], spec) and "derivedFrom" not in p:
                    clear_fields(p["children"], "*")
        for name, v in hash_items(y, "_add"):
            name = need_str(name)
            v = need_hash(v)
            if self.find(name) is not None:
                raise Reject("duplicate peripheral")
            p = with_dim(build_peripheral(name, peripheral_rule(v, False)), v)
            per.insert(adding_pos(per, p["baseAddress"], "baseAddress"), p)
        for name, v in hash_items(y, "_derive"):
            self.derive_peripheral(need_str(name), v)
        for new, old in hash_items(y, "_rebase"):
            self.rebase(need_str(new), need_str(old))
        for spec, v in y.items():
            if need_str(spec) in DEV_KW:
                continue
            v = need_hash(v)
            s, ignore = opt(spec)
            ps = [p for p in per if match(p["name"], s)]
            if not ps and not ignore:
                raise Reject("no peripheral matches %r" % s)
            for p in ps:
                self.peripheral(p, v)

    def copy_peripheral(self, name, v):
        src = gs(v, "from")
        if src is None:
            raise Reject("from missing")
        parts = src.split(":")
        if len(parts) == 2:
            dev = self.loader(parts[0]) if self.loader else None
            if dev is None:
                raise Reject("no such file")
            new = None
            for p in dev["peripherals"]:
                if p["name"] == parts[1]:
                    new = clone(p)
                    new.setdefault("hasregs", bool(p["children"]) or bool(p.get("empty_registers")))
                    break
            if new is None:
                raise Reject("no such peripheral")
            inherit(new, dev["peripherals"])
        elif len(parts) == 1:
            i = self.find(src)
            if i is None:
                raise Reject("no such peripheral")
            new = clone(self.d["peripherals"][i])
            inherit(new, self.d["peripherals"])
            new["interrupts"] = []
        else:
            raise Reject("bad from")
        new["name"] = name
        i = self.find(name)
        if i is None:
            self.d["peripherals"].append(new)
        else:
            t = self.d["peripherals"][i]
            new["baseAddress"] = t["baseAddress"]
            new["interrupts"] = t["interrupts"]
            self.d["peripherals"][i] = new

    def modify_device(self, key, v):
        d = self.d
        if key == "cpu":
            v = need_hash(v)
            c = {}
            for k in CPU_STR:
                x = word(v, k, ENDIAN) if k == "endian" else gs(v, k)
                if x is not None:
                    c[k] = x
            for k in CPU_INT:
                x = gi(v, k)
                if x is not None:
                    c[k] = x
            for k in CPU_BOOL:
                x = gb(v, k)
                if x is not None:
                    c[k] = x
            if "cpu" in d:
                d["cpu"].update(c)
            else:
                for k in ("name", "revision", "endian", "mpuPresent", "fpuPresent", "nvicPrioBits",
                          "vendorSystickConfig"):
                    if k not in c:
                        raise Reject("incomplete cpu")
                d["cpu"] = c
        elif key == "_peripherals":
            for spec, x in need_hash(v).items():
                self.modify_peripheral(need_str(spec), need_hash(x))
        elif key in ("vendor", "vendorID", "name", "series", "version", "description", "licenseText",
                     "headerSystemFilename", "headerDefinitionsPrefix"):
            d[key] = need_str(v)
        elif key in ("addressUnitBits", "width", "size", "resetValue", "resetMask"):
            d[key] = parse_uint(v, key)
        elif key == "access":
            x = word({"access": v}, "access", ACCESS, True)
            d.pop("access", None)
            if x:
                d["access"] = x
        elif key == "protection":
            x = word({"protection": v}, "protection", PROTECTION, True)
            d.pop("protection", None)
            if x:
                d["protection"] = x
        else:
            self.modify_peripheral(key, need_hash(v))

    def modify_peripheral(self, spec, v):
        ps = [p for p in self.d["peripherals"] if match(p["name"], spec)]
        names = [p["name"] for p in ps]
        if ps:
            r = peripheral_rule(v, True)
            dim = make_dim(v)
            for p in ps:
                modify_dim(p, dim)
                apply_peripheral(p, r)
                ints = gh(v, "interrupts")
                for iname, x in (ints or {}).items():
                    ir = interrupt_rule(need_hash(x))
                    for i in p["interrupts"]:
                        if i["name"] == need_str(iname):
                            i.update({k: z for k, z in ir.items() if z is not None})
                            break
                if "addressBlock" in v:
                    a = ab_rule(need_hash(v["addressBlock"]))
                    if len(p["addressBlocks"]) == 1:
                        p["addressBlocks"][0].update(a)
                    else:
                        p["addressBlocks"] = [build_ab(a)]
                elif "addressBlocks" in v:
                    if not isinstance(v["addressBlocks"], list):
                        raise Reject("addressBlocks is not a list")
                    p["addressBlocks"] = [build_ab(ab_rule(need_hash(x))) for x in v["addressBlocks"]]
        new = gs(v, "name")
        if new is not None:
            for p in self.d["peripherals"]:
                if p.get("derivedFrom") in names:
                    p["derivedFrom"] = new

    def derive_peripheral(self, name, v):
        per = self.d["peripherals"]
        i, dim = self.find(name), None
        if is_str(v):
            src, r = v, peripheral_rule({}, True)
        elif isinstance(v, dict):
            src = gs(v, "_from")
            if src is None:
                raise Reject("_from missing")
            r = peripheral_rule(v, i is not None)
            dim = make_dim(v)
            if i is not None and ("interrupts" in v or "addressBlock" in v or "addressBlocks" in v):
                raise Unspecified("interrupts or address blocks for a peripheral that is there")
            if "registers" in v:
                raise Unspecified("registers of a derived peripheral")
        else:
            raise Reject("bad _derive")
        r["derivedFrom"] = src
        si = None
        if "." not in src:
            si = self.find(src)
            if si is None:
                raise Reject("no such peripheral")
        if name in origins(per, src):
            raise Reject("derived from itself")
        lo = len(per)
        if i is not None:
            lo = i
            modify_dim(per[i], dim)
            apply_peripheral(per[i], r)
        else:
            n = build_peripheral(name, dict(r, derivedFrom=None))
            n["derivedFrom"] = src
            n["children"], n["hasregs"] = [], False
            if dim is not None:
                n["dim"] = build_dim(dim)
            per.append(n)
        for i, p in enumerate(per):
            if p.get("derivedFrom") == name:
                lo = min(lo, i)
                p["derivedFrom"] = src
        if si is not None and si > lo:
            per.insert(lo, per.pop(si))

    def rebase(self, new, old):
        per = self.d["peripherals"]
        oi = self.find(old)
        if oi is None:
            raise Reject("no such peripheral")
        if new != old and new in origins(per, old):
            raise Reject("derived from itself")
        d = per[oi]
        per[oi] = {"k": "peripheral", "name": old, "baseAddress": d["baseAddress"],
                   "interrupts": clone(d["interrupts"]), "addressBlocks": [], "children": [], "hasregs": False,
                   "derivedFrom": new}
        ni = self.find(new)
        if ni is None:
            raise Reject("no such peripheral")
        n = per[ni]
        d["name"], d["baseAddress"], d["interrupts"] = n["name"], n["baseAddress"], clone(n["interrupts"])
        per[ni] = d
        lo = oi
        for i, p in enumerate(per):
            if p.get("derivedFrom") == old:
                lo = min(lo, i)
                p["derivedFrom"] = new
        if ni > lo:
            per.insert(lo, per.pop(ni))

    # ---- peripheral
    def peripheral(self, p, y):
        if "derivedFrom" in p:
            v = y.get("_delete")
            if isinstance(v, dict):
                for s in str_list(v, "_interrupts"):
                    delete_interrupt(p, s)
            for k, x in hash_items(y, "_modify"):
                if k == "_interrupts":
                    for s, z in need_hash(x).items():
                        modify_interrupt(p, need_str(s), need_hash(z))
            for k, x in hash_items(y, "_add"):
                if k == "_interrupts":
                    for s, z in need_hash(x).items():
                        add_interrupt(p, need_str(s), need_hash(z))
            return
        path = Path(p["name"])
        self.block_pre(p, y, path, True)
        for spec, v in y.items():
            if need_str(spec) in PER_KW:
                continue
            self.child(p, spec, need_hash(v), path)
        self.block_collect(p, y, path)
        for spec, v in hash_items(y, "_clusters"):
            self.clusters(p, need_str(spec), need_hash(v), path)
        if "_expand_cluster" in y:
            v = y["_expand_cluster"]
            if is_str(v):
                expand_cluster(p, v, {})
            elif isinstance(v, list):
                for s in v:
                    expand_cluster(p, need_str(s), {})
            elif isinstance(v, dict):
                for s, x in v.items():
                    x = {} if x is None else need_hash(x)
                    for k in x:
                        if k not in ("_preindex", "_postindex", "_zeroindex", "_noprefix"):
                            raise Reject("bad _expand_cluster")
                    expand_cluster(p, need_str(s), x)
            else:
                raise Reject("bad _expand_cluster")

    def cluster(self, c, y, parent):
        self.cluster_pre(c, y, parent)
        path = parent.cluster(c["name"])
        for spec, v in hash_items(y, "_clusters"):
            self.clusters(c, need_str(spec), need_hash(v), path)
        for spec, v in y.items():
            if need_str(spec) in CLU_KW:
                continue
            self.child(c, spec, need_hash(v), path)
        self.cluster_post(c, y, parent)

    def cluster_pre(self, c, y, parent):
        self.block_pre(c, y, parent.cluster(c["name"]), False)

    def cluster_post(self, c, y, parent):
        self.block_collect(c, y, parent.cluster(c["name"]))

    def clusters(self, b, spec, v, path):
        s, ignore = opt(spec)
        cs = [c for c in b["children"] if c["k"] == "cluster" and match(c["name"], s)]
        if not cs and not ignore:
            raise Reject("no cluster matches")
        for c in cs:
            self.cluster(c, v, path)

    def child(self, b, spec, v, path):
        s, ignore = opt(spec)
        rs = regs(b, s)
        if rs:
            for r in rs:
                self.register(r, v, path)
            return
        cs = clus(b, s)
        if not cs and not ignore:
            raise Reject("no register or cluster matches %r" % s)
        for c in cs:
            self.cluster(c, v, path)

    def block_pre(self, b, y, path, isper):
        per = isper
        if "_delete" in y:
            v = y["_delete"]
            if is_str(v):
                v = [v]
            if isinstance(v, list):
                for s in v:
                    need_str(s)
                    need_children(b)
                    b["children"] = [c for c in b["children"] if not match(c["name"], s)]
            elif isinstance(v, dict):
                for s in str_list(v, "_registers"):
                    need_children(b)
                    b["children"] = [c for c in b["children"] if c["k"] != "register" or not match(c["name"], s)]
                for s in str_list(v, "_clusters"):
                    delete_cluster(b, s)
                if per:
                    for s in str_list(v, "_interrupts"):
                        delete_interrupt(b, s)
                for k in v:
                    if k not in ("_registers", "_clusters", "_interrupts"):
                        raise Reject("bad _delete")
            else:
                raise Reject("bad _delete")
        for name, v in hash_items(y, "_copy"):
            if name == "_registers":
                for n2, x in need_hash(v).items():
                    copy_register(b, need_str(n2), need_hash(x), path)
            elif name == "_clusters":
                raise Unspecified("_copy _clusters")
            else:
                copy_register(b, need_str(name), need_hash(v), path)
        for s in str_list(y, "_strip"):
            for c in b["children"]:
                for k in NAMES[c["k"]]:
                    if k in c:
                        c[k] = strip_start(c[k], s)
        for s in str_list(y, "_strip_end"):
            for c in b["children"]:
                for k in NAMES[c["k"]]:
                    if k in c:
                        c[k] = strip_end(c[k], s)
        for key in ("_prefix", "_suffix"):
            x = gs(y, key)
            if x is not None:
                for c in b["children"]:
                    if c["k"] == "register":
                        for k in NAMES["register"]:
                            if k in c:
                                c[k] = x + c[k] if key == "_prefix" else c[k] + x
        for spec, v in hash_items(y, "_modify"):
            v = need_hash(v)
            if spec == "_registers":
                for s, x in v.items():
                    x = need_hash(x)
                    s, ignore = opt(need_str(s))
                    rs = regs(b, s)
                    if not rs and not ignore:
                        raise Reject("no register")
                    modify_registers(rs, x, path)
            elif spec == "_clusters":
                for s, x in v.items():
                    x = need_hash(x)
                    s, ignore = opt(need_str(s))
                    cs = clus(b, s)
                    if not cs and not ignore:
                        raise Reject("no cluster")
                    modify_clusters(cs, x, path)
            elif spec == "_interrupts" and per:
                for s, x in v.items():
                    modify_interrupt(b, need_str(s), need_hash(x))
            else:
                s, ignore = opt(need_str(spec))
                rs = regs(b, s)
                if rs:
                    modify_registers(rs, v, path)
                else:
                    cs = clus(b, s)
                    if not cs and not ignore:
                        raise Reject("nothing to modify")
                    modify_clusters(cs, v, path)
        for s in str_list(y, "_clear_fields"):
            clear_fields(b["children"], s)
        for name, v in hash_items(y, "_add"):
            v = need_hash(v)
            if name == "_registers":
                for n2, x in v.items():
                    add_register(b, need_str(n2), need_hash(x), path)
            elif name == "_clusters":
                for n2, x in v.items():
                    add_cluster(b, need_str(n2), need_hash(x), path)
            elif name == "_interrupts" and per:
                for n2, x in v.items():
                    add_interrupt(b, need_str(n2), need_hash(x))
            else:
                add_register(b, need_str(name), v, path)
        for name, v in hash_items(y, "_derive"):
            if name == "_registers":
                for n2, x in need_hash(v).items():
                    derive_register(b, need_str(n2), x, path)
            elif name == "_clusters":
                raise Unspecified("_derive _clusters")
            else:
                derive_register(b, need_str(name), v, path)

    def block_collect(self, b, y, path):
        for s, v in hash_items(y, "_expand_array"):
            need_hash(v)
            expand_array(b, need_str(s))
        for s, v in hash_items(y, "_array"):
            need_hash(v)
            self.collect_array(b, need_str(s), v, path)
        for s, v in hash_items(y, "_cluster"):
            need_hash(v)
            self.collect_cluster(b, need_str(s), v, path)

    def collect_array(self, b, spec, y, path):
        s, ignore = opt(spec)
        need_children(b, ignore)
        idx = [i for i, c in enumerate(b["children"])
               if c["k"] == "register" and "dim" not in c and match(c["name"], s)]
        if not idx:
            if ignore:
                return
            raise Reject("no registers")
        place = idx[0]
        rs = [b["children"][i] for i in idx]
        rest = [c for i, c in enumerate(b["children"]) if i not in set(idx)]
        rs.sort(key=lambda r: r["addressOffset"])
        tok = token(s)
        if tok is None:
            raise Reject("no token")
        li, ri = tok
        n = len(rs)
        index = [str(i) for i in range(n)] if "_start_from_zero" in y else [cut(r["name"], li, ri) for r in rs]
        offs = [r["addressOffset"] for r in rs]
        if n > 1:
            inc = offs[1] - offs[0]
        else:
            inc = gi(y, "dimIncrement")
            if inc is None:
                inc = rs[0].get("size", 0) // 8
        if inc == 0:
            raise Reject("no increment")
        if not regular(offs, inc):
            raise Reject("irregular offsets")
        if len({bitmask(r) for r in rs}) > 1:
            raise Reject("different bits")
        base = rs[0]
        name = gs(y, "name")
        base["name"] = name if name is not None else pattern_head(s, li) + "%s" + pattern_tail(s, ri)
        for k in ("description", "displayName"):
            x = gs(y, k)
            if x is not None:
                if x != "_original":
                    base[k] = x
            else:
                c = common([r.get(k) for r in rs], index)
                if c is False:
                    raise Reject("no common " + k)
                if c is None:
                    base.pop(k, None)
                else:
                    base[k] = c
        base["dim"] = {"dim": n, "inc": inc, "index": index}
        self.register(base, y, path)
        rest.insert(place, base)
        b["children"] = rest

    def collect_cluster(self, b, cname, y, path):
        single = "%s" not in cname
        ch = list(b["children"])
        place = None
        groups = []
        dim, dindex, dinc = 0, [], gi(y, "dimIncrement") or 0
        for spec, v in y.items():
            if spec in ("description", "dimIncrement") or need_str(spec) in CLU_KW:
                continue
            s, ignore = opt(spec)
            idx = [i for i, c in enumerate(ch) if c["k"] == "register" and match(c["name"], s)]
            if not idx:
                if ignore:
                    continue
                raise Reject("no registers")
            rs = [ch[i] for i in idx]
            # position in the list as it is when this group is taken out
            place = idx[0] if place is None else min(place, idx[0])
            ch = [c for i, c in enumerate(ch) if i not in set(idx)]
            if single:
                if len(rs) > 1:
                    raise Reject("more than one register")
            else:
                rs.sort(key=lambda r: r["addressOffset"])
                d0 = norm_dim(rs[0].get("dim"))
                for r in rs[1:]:
                    if norm_dim(r.get("dim")) != d0:
                        raise Reject("different dims")
                index = []
                for r in rs:
                    m = subspec(r["name"], s)
                    tok = token(m)
                    if tok is None:
                        raise Reject("no token")
                    index.append(cut(r["name"], *tok))
                offs = [r["addressOffset"] for r in rs]
                if groups:
                    if len(rs) != dim or index != dindex:
                        raise Reject("groups differ")
                else:
                    dim, dindex = len(rs), index
                    if dim > 1:
                        dinc = offs[1] - offs[0]
                if not regular(offs, dinc):
                    raise Reject("irregular offsets")
                if len({bitmask(r) for r in rs}) > 1:
                    raise Reject("different bits")
            groups.append((s, v, rs))
        if not groups:
            raise Reject("no groups")
        base = min(rs[0]["addressOffset"] for _, _, rs in groups)
        desc = gs(y, "description")
        c = {"k": "cluster", "name": cname, "addressOffset": base,
             "description": desc if desc is not None else
             "Cluster %s, containing %s" % (cname, ", ".join(s for s, _, _ in groups)), "children": []}
        if c["description"] == "":
            c.pop("description")
        cpath = path.cluster(cname)
        for s, v, rs in groups:
            r = rs[0]
            v = need_hash(v)
            self.register(r, v, cpath)
            name = gs(v, "name")
            if name is not None:
                r["name"] = name
            elif not single:
                tok = token(s)
                if tok is None:
                    raise Reject("no token")
                r["name"] = pattern_head(s, tok[0]) + pattern_tail(s, tok[1])
            if not single:
                d = gs(v, "description")
                if d is not None:
                    r["description"] = d
            r["addressOffset"] -= base
            if not single and r["addressOffset"] >= dinc:
                raise Reject("outside of the cluster")
            c["children"].append(r)
        if not single:
            c["dim"] = {"dim": dim, "inc": dinc, "index": dindex}
        self.cluster_pre(c, y, path)
        self.cluster_post(c, y, path)
        ch.insert(place, c)
        b["children"] = ch

    # ---- register
    def register(self, r, y, bpath):
        if "derivedFrom" in r:
            return
        rpath = RPath(bpath, r["name"])
        for s in str_list(y, "_delete"):
            r["fields"] = [f for f in r["fields"] if not match(f["name"], s)]
        for s in str_list(y, "_strip"):
            for f in r["fields"]:
                f["name"] = strip_start(f["name"], s)
        for s in str_list(y, "_strip_end"):
            for f in r["fields"]:
                f["name"] = strip_end(f["name"], s)
        x = gs(y, "_prefix")
        if x is not None:
            for f in r["fields"]:
                f["name"] = x + f["name"]
        x = gs(y, "_suffix")
        if x is not None:
            for f in r["fields"]:
                f["name"] += x
        for s in str_list(y, "_clear"):
            clear_field(r, s)
        for spec, v in hash_items(y, "_modify"):
            modify_field(r, need_str(spec), need_hash(v), rpath)
        for name, v in hash_items(y, "_add"):
            need_hash(v)
            if any(f["name"] == need_str(name) for f in r["fields"]):
                raise Reject("duplicate field")
            r["fields"].append(with_dim(build_field(name, v, rpath), v))
        for spec, v in hash_items(y, "_derive"):
            derive_field(r, need_str(spec), v, rpath)
        v = y.get("_merge")
        if isinstance(v, dict):
            for k, x in v.items():
                merge(r, need_str(k), x)
        elif isinstance(v, list):
            for k in v:
                merge(r, need_str(k), None)
        elif is_str(v):
            merge(r, v, None)
        elif v is not None:
            raise Reject("bad _merge")
        v = y.get("_split")
        if isinstance(v, dict):
            for k, x in v.items():
                split(r, need_str(k), need_hash(x))
        elif isinstance(v, list):
            for k in v:
                split(r, need_str(k), {})
        elif is_str(v):
            split(r, v, {})
        elif v is not None:
            raise Reject("bad _split")
        for spec, v in y.items():
            if need_str(spec) not in REG_KW:
                self.field(r, spec, v, rpath)
        for spec, v in hash_items(y, "_array"):
            collect_fields(r, need_str(spec), need_hash(v))

    def field(self, r, spec, v, rpath):
        if isinstance(v, dict):
            rk = [k for k in v if k in READ]
            wk = [k for k in v if k in WRITE]
            if len(rk) > 1:
                raise Unspecified("several read actions")
            if not rk and not wk:
                self.enum(r, spec, v, None)
            for k in rk:
                x = need_hash(v[k])
                if x:
                    self.enum(r, spec, x, "read")
                if READ[k]:
                    for f in flds(r, opt(spec)[0]):
                        f["readAction"] = READ[k]
            if len([k for k in wk if v[k]]) > 1 or len([k for k in wk if k != "_write"]) > 1:
                raise Unspecified("several write actions")
            for k in wk:
                x = need_hash(v[k])
                if x:
                    self.enum(r, spec, x, "write")
                if k == "_WM":
                    for f in flds(r, opt(spec)[0]):
                        f.pop("modifiedWriteValues", None)
                elif WRITE[k]:
                    for f in flds(r, opt(spec)[0]):
                        f["modifiedWriteValues"] = WRITE[k]
        elif isinstance(v, list) and len(v) == 2:
            s, ignore = opt(spec)
            fs = flds(r, s)
            if not fs and not ignore:
                raise Reject("no field")
            for f in fs:
                f["wc"] = ["range", parse_uint(v[0], "range"), parse_uint(v[1], "range")]
        elif isinstance(v, list):
            raise Reject("not a range")
        elif v is not None and spec not in COLLECTED:
            raise Reject("not a field rule")

    def enum(self, r, spec, v, usage):
        replace = False
        if "_replace_enum" in v:
            v = gh(v, "_replace_enum")
            replace = True
        racc = r.get("access")
        s, ignore = opt(spec)
        d = gs(v, "_derivedFrom")
        if d is not None:
            found = [(f, e) for f in r["fields"] for e in f["enums"] if e.get("name") == d]
            if len(found) != 1:
                raise Reject("enumeratedValues not found or ambiguous")
            of, oe = found[0]
            if "derivedFrom" in oe:
                raise Reject("multilevel derive")
            implied = "usage" not in oe
            ou = oe.get("usage") or check_usage(of.get("access") or racc or "read-write", None)
            fs = flds(r, s)
            if not fs:
                if ignore:
                    return
                raise Reject("no field")
            for f in fs:
                acc = f.get("access") or racc or "read-write"
                if check_usage(acc, usage) != ou:
                    raise Reject("usage differs")
                if f["name"] == d:
                    raise Reject("derived from itself")
                e = {"derivedFrom": d, "values": []}
                if implied and make_usage(acc, ou):
                    e["usage"] = ou
                set_enum(f, e, ou, True, acc)
            return
        fs = flds(r, s)
        if not fs:
            if ignore:
                return
            raise Reject("no field matches %r" % s)
        if len({f["width"] for f in fs}) > 1:
            raise Reject("different widths")
        first = min(fs, key=lambda f: f["off"])
        # min() keeps the first of equals
        name = gs(v, "_name")
        if name is None:
            b = first["name"].replace("%s", "")
            if not b or b[0].isdigit():
                raise Reject("bad enum name")
            name = b + {"read": "R", "write": "W", None: ""}[usage]
        shared = usage if usage and any(make_usage(f.get("access") or racc or "read-write", usage) for f in fs) else None
        for f in fs:
            acc = f.get("access") or racc or "read-write"
            cu = check_usage(acc, usage)
            base = f["off"] == first["off"]
            if self.enum_derive == "none" or base:
                e = {"values": ev_list(v)}
                u = make_usage(acc, cu) if self.enum_derive == "none" else shared
                if u:
                    e["usage"] = u
                if base:
                    e["name"] = name
                set_enum(f, e, cu, replace, acc)
            elif self.enum_derive == "field":
                f["derivedFrom"] = first["name"]
                f.pop("modifiedWriteValues", None)
                f.pop("wc", None)
                f["enums"] = []
                validate_field(f)
            else:
                set_enum(f, {"derivedFrom": name, "values": []}, cu, True, acc)
        fl = r["fields"]
        i, j = index_is(fl, first), index_is(fl, fs[0])
        if i != j:
            fl.insert(j, fl.pop(i))


# ------------------------------------------------------------------ helpers

NAMES = {"register": ("name", "displayName", "alternateRegister"),
         "cluster": ("name", "headerStructName", "alternateCluster")}
READ = {"_read": None, "_RM": "modify", "_RS": "set", "_RC": "clear", "_RME": "modifyExternal"}
WRITE = {"_write": None, "_WM": "modify", "_WS": "set", "_WC": "clear", "_W1S": "oneToSet", "_W0C": "zeroToClear",
         "_W1C": "oneToClear", "_W0S": "zeroToSet", "_W1T": "oneToToggle", "_W0T": "zeroToToggle"}
RWACC = ("read-write", "read-writeOnce")


def index_is(items, x):
    for i, y in enumerate(items):
        if y is x:
            return i


def regs(b, s):
    return [c for c in b["children"] if c["k"] == "register" and match(c["name"], s)]


def clus(b, s):
    return [c for c in b["children"] if c["k"] == "cluster" and match(c["name"], s)]


def flds(r, s):
    return [f for f in r["fields"] if match(f["name"], s)]


def need_children(b, ignore=False):
    if b["k"] == "peripheral" and not b["hasregs"]:
        if not ignore:
            raise Reject("no registers")


def add_child(b, c):
    b["children"].append(c)
    if b["k"] == "peripheral":
        b["hasregs"] = True


def delete_cluster(b, spec):
    s, ignore = opt(spec)
    need_children(b, ignore)
    n = len(b["children"])
    b["children"] = [c for c in b["children"] if c["k"] != "cluster" or not match(c["name"], s)]
    if len(b["children"]) == n and not ignore:
        raise Reject("no cluster deleted")


def delete_interrupt(p, s):
    p["interrupts"] = [i for i in p["interrupts"] if not match(i["name"], s)]


def modify_interrupt(p, s, v):
    for i in p["interrupts"]:
        if match(i["name"], s):
            i.update({k: z for k, z in interrupt_rule(v).items() if z is not None})


def add_interrupt(p, name, v):
    if any(i["name"] == name for i in p["interrupts"]):
        raise Reject("duplicate interrupt")
    p["interrupts"].append(build_interrupt(name, v))


def add_register(b, name, v, path):
    if any(c["k"] == "register" and c["name"] == name for c in b["children"]):
        raise Reject("duplicate register")
    r = register_from(name, v, path)
    b["children"].insert(adding_pos(b["children"], r["addressOffset"], "addressOffset"), r)
    if b["k"] == "peripheral":
        b["hasregs"] = True


def add_cluster(b, name, v, path):
    if any(c["k"] == "cluster" and c["name"] == name for c in b["children"]):
        raise Reject("duplicate cluster")
    r = cluster_rule(v, path)
    if r["addressOffset"] is None or r["children"] is None:
        raise Reject("incomplete cluster")
    c = {"k": "cluster", "name": name, "addressOffset": r["addressOffset"], "children": r["children"]}
    for k in ("description", "alternateCluster", "headerStructName"):
        if r[k]:
            c[k] = r[k]
    if r["derivedFrom"] is not None:
        c["derivedFrom"] = r["derivedFrom"]
    set_props(c, r["props"])
    with_dim(c, v)
    b["children"].insert(adding_pos(b["children"], c["addressOffset"], "addressOffset"), c)
    if b["k"] == "peripheral":
        b["hasregs"] = True


def copy_register(b, name, v, path):
    src = gs(v, "_from")
    if src is None:
        raise Reject("_from missing")
    s = next((c for c in b["children"] if c["k"] == "register" and c["name"] == src), None)
    if s is None:
        raise Reject("no such register")
    new = clone(s)
    if "derivedFrom" in s:
        up = origins([c for c in b["children"] if c["k"] == "register"], s["derivedFrom"])
        if name in up or "%s.%s" % (path, name) in up:
            raise Reject("copied over its own source")
    r = register_rule(v, path)
    r["name"] = name
    r["displayName"] = ""
    modify_dim(new, make_dim(v))
    apply_register(new, r)
    for i, c in enumerate(b["children"]):
        if c["k"] == "register" and c["name"] == name:
            new["addressOffset"] = c["addressOffset"]
            b["children"][i] = new
            return
    add_child(b, new)


def modify_registers(rs, v, path):
    r = register_rule(v, path)
    dim = make_dim(v)
    for n in rs:
        modify_dim(n, dim)
        apply_register(n, r)
        if v.get("access") == "":
            n.pop("access", None)


def modify_clusters(cs, v, path):
    r = cluster_rule(v, path)
    dim = make_dim(v)
    for n in cs:
        modify_dim(n, dim)
        apply_cluster(n, r)


def inherit(new, ps):
    """A copy of a derived peripheral has the contents it inherits, apart from interrupts."""
    seen = []
    while "derivedFrom" in new:
        src = new.pop("derivedFrom")
        if src in seen:
            raise Reject("derived in a circle")
        seen.append(src)
        s = next((p for p in ps if p["name"] == src), None)
        if s is None:
            raise Reject("derived from nothing")
        for k in ("version", "description", "groupName", "prependToName", "appendToName", "headerStructName") + PROP5:
            if k not in new and k in s:
                new[k] = s[k]
        if not new["addressBlocks"]:
            new["addressBlocks"] = clone(s["addressBlocks"])
        if not new["children"] and not new.get("hasregs") and not new.get("empty_registers"):
            new["children"] = clone(s["children"])
            new.pop("empty_registers", None)
            if "empty_registers" in s:
                new["empty_registers"] = s["empty_registers"]
            new["hasregs"] = s.get("hasregs", bool(s["children"]) or bool(s.get("empty_registers")))
        if "derivedFrom" in s:
            new["derivedFrom"] = s["derivedFrom"]


def origins(nodes, name):
    """A name and those that its bearer is derived from, over all steps."""
    up = []
    while name is not None and name not in up:
        up.append(name)
        name = next((n.get("derivedFrom") for n in nodes if n["name"] == name), None)
    return up


def derive_register(b, spec, v, path):
    s, ignore = opt(spec)
    if is_str(v):
        src, dim, r = v, None, register_rule({}, path)
    elif isinstance(v, dict):
        src = gs(v, "_from")
        if src is None:
            raise Reject("_from missing")
        dim, r = make_dim(v), register_rule(v, path)
    else:
        raise Reject("bad _derive")
    parts = src.split(".")
    full = src
    if len(parts) == 2 and path.clusters:
        full = "%s.%s" % (path.parent(), src)
    r["derivedFrom"] = full
    if "." not in src and not any(c["k"] == "register" and c["name"] == src for c in b["children"]):
        raise Reject("no such register")
    rs = regs(b, s)
    found = [n["name"] for n in rs]
    up = origins([c for c in b["children"] if c["k"] == "register"], src)
    if any(n["name"] in up or full == "%s.%s" % (path, n["name"]) for n in rs):
        raise Reject("derived from itself")
    if rs:
        for n in rs:
            modify_dim(n, dim)
            apply_register(n, r)
    elif not ignore:
        check_dimable(s)
        n = build_register(s, r)
        if dim is not None:
            n["dim"] = build_dim(dim)
        add_child(b, n)
    for name in found:
        for c in b["children"]:
            if c["k"] == "register" and c.get("derivedFrom") == name:
                c["derivedFrom"] = full


def clear_field(r, s):
    for f in r["fields"]:
        if match(f["name"], s) and "derivedFrom" not in f:
            f["enums"] = []
            f.pop("wc", None)


def clear_fields(children, s):
    for c in children:
        if c["k"] == "cluster":
            clear_fields(c["children"], s)
        elif match(c["name"], s) and "derivedFrom" not in c:
            clear_field(c, "*")


def modify_field(r, spec, v, rpath):
    s, ignore = opt(spec)
    fs = flds(r, s)
    rule = field_rule(v, rpath)
    dim = make_dim(v)
    if not fs and not ignore:
        raise Reject("no field")
    for f in fs:
        modify_dim(f, dim)
        if rule["wc"] == "none":
            f.pop("wc", None)
        elif rule["wc"] is not None:
            f["wc"] = rule["wc"]
        apply_field(f, rule)
        if v.get("access") == "":
            f.pop("access", None)


def apply_field(f, rule):
    if rule["name"] is not None:
        f["name"] = rule["name"]
    set_opt(f, "description", rule["description"])
    for k in ("off", "width"):
        if k in rule:
            f[k] = rule[k]
    if rule["access"] is not None:
        f["access"] = rule["access"]
    if rule["derivedFrom"] is not None:
        f["derivedFrom"] = rule["derivedFrom"]
        f.pop("modifiedWriteValues", None)
        f.pop("wc", None)
        f["enums"] = []
    else:
        if rule["modifiedWriteValues"] is not None:
            f["modifiedWriteValues"] = rule["modifiedWriteValues"]
        if rule["wc"] not in (None, "none"):
            f["wc"] = rule["wc"]
        if rule["readAction"] is not None:
            f["readAction"] = rule["readAction"]
    validate_field(f)


def derive_field(r, spec, v, rpath):
    s, ignore = opt(spec)
    if is_str(v):
        src, dim, rule = v, None, field_rule({}, rpath)
    elif isinstance(v, dict):
        src = gs(v, "_from")
        if src is None:
            raise Reject("_from missing")
        dim, rule = make_dim(v), field_rule(v, rpath)
    else:
        raise Reject("bad _derive")
    parts = src.split(".")
    if len(parts) == 3 and rpath.block.clusters:
        src = "%s.%s" % (rpath.block.parent(), src)
    elif len(parts) == 2:
        src = "%s.%s" % (rpath.block, src)
    rule["derivedFrom"] = src
    fs = flds(r, s)
    up = origins(r["fields"], src)
    if any(f["name"] in up or "%s.%s" % (rpath, f["name"]) in up for f in fs):
        raise Reject("derived from itself")
    if fs:
        for f in fs:
            modify_dim(f, dim)
            apply_field(f, rule)
    elif not ignore:
        check_dimable(s)
        if "off" not in rule or "width" not in rule:
            raise Reject("field needs a bit range")
        f = {"k": "field", "name": s, "off": rule["off"], "width": rule["width"], "enums": []}
        for k in ("description", "derivedFrom", "access", "modifiedWriteValues", "readAction"):
            if rule[k] is not None:
                f[k] = rule[k]
        if rule["wc"] not in (None, "none"):
            f["wc"] = rule["wc"]
        validate_field(f)
        if dim is not None:
            f["dim"] = build_dim(dim)
        r["fields"].append(f)


def merge(r, key, v):
    if v is None:
        names = [f["name"] for f in flds(r, key)]
        name = os.path.commonprefix(names)
    elif is_str(v):
        names, name = [f["name"] for f in flds(r, v)], key
    elif isinstance(v, list):
        names, name = [f["name"] for s in v for f in flds(r, need_str(s))], key
    else:
        raise Reject("bad _merge")
    if not names:
        raise Reject("nothing to merge")
    idx = [i for i, f in enumerate(r["fields"]) if f["name"] in names]
    fs = [r["fields"][i] for i in idx]
    so = sorted(fs, key=lambda f: f["off"])
    if not name or any("dim" in f for f in fs) or any(
            b["off"] != a["off"] + a["width"] for a, b in zip(so, so[1:])):
        raise Unspecified("merge of fields that are not adjacent")
    n = {"k": "field", "name": name, "off": min(f["off"] for f in fs), "width": sum(f["width"] for f in fs),
         "enums": []}
    if "description" in fs[0]:
        n["description"] = fs[0]["description"]
    accs = {f.get("access") for f in fs}
    if len(accs) == 1 and None not in accs:
        n["access"] = accs.pop()
    rest = [f for i, f in enumerate(r["fields"]) if i not in set(idx)]
    rest.insert(idx[0], n)
    r["fields"] = rest


def split(r, spec, v):
    s, ignore = opt(spec)
    fs = flds(r, s)
    if not fs:
        if ignore:
            return
        raise Reject("nothing to split")
    if len(fs) > 1:
        raise Reject("only one field can be split")
    f = fs[0]
    if "dim" in f:
        raise Unspecified("split of a field array")
    name = gs(v, "name")
    if name is None:
        name = f["name"] + "%s"
    desc = gs(v, "description")
    if desc is None:
        desc = f.get("description")
    out = []
    for i in range(f["width"]):
        n = {"k": "field", "name": name.replace("%s", str(i)), "off": f["off"] + i, "width": 1, "enums": []}
        if desc is not None:
            n["description"] = desc.replace("%s", str(i))
        out.append(n)
    r["fields"] = [x for x in r["fields"] if x["name"] != f["name"]] + out


TOKEN = re.compile(r"[\w%]*?((?:[?*]|\[\d+(?:-\d+)?\]|\[[a-zA-Z]+(?:-[a-zA-Z]+)?\])+)[\w%]*")


def token(spec):
    """(characters before, characters after) the variable part of the first alternative."""
    s = spec.split(",")[0]
    m = TOKEN.fullmatch(s)
    if not m:
        return None
    return m.start(1), len(s) - m.end(1)


def cut(name, li, ri):
    x = name[li:len(name) - ri]
    if not x or li + ri > len(name):
        raise Unspecified("empty index")
    return x


def pattern_head(s, li):
    return s[:li]


def pattern_tail(s, ri):
    return s[len(s) - ri:]


def regular(offs, inc):
    return all(b - a == inc for a, b in zip(offs, offs[1:]))


def norm_dim(d):
    if d is None:
        return None
    return (d["dim"], d["inc"], tuple(d["index"]) if d.get("index") else None, d.get("name"))


def bitmask(r):
    m = 0
    for f in r["fields"]:
        n, inc = (f["dim"]["dim"], f["dim"]["inc"]) if "dim" in f else (1, 0)
        for i in range(n):
            m |= ((1 << f["width"]) - 1) << (f["off"] + i * inc)
    return m & (2 ** 64 - 1)


def common(descs, index):
    """Common description with %s; None if none has one; False if there is none in common."""
    d0 = descs[0]
    if d0 is not None and index[0]:
        at = d0.find(index[0])
        while at >= 0:
            t = d0[:at] + "%s" + d0[at + len(index[0]):]
            if all(d == t.replace("%s", i, 1) for d, i in zip(descs[1:], index[1:])):
                return t
            at = d0.find(index[0], at + len(index[0]))
    if all(d == d0 for d in descs):
        return d0
    return False


def expand_array(b, spec):
    need_children(b)
    out, found = [], False
    for c in b["children"]:
        if c["k"] == "register" and "dim" in c and match(c["name"], spec):
            found = True
            d = c["dim"]
            idx = d.get("index") or [str(i) for i in range(d["dim"])]
            named = dim_array_index(d)
            for n, i in enumerate(idx[:d["dim"]]):
                r = clone(c)
                r.pop("dim")
                for k in ("name", "description", "displayName"):
                    if k in r:
                        r[k] = r[k].replace("[%s]", i).replace("%s", i)
                v = named.get(i, {})
                r.update((k, v[k]) for k in ("name", "description") if k in v)
                r["addressOffset"] += n * d["inc"]
                out.append(r)
        else:
            out.append(c)
    if not found:
        raise Reject("no array")
    b["children"] = out


def expand_cluster(b, spec, opts):
    s, ignore = opt(spec)
    need_children(b, ignore)
    pre = gs(opts, "_preindex")
    post = gs(opts, "_postindex")
    pre = "_" if pre is None else pre
    post = "_" if post is None else post
    zero, nopre = gb(opts, "_zeroindex"), gb(opts, "_noprefix")
    cs = [c for c in b["children"] if c["k"] == "cluster" and "dim" in c and match(c["name"], s)]
    if not cs:
        if ignore:
            return
        raise Reject("no cluster")
    new = []
    for c in cs:
        d = c["dim"]
        name = c["name"]
        sib = {x["name"] for x in c["children"]}
        if not c["children"] or d["dim"] == 0:
            raise Reject("nothing in cluster")
        for n in range(d["dim"]):
            if d["dim"] > 1 or zero:
                if nopre:
                    raise Reject("noprefix with several elements")
                if d.get("index"):
                    if "[%s]" in name or len(d["index"]) != d["dim"]:
                        raise Reject("dimIndex")
                    p = name.replace("%s", pre + d["index"][n]) + post
                elif "[%s]" in name:
                    p = name.replace("[%s]", pre + str(n)) + post
                elif "%s" in name:
                    p = name.replace("%s", pre + str(n)) + post
                else:
                    p = name + pre + str(n) + post
            elif nopre:
                p = ""
            else:
                p = name.replace("[%s]", "").replace("%s", "") + post
            for k in ("register", "cluster"):
                for x in c["children"]:
                    if x["k"] == k:
                        x = clone(x)
                        x["addressOffset"] += c["addressOffset"] + n * d["inc"]
                        x["name"] = p + x["name"]
                        if x.get("derivedFrom") in sib:
                            x["derivedFrom"] = p + x["derivedFrom"]
                        if "derivedFrom" not in x:
                            for q in PROP5:
                                if q in c and q not in x:
                                    x[q] = c[q]
                        new.append(x)
    gone = {id(c) for c in cs}
    b["children"] = [c for c in b["children"] if id(c) not in gone] + new


def collect_fields(r, spec, y):
    s, ignore = opt(spec)
    idx = [i for i, f in enumerate(r["fields"]) if "dim" not in f and match(f["name"], s)]
    if not idx:
        if ignore:
            return
        raise Reject("no fields")
    fs = sorted((r["fields"][i] for i in idx), key=lambda f: f["off"])
    rest = [f for i, f in enumerate(r["fields"]) if i not in set(idx)]
    tok = token(s)
    if tok is None:
        raise Reject("no token")
    li, ri = tok
    n = len(fs)
    index = [str(i) for i in range(n)] if "_start_from_zero" in y else [cut(f["name"], li, ri) for f in fs]
    offs = [f["off"] for f in fs]
    inc = offs[1] - offs[0] if n > 1 else 0
    if not regular(offs, inc):
        raise Reject("irregular")
    if len({f["width"] for f in fs}) > 1:
        raise Reject("different widths")
    f = fs[0]
    name = gs(y, "name")
    f["name"] = name if name is not None else pattern_head(s, li) + "%s" + pattern_tail(s, ri)
    x = gs(y, "description")
    if x is not None:
        if x != "_original":
            f["description"] = x
    else:
        c = common([g.get("description") for g in fs], index)
        if c is False:
            raise Reject("no common description")
        if c is None:
            f.pop("description", None)
        else:
            f["description"] = c
    f["dim"] = {"dim": n, "inc": inc, "index": index}
    rest.insert(idx[0], f)
    r["fields"] = rest


def strip_start(name, pat):
    cut = [i for i in range(len(name) + 1) if globm(pat, name[:i])]
    if len(cut) > 1 or cut == [len(name)]:
        raise Unspecified("ambiguous or nothing left")
    return name[cut[0]:] if cut else name


def strip_end(name, pat):
    cut = [i for i in range(len(name) + 1) if globm(pat, name[i:])]
    if len(cut) > 1 or cut == [0]:
        raise Unspecified("ambiguous or nothing left")
    return name[:cut[0]] if cut else name


def ev_list(v):
    seen, out = set(), []
    for n, x in v.items():
        need_str(n)
        if n.startswith("_"):
            continue
        if n[:1].isdigit():
            raise Reject("digit")
        if not isinstance(x, list) or len(x) != 2:
            raise Reject("bad enumerated value")
        val = parse_int(x[0])
        if val < -1:
            raise Reject("negative value")
        desc = need_str(x[1])
        u = val % 2 ** 64
        if u in seen:
            raise Reject("duplicate value")
        seen.add(u)
        e = {"name": n, "description": desc}
        if val == -1:
            e["isDefault"] = True
        else:
            e["value"] = u
        out.append((u, e))
    if not out:
        raise Reject("empty enumeration")
    return [e for _, e in sorted(out, key=lambda t: t[0])]


def check_usage(acc, usage):
    if acc in RWACC:
        return usage or "read-write"
    if acc == "read-only" and usage in (None, "read"):
        return "read"
    if acc in ("write-only", "writeOnce") and usage in (None, "write"):
        return "write"
    raise Reject("usage incompatible with access")


def make_usage(acc, u):
    if acc in RWACC and u == "read-write" or acc == "read-only" and u == "read" or \
            acc in ("write-only", "writeOnce") and u == "write":
        return None
    return u


def set_enum(f, e, usage, replace, acc):
    es = f["enums"]
    if usage == "read-write":
        if es and not replace:
            raise Reject("already has enumeratedValues")
        f["enums"] = [e]
        return
    if not es:
        es.append(e)
    elif len(es) == 1:
        o = es[0]
        if o.get("usage") in (usage, "read-write"):
            if not replace:
                raise Reject("already has enumeratedValues")
            es[0] = e
        elif "usage" not in o:
            if acc in RWACC:
                o["usage"] = "write" if usage == "read" else "read"
                e["usage"] = usage
                es.append(e)
            else:
                if not replace:
                    raise Reject("already has enumeratedValues")
                es[0] = e
        else:
            es.append(e)
    elif len(es) == 2:
        if not replace:
            raise Reject("already has enumeratedValues")
        for i in (0, 1):
            if es[i].get("usage") == usage:
                es[i] = clone(e)
    else:
        raise Reject("incorrect enumeratedValues")


def apply(dev, patch, enum_derive="enum", loader=None):
    """Expected device after `patch` (a merged patch, includes already resolved)."""
    r = Ref(clone(dev), enum_derive, loader)
    r.device(patch)
    readable(r.d)
    return r.d


def readable(n):
    """Results that no reader of SVD files accepts are refused."""
    if isinstance(n, list):
        for x in n:
            readable(x)
    elif isinstance(n, dict):
        d = n.get("dim")
        if isinstance(d, dict):
            if "%s" not in n["name"]:
                raise Reject("unreadable: array without a placeholder")
            if d.get("index") and len(d["index"]) != d["dim"]:
                x = d["index"][:d["dim"]]
                if len(x) < d["dim"] or not all(re.fullmatch("0|[1-9][0-9]*", i) for i in x) or any(
                        int(b) != int(a) + 1 for a, b in zip(x, x[1:])) or not x:
                    raise Reject("unreadable: number of indices")
                d["index"] = x      # a series of numbers is written as a range of that length
        if n.get("name") == "" and ("k" in n or "value" in n or "isDefault" in n):
            raise Reject("unreadable: no name")
        for x in n.values():
            readable(x)
