"""SVD device model (plain dicts), XML writer and XML reader.

Independent of svdtools: its own writer produces the inputs, its own reader parses what the tools emit.
Node kinds: device, peripheral, cluster, register, field.  Missing attributes are absent keys.
"""
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

PROPS = ("size", "access", "protection", "resetValue", "resetMask")
INT = {"size", "resetValue", "resetMask", "baseAddress", "addressOffset", "value", "offset",
       "dim", "dimIncrement", "addressUnitBits", "width", "nvicPrioBits", "deviceNumInterrupts",
       "sauNumRegions", "minimum", "maximum"}
BOOL = {"mpuPresent", "fpuPresent", "fpuDP", "dspPresent", "icachePresent", "dcachePresent",
        "itcmPresent", "dtcmPresent", "vtorPresent", "vendorSystickConfig", "isDefault"}
DEV_KEYS = ("vendor", "vendorID", "name", "series", "version", "description", "licenseText",
            "headerSystemFilename", "headerDefinitionsPrefix", "addressUnitBits", "width") + PROPS
CPU_KEYS = ("name", "revision", "endian", "mpuPresent", "fpuPresent", "fpuDP", "dspPresent", "icachePresent",
            "dcachePresent", "itcmPresent", "dtcmPresent", "vtorPresent", "nvicPrioBits", "vendorSystickConfig",
            "deviceNumInterrupts", "sauNumRegions")
PER_KEYS = ("name", "displayName", "version", "description", "alternatePeripheral", "groupName", "prependToName",
            "appendToName", "headerStructName", "baseAddress") + PROPS
CLU_KEYS = ("name", "description", "alternateCluster", "headerStructName", "addressOffset") + PROPS
REG_KEYS = ("name", "displayName", "description", "alternateGroup", "alternateRegister", "addressOffset") + PROPS + (
    "dataType", "modifiedWriteValues", "readAction")
FLD_KEYS = ("name", "description", "access", "modifiedWriteValues", "readAction")


class ModelError(Exception):
    """Output is not a well formed SVD according to this reader."""


def parse_num(t):
    t = t.strip()
    try:
        if t[:2] in ("0x", "0X"):
            return int(t[2:], 16)
        if t[:1] == "#":
            return int(t[1:].lower().replace("x", "0"), 2)
        if t[:2] == "0b":
            return int(t[2:].replace("x", "0"), 2)
        return int(t, 10)
    except ValueError:
        raise ModelError("bad number %r" % t)


def parse_index(t):
    if "-" in t:
        a, b = t.split("-", 1)
        if a.isdigit() and b.isdigit():
            return [str(i) for i in range(int(a), int(b) + 1)]
        if len(a) == 1 and len(b) == 1:
            return [chr(c) for c in range(ord(a), ord(b) + 1)]
        raise ModelError("bad dimIndex %r" % t)
    return t.split(",")


def num(t, tag):
    if tag in INT:
        return parse_num(t)
    if tag in BOOL:
        t = t.strip()
        if t in ("true", "1"):
            return True
        if t in ("false", "0"):
            return False
        raise ModelError("bad bool %r" % t)
    return t


def _text(e):
    return e.text if e.text is not None else ""


def _simple(d, e, keys, extra=()):
    """Read simple children listed in keys; return the others."""
    rest = []
    for c in e:
        if c.tag in keys:
            if c.tag in d:
                raise ModelError("duplicate <%s> in <%s>" % (c.tag, e.tag))
            d[c.tag] = num(_text(c), c.tag)
        else:
            rest.append(c)
    return rest


def _dim(d, rest):
    dim = {}
    out = []
    for c in rest:
        if c.tag == "dim":
            dim["dim"] = parse_num(_text(c))
        elif c.tag == "dimIncrement":
            dim["inc"] = parse_num(_text(c))
        elif c.tag == "dimIndex":
            dim["index"] = parse_index(_text(c))
        elif c.tag == "dimName":
            dim["name"] = _text(c)
        elif c.tag == "dimArrayIndex":
            ai = {"values": []}
            for v in c:
                if v.tag == "headerEnumName":
                    ai["headerEnumName"] = _text(v)
                elif v.tag == "enumeratedValue":
                    ai["values"].append(read_ev(v))
                else:
                    raise ModelError("unexpected <%s>" % v.tag)
            dim["arrayIndex"] = ai
        else:
            out.append(c)
    if dim:
        if "dim" not in dim or "inc" not in dim:
            raise ModelError("incomplete dim")
        d["dim"] = dim
    return out


def _attrs(d, e, allowed=("derivedFrom",)):
    for k, v in e.attrib.items():
        if k not in allowed:
            raise ModelError("unexpected attribute %s on <%s>" % (k, e.tag))
        d[k] = v


def read_ev(e):
    d = {}
    rest = _simple(d, e, ("name", "description", "value", "isDefault"))
    _attrs(d, e, ())
    if rest:
        raise ModelError("unexpected <%s> in enumeratedValue" % rest[0].tag)
    return d


def read_wc(e):
    cs = list(e)
    if len(cs) != 1:
        raise ModelError("writeConstraint with %d children" % len(cs))
    c = cs[0]
    if c.tag == "range":
        d = {}
        rest = _simple(d, c, ("minimum", "maximum"))
        if rest or len(d) != 2:
            raise ModelError("bad range")
        return ["range", d["minimum"], d["maximum"]]
    if c.tag in ("useEnumeratedValues", "writeAsRead"):
        return [c.tag, _text(c).strip() in ("true", "1")]
    raise ModelError("unexpected <%s>" % c.tag)


def read_field(e):
    d = {"k": "field"}
    _attrs(d, e)
    rest = _dim(d, _simple(d, e, FLD_KEYS))
    br = {}
    evs = []
    for c in rest:
        if c.tag in ("bitRange", "lsb", "msb", "bitOffset", "bitWidth"):
            br[c.tag] = _text(c).strip()
        elif c.tag == "writeConstraint":
            d["wc"] = read_wc(c)
        elif c.tag == "enumeratedValues":
            v = {}
            _attrs(v, c)
            vs = []
            for x in _simple(v, c, ("name", "usage", "headerEnumName")):
                if x.tag != "enumeratedValue":
                    raise ModelError("unexpected <%s>" % x.tag)
                vs.append(read_ev(x))
            v["values"] = vs
            evs.append(v)
        else:
            raise ModelError("unexpected <%s> in field" % c.tag)
    if "bitRange" in br:
        t = br["bitRange"]
        a, b = t[1:-1].split(":")
        d["off"], d["width"] = int(b), int(a) - int(b) + 1
        d["br"] = "bitRange"
    elif "lsb" in br:
        a, b = parse_num(br["msb"]), parse_num(br["lsb"])
        d["off"], d["width"] = b, a - b + 1
        d["br"] = "lsb"
    elif "bitOffset" in br:
        d["off"] = parse_num(br["bitOffset"])
        d["width"] = parse_num(br["bitWidth"])
        d["br"] = "offset"
    else:
        raise ModelError("field without bit range")
    d["enums"] = evs
    return d


def read_register(e):
    d = {"k": "register"}
    _attrs(d, e)
    rest = _dim(d, _simple(d, e, REG_KEYS))
    fields = []
    for c in rest:
        if c.tag == "writeConstraint":
            d["wc"] = read_wc(c)
        elif c.tag == "fields":
            for f in c:
                if f.tag != "field":
                    raise ModelError("unexpected <%s> in fields" % f.tag)
                fields.append(read_field(f))
        else:
            raise ModelError("unexpected <%s> in register" % c.tag)
    d["fields"] = fields
    return d


def read_cluster(e):
    d = {"k": "cluster"}
    _attrs(d, e)
    rest = _dim(d, _simple(d, e, CLU_KEYS))
    d["children"] = [read_rc(c) for c in rest]
    return d


def read_rc(c):
    if c.tag == "register":
        return read_register(c)
    if c.tag == "cluster":
        return read_cluster(c)
    raise ModelError("unexpected <%s> in registers" % c.tag)


def read_peripheral(e):
    d = {"k": "peripheral"}
    _attrs(d, e)
    rest = _dim(d, _simple(d, e, PER_KEYS))
    abs_, ints, ch = [], [], []
    for c in rest:
        if c.tag == "addressBlock":
            a = {}
            r = []
            for x in c:
                if x.tag in ("offset", "size"):
                    a[x.tag] = parse_num(_text(x))
                elif x.tag in ("usage", "protection"):
                    a[x.tag] = _text(x)
                else:
                    r.append(x)
            if r:
                raise ModelError("unexpected <%s> in addressBlock" % r[0].tag)
            abs_.append(a)
        elif c.tag == "interrupt":
            i = {}
            r = _simple(i, c, ("name", "description", "value"))
            if r:
                raise ModelError("unexpected <%s> in interrupt" % r[0].tag)
            ints.append(i)
        elif c.tag == "registers":
            ch = [read_rc(x) for x in c]
        else:
            raise ModelError("unexpected <%s> in peripheral" % c.tag)
    d["addressBlocks"] = abs_
    d["interrupts"] = ints
    d["children"] = ch
    return d


def read_device(text):
    try:
        e = ET.fromstring(text)
    except ET.ParseError as x:
        raise ModelError("output is not well-formed XML: %s" % x)
    if e.tag != "device":
        raise ModelError("root is <%s>" % e.tag)
    d = {"k": "device"}
    for k, v in e.attrib.items():
        if k == "schemaVersion":
            d["schemaVersion"] = v
    rest = _simple(d, e, DEV_KEYS)
    per = None
    for c in rest:
        if c.tag == "cpu":
            cpu = {}
            r = _simple(cpu, c, CPU_KEYS)
            if r:
                raise ModelError("unexpected <%s> in cpu" % r[0].tag)
            d["cpu"] = cpu
        elif c.tag == "peripherals":
            per = [read_peripheral(x) for x in c]
        else:
            raise ModelError("unexpected <%s> in device" % c.tag)
    if per is None:
        raise ModelError("no <peripherals>")
    d["peripherals"] = per
    return d


# ---------------------------------------------------------------- writer

def _n(v, tag, fmt):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return fmt(v, tag)
    return escape(v)


def default_fmt(v, tag):
    if tag in ("baseAddress", "addressOffset", "resetValue", "resetMask", "offset", "size_ab", "dimIncrement"):
        return "0x%X" % v
    return "%d" % v


def _w(out, ind, d, keys, fmt):
    for k in keys:
        if k in d:
            out.append("%s<%s>%s</%s>" % (ind, k, _n(d[k], k, fmt), k))


def _wdim(out, ind, d, fmt):
    if "dim" not in d:
        return
    x = d["dim"]
    out.append("%s<dim>%s</dim>" % (ind, fmt(x["dim"], "dim")))
    out.append("%s<dimIncrement>%s</dimIncrement>" % (ind, fmt(x["inc"], "dimIncrement")))
    if x.get("index") is not None:
        out.append("%s<dimIndex>%s</dimIndex>" % (ind, escape(",".join(x["index"]))))
    if "name" in x:
        out.append("%s<dimName>%s</dimName>" % (ind, escape(x["name"])))
    if "arrayIndex" in x:
        out.append(ind + "<dimArrayIndex>")
        _w(out, ind + " ", x["arrayIndex"], ("headerEnumName",), fmt)
        for v in x["arrayIndex"]["values"]:
            _wev(out, ind + " ", v, fmt)
        out.append(ind + "</dimArrayIndex>")


def _open(tag, d):
    if "derivedFrom" in d:
        return '<%s derivedFrom="%s">' % (tag, escape(d["derivedFrom"], {'"': "&quot;"}))
    return "<%s>" % tag


def _wwc(out, ind, wc):
    out.append(ind + "<writeConstraint>")
    if wc[0] == "range":
        out.append("%s <range><minimum>%d</minimum><maximum>%d</maximum></range>" % (ind, wc[1], wc[2]))
    else:
        out.append("%s <%s>%s</%s>" % (ind, wc[0], "true" if wc[1] else "false", wc[0]))
    out.append(ind + "</writeConstraint>")


def _wev(out, ind, x, fmt):
    out.append(ind + "<enumeratedValue>")
    _w(out, ind + " ", x, ("name", "description", "value", "isDefault"), fmt)
    out.append(ind + "</enumeratedValue>")


def write_field(out, ind, f, fmt):
    out.append(ind + _open("field", f))
    i2 = ind + " "
    _wdim(out, i2, f, fmt)
    _w(out, i2, f, ("name", "description"), fmt)
    br = f.get("br", "offset")
    if br == "bitRange":
        out.append("%s<bitRange>[%d:%d]</bitRange>" % (i2, f["off"] + f["width"] - 1, f["off"]))
    elif br == "lsb":
        out.append("%s<lsb>%s</lsb><msb>%s</msb>" % (i2, fmt(f["off"], "lsb"), fmt(f["off"] + f["width"] - 1, "msb")))
    else:
        out.append("%s<bitOffset>%s</bitOffset><bitWidth>%s</bitWidth>" % (
            i2, fmt(f["off"], "bitOffset"), fmt(f["width"], "bitWidth")))
    _w(out, i2, f, ("access", "modifiedWriteValues"), fmt)
    if "wc" in f:
        _wwc(out, i2, f["wc"])
    _w(out, i2, f, ("readAction",), fmt)
    for v in f.get("enums", ()):
        out.append(i2 + _open("enumeratedValues", v))
        _w(out, i2 + " ", v, ("name", "headerEnumName", "usage"), fmt)
        for x in v["values"]:
            _wev(out, i2 + " ", x, fmt)
        out.append(i2 + "</enumeratedValues>")
    out.append(ind + "</field>")


def write_rc(out, ind, r, fmt):
    i2 = ind + " "
    if r["k"] == "register":
        out.append(ind + _open("register", r))
        _wdim(out, i2, r, fmt)
        _w(out, i2, r, REG_KEYS[:-1], fmt)
        if "wc" in r:
            _wwc(out, i2, r["wc"])
        _w(out, i2, r, ("readAction",), fmt)
        if r.get("fields"):
            out.append(i2 + "<fields>")
            for f in r["fields"]:
                write_field(out, i2 + " ", f, fmt)
            out.append(i2 + "</fields>")
        out.append(ind + "</register>")
    else:
        out.append(ind + _open("cluster", r))
        _wdim(out, i2, r, fmt)
        _w(out, i2, r, CLU_KEYS, fmt)
        for c in r["children"]:
            write_rc(out, i2, c, fmt)
        out.append(ind + "</cluster>")


def write_device(d, fmt=default_fmt):
    out = ['<?xml version="1.0" encoding="utf-8"?>',
           '<device schemaVersion="%s" xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" '
           'xs:noNamespaceSchemaLocation="CMSIS-SVD.xsd">' % d.get("schemaVersion", "1.1")]
    _w(out, " ", d, DEV_KEYS[:7], fmt)
    if "cpu" in d:
        out.append(" <cpu>")
        _w(out, "  ", d["cpu"], CPU_KEYS, fmt)
        out.append(" </cpu>")
    _w(out, " ", d, DEV_KEYS[7:], fmt)
    out.append(" <peripherals>")
    for p in d["peripherals"]:
        out.append("  " + _open("peripheral", p))
        _wdim(out, "   ", p, fmt)
        _w(out, "   ", p, PER_KEYS, fmt)
        for a in p.get("addressBlocks", ()):
            out.append("   <addressBlock><offset>%s</offset><size>%s</size><usage>%s</usage>%s</addressBlock>" % (
                fmt(a["offset"], "offset"), fmt(a["size"], "size_ab"), a["usage"],
                "<protection>%s</protection>" % a["protection"] if "protection" in a else ""))
        for i in p.get("interrupts", ()):
            out.append("   <interrupt>")
            _w(out, "    ", i, ("name", "description", "value"), fmt)
            out.append("   </interrupt>")
        if p.get("children") or p.get("empty_registers"):
            out.append("   <registers>")
            for c in p["children"]:
                write_rc(out, "    ", c, fmt)
            out.append("   </registers>")
        out.append("  </peripheral>")
    out.append(" </peripherals>")
    out.append("</device>")
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- compare

IGNORED = {"br", "empty_registers", "schemaVersion", "hasregs"}


def norm(n):
    """Copy without notation-only keys."""
    if isinstance(n, dict):
        r = {}
        for k, v in n.items():
            if k in IGNORED or v is None:
                continue
            if k == "dim" and isinstance(v, dict):
                v = dict(v)
                if v.get("index") is None:
                    v.pop("index", None)
            r[k] = norm(v)
        return r
    if isinstance(n, (list, tuple)):
        return [norm(x) for x in n]
    return n


def diff(exp, got, path="", out=None, limit=12):
    """List of human readable differences of two normalised models."""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if type(exp) != type(got):
        out.append("%s: expected %r, got %r" % (path, short(exp), short(got)))
    elif isinstance(exp, dict):
        nm = exp.get("name", "")
        p = "%s/%s" % (path, nm) if nm and not path.endswith("]") else path
        for k in list(exp) + [k for k in got if k not in exp]:
            if k not in got:
                out.append("%s.%s: missing, expected %r" % (p, k, short(exp[k])))
            elif k not in exp:
                out.append("%s.%s: unexpected %r" % (p, k, short(got[k])))
            else:
                diff(exp[k], got[k], p + "." + k, out, limit)
    elif isinstance(exp, list):
        ne = [x.get("name") if isinstance(x, dict) else None for x in exp]
        ng = [x.get("name") if isinstance(x, dict) else None for x in got]
        if len(exp) != len(got) or ne != ng:
            out.append("%s: expected %d items %s, got %d items %s" % (path, len(exp), short(ne), len(got), short(ng)))
        else:
            for i, (a, b) in enumerate(zip(exp, got)):
                nm = ne[i] or i
                diff(a, b, "%s[%s]" % (path, nm), out, limit)
    elif exp != got:
        out.append("%s: expected %r, got %r" % (path, short(exp), short(got)))
    return out


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


def clone(x):
    if type(x) is dict:
        return {k: clone(v) for k, v in x.items()}
    if type(x) is list:
        return [clone(v) for v in x]
    return x


# ---------------------------------------------------------------- derived facts (address map etc.)

def expand_names(name, dim, d=None):
    idx = dim.get("index")
    if idx is None:
        idx = [str(i) for i in range(dim["dim"])]
    named = dim_array_index(dim)
    return [(i, named[i]["name"] if i in named else name.replace("[%s]", i).replace("%s", i)) for i in idx]


def dim_array_index(dim):
    """index -> the enumerated value of dimArrayIndex that names that element."""
    out = {}
    for v in dim.get("arrayIndex", {}).get("values", ()):
        if "value" in v:
            out.setdefault(str(v["value"]), v)
    return out


def instances(node):
    """(index, name, addressOffset delta) for every instance of a possibly dimensioned node."""
    if "dim" not in node:
        return [(None, node["name"], 0)]
    return [(i, n, k * node["dim"]["inc"]) for k, (i, n) in enumerate(expand_names(node["name"], node["dim"]))]


def reg_map(children, base=0, prefix=""):
    """Every register instance: (absolute offset, path, node)."""
    out = []
    for c in children:
        for idx, nm, delta in instances(c):
            a = base + c["addressOffset"] + delta
            if c["k"] == "register":
                out.append((a, prefix + nm, c))
            else:
                out.extend(reg_map(c["children"], a, prefix + nm + "."))
    return out
