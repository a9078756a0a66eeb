"""Rules with one value of a wrong kind: a catalogue of well-formed rules and of what does not belong into them."""
from . import ref
from .yamlout import Raw

ZZ = """<peripheral><name>ZZ</name><description>d</description><baseAddress>0x70000000</baseAddress>
<addressBlock><offset>0</offset><size>0x400</size><usage>registers</usage></addressBlock>
<interrupt><name>IZ</name><description>i</description><value>250</value></interrupt><registers>
<register><name>RA</name><description>r</description><addressOffset>0x0</addressOffset><size>32</size><fields>
<field><name>FA</name><bitOffset>0</bitOffset><bitWidth>2</bitWidth></field>
<field><name>FB0</name><bitOffset>2</bitOffset><bitWidth>1</bitWidth></field>
<field><name>FB1</name><bitOffset>3</bitOffset><bitWidth>1</bitWidth></field>
<field><name>FC</name><bitOffset>8</bitOffset><bitWidth>4</bitWidth>
<enumeratedValues><name>FCE</name><enumeratedValue><name>one</name><value>1</value></enumeratedValue></enumeratedValues></field>
</fields></register>
<register><name>RB0</name><description>r 0</description><addressOffset>0x10</addressOffset><size>32</size></register>
<register><name>RB1</name><description>r 1</description><addressOffset>0x14</addressOffset><size>32</size></register>
<register><name>RB2</name><description>r 2</description><addressOffset>0x18</addressOffset><size>32</size></register>
<register><dim>2</dim><dimIncrement>4</dimIncrement><name>AR%s</name><description>a</description><addressOffset>0x20</addressOffset><size>32</size></register>
<cluster><dim>2</dim><dimIncrement>16</dimIncrement><name>CC%s</name><description>c</description><addressOffset>0x40</addressOffset>
<register><name>X</name><description>x</description><addressOffset>0</addressOffset><size>32</size></register></cluster>
<cluster><name>CS</name><description>c</description><addressOffset>0x80</addressOffset>
<register><name>Y</name><description>y</description><addressOffset>0</addressOffset><size>32</size></register></cluster>
</registers></peripheral>
<peripheral derivedFrom="ZZ"><name>ZY</name><baseAddress>0x70001000</baseAddress></peripheral>
<peripheral><name>ZX</name><baseAddress>0x70002000</baseAddress></peripheral>
"""

REAL = Raw("1.5")
STR = [3, True, None, ["x"], {"a": "b"}, REAL]
NUM = ["five", "", "0x", "0xG", -1, REAL, None, [1], {"a": 1}]
U32 = NUM + [2 ** 32, "0x100000000"]
BOOL = ["maybe", 2, -1, [True], {"a": 1}, None, REAL, ""]
SECT = ["x", 3, True, ["x"], REAL]
HASH = SECT + [None]
NAMES = [3, True, [3], [["x"]], [{"a": "b"}], REAL]


def words(known):
    return STR + ["bogus", known[0].upper() if known[0] != known[0].upper() else known[0].lower(), known[0] + " ", known[0] + "x"]


ACC, MWV, RA, PROT, DT = (words(x) for x in (ref.ACCESS, ref.MWV, ref.RA, ref.PROTECTION, ref.DATATYPE))
WC = ["all", "", 3, True, None, {"a": 1}, [], [1], [0, 1, 2], ["x", 1], [0, "y"], [0, None], REAL]
BITS = STR + ["3:1", "[3]", "[3:]", "[:1]", "[1:3]", "[a:b]", "[3:1", "[3-1]", "[3:1:0]", ""]
DIMIDX = [3, True, {"a": 1}, REAL, None, [0, 1], "0-", "b-a-c", [["0"]]]
DIMAI = [3, True, "x", ["x"], REAL, None, {"a": 0}, {"a": [0]}, {"a": [0, 1]}, {"a": ["x", "t"]}, {"a": None}, {"headerEnumName": 3}]

PROPS = {"size": (16, U32), "access": ("read-only", ACC), "protection": ("s", PROT), "resetValue": (1, NUM), "resetMask": (255, NUM)}
DIM = {"dim": (2, U32), "dimIncrement": (4, U32), "dimIndex": (["A", "B"], DIMIDX), "dimName": ("n", STR),
       "dimArrayIndex": ({"headerEnumName": "E", "a": [0, "t"]}, DIMAI)}
FIELD = {"description": ("t", STR), "access": ("read-only", ACC), "modifiedWriteValues": ("clear", MWV),
         "readAction": ("clear", RA), "writeConstraint": ([0, 1], WC), "_write_constraint": ("none", WC)}
REG = dict(PROPS, displayName=("D", STR), description=("t", STR), alternateGroup=("G", STR), alternateRegister=("RB0", STR),
           dataType=("uint8_t", DT), modifiedWriteValues=("clear", MWV), readAction=("clear", RA), writeConstraint=([0, 1], WC))
CLUSTER = dict(PROPS, description=("t", STR), alternateCluster=("CS", STR), headerStructName=("H", STR))
PER = dict(PROPS, description=("t", STR), displayName=("t", STR), version=("1", STR), groupName=("G", STR), prependToName=("P", STR),
           appendToName=("P", STR), headerStructName=("H", STR), alternatePeripheral=("ZX", STR))
AB = {"offset": (0, U32), "size": (16, U32), "usage": ("buffer", words(("registers",)))}
IRQ = {"description": ("t", STR), "value": (9, U32)}
ENUMVAL = [[1], [1, 2], [1, "t", "u"], ["x", "t"], ["", "t"], [None, "t"], [[0], "t"], "x", 3, True, None, {"a": 1}, REAL, [True, "t"],
           [REAL, "t"], [{"a": 1}, "t"], [-2, "t"], []]


def table():
    """(name, rule, path to the value, wrong values)."""
    t = []

    def add(name, rule, path, bads):
        t.append((name, rule, tuple(path), bads))

    def attrs(name, kinds, wrap, base=None):
        for k, (good, bads) in kinds.items():
            body = dict(base or {})
            body[k] = good
            rule, path = wrap(body)
            add("%s.%s" % (name, k), rule, path + (k,), bads)

    def at(*path):
        def wrap(body):
            for k in reversed(path):
                body = {k: body}
            return body, path
        return wrap
    # device
    DEVICE = {"vendor": ("V", STR), "vendorID": ("V", STR), "name": ("N", STR), "series": ("S", STR), "version": ("1", STR),
              "description": ("t", STR), "licenseText": ("t", STR), "headerSystemFilename": ("h", STR),
              "headerDefinitionsPrefix": ("h", STR), "addressUnitBits": (8, U32), "width": (32, U32), "size": (32, U32),
              "resetValue": (0, NUM), "resetMask": (0, NUM), "access": ("read-only", ACC), "protection": ("s", PROT)}
    attrs("device", DEVICE, at("_modify"))
    CPU = {"name": ("CM4", STR), "revision": ("r0p0", STR), "endian": ("little", words(("little",))), "mpuPresent": (True, BOOL),
           "fpuPresent": (True, BOOL), "nvicPrioBits": (4, U32), "vendorSystickConfig": (False, BOOL)}
    attrs("cpu", CPU, at("_modify", "cpu"), {k: v[0] for k, v in CPU.items()})
    attrs("cpu", {k: (True, BOOL) for k in ("fpuDP", "dspPresent", "icachePresent", "dcachePresent", "itcmPresent", "dtcmPresent",
                                            "vtorPresent")}, at("_modify", "cpu"), {k: v[0] for k, v in CPU.items()})
    add("cpu.section", {"_modify": {"cpu": {k: v[0] for k, v in CPU.items()}}}, ("_modify", "cpu"), HASH)
    for k, v in (("_copy", {"ZN": {"from": "ZZ"}}), ("_modify", {"ZZ": {"description": "t"}}), ("_derive", {"ZX": "ZZ"}),
                 ("_add", {"ZN": {"baseAddress": 1}}), ("_rebase", {"ZY": "ZZ"})):
        add("device." + k, {k: v}, (k,), SECT)
    add("device._delete", {"_delete": ["ZX"]}, ("_delete",), NAMES)
    add("device._clear_fields", {"_clear_fields": ["ZX"]}, ("_clear_fields",), NAMES)
    add("device._copy.body", {"_copy": {"ZN": {"from": "ZZ"}}}, ("_copy", "ZN"), HASH)
    add("device._copy.from", {"_copy": {"ZN": {"from": "ZZ"}}}, ("_copy", "ZN", "from"), STR + ["NOPE", "nope.svd:ZZ"])
    add("device._rebase.old", {"_rebase": {"ZY": "ZZ"}}, ("_rebase", "ZY"), STR + ["NOPE"])
    add("device._derive.body", {"_derive": {"ZN": {"_from": "ZZ", "baseAddress": 1}}}, ("_derive", "ZN"), [3, True, None, ["x"], REAL, {}, {"_from": 3}, "NOPE"])
    add("device._add.body", {"_add": {"ZN": {"baseAddress": 1}}}, ("_add", "ZN"), HASH + [{}])
    add("device._modify.body", {"_modify": {"ZZ": {"description": "t"}}}, ("_modify", "ZZ"), HASH)
    add("device.peripheral", {"ZZ": {"_delete": "RB0"}}, ("ZZ",), HASH)
    # peripherals
    attrs("peripheral.modify", dict(PER, name=("ZM", STR), baseAddress=(0x100, NUM)), at("_modify", "ZZ"))
    attrs("peripheral.add", dict(PER, derivedFrom=("ZX", STR)), at("_add", "ZN"), {"baseAddress": 1})
    attrs("peripheral.derive", {"baseAddress": (1, NUM), "description": ("t", STR)}, at("_derive", "ZN"), {"_from": "ZZ", "baseAddress": 1})
    attrs("peripheral.derive", DIM, at("_derive", "ZN%s"), {"_from": "ZZ", "baseAddress": 1, "dim": 2, "dimIncrement": 4})
    add("peripheral.add.base", {"_add": {"ZN": {"baseAddress": 1}}}, ("_add", "ZN", "baseAddress"), NUM)
    for where in (("_add", "ZN"), ("_modify", "ZZ")):
        base = {"baseAddress": 1}
        attrs("peripheral%s.addressBlock" % where[0], AB, lambda b, w=where: (
            {w[0]: {w[1]: dict(base, addressBlock=b)}}, w + ("addressBlock",)), {k: v[0] for k, v in AB.items()})
        attrs("peripheral%s.addressBlocks" % where[0], AB, lambda b, w=where: (
            {w[0]: {w[1]: dict(base, addressBlocks=[b])}}, w + ("addressBlocks", 0)), {k: v[0] for k, v in AB.items()})
        ab = {k: v[0] for k, v in AB.items()}
        add("peripheral%s.addressBlock.kind" % where[0], {where[0]: {where[1]: dict(base, addressBlock=ab)}}, where + ("addressBlock",), HASH)
        add("peripheral%s.addressBlocks.kind" % where[0], {where[0]: {where[1]: dict(base, addressBlocks=[ab])}}, where + ("addressBlocks",),
            ["x", 3, True, REAL, {"a": 1}, [3], ["x"], [None]])
    attrs("peripheral.interrupts", IRQ, at("_add", "ZN", "interrupts", "IN"), {"value": 9})
    add("peripheral.interrupts.kind", {"_add": {"ZN": {"baseAddress": 1, "interrupts": {"IN": {"value": 9}}}}}, ("_add", "ZN", "interrupts"), HASH)
    # the interrupt rule needs a base address to be added
    t[:] = [(n, r if n[:21] != "peripheral.interrupts" else dict(r, _add={"ZN": dict(r["_add"]["ZN"], baseAddress=1)}), p, b) for n, r, p, b in t]
    # blocks: peripheral and cluster
    for blk in (("ZZ",), ("ZZ", "_clusters", "CS"), ("ZZ", "CS")):
        per = len(blk) == 1
        n = "peripheral" if per else "cluster" if len(blk) == 3 else "child"
        r = "RB0" if per else "Y"
        if per:
            for k in ("_registers", "_clusters", "_interrupts"):
                g = {"_registers": "RB0", "_clusters": "CS", "_interrupts": "IZ"}[k]
                add("%s._delete.%s" % (n, k), at(*blk)({"_delete": {k: [g]}})[0], blk + ("_delete", k), NAMES)
            attrs("%s._modify._interrupts" % n, dict(IRQ, name=("IM", STR)), at(*blk, "_modify", "_interrupts", "IZ"))
            attrs("%s._add._interrupts" % n, dict(IRQ), at(*blk, "_add", "_interrupts", "IN"), {"value": 9})
            for s in ("_interrupts", "_registers", "_clusters"):
                x = {"_interrupts": {"IZ": {"value": 9}}, "_registers": {"RB0": {"description": "t"}}, "_clusters": {"CS": {"description": "t"}}}
                add("%s._modify.%s" % (n, s), at(*blk)({"_modify": {s: x[s]}})[0], blk + ("_modify", s), HASH)
                x = {"_interrupts": {"IN": {"value": 9}}, "_registers": {"RN": {"addressOffset": 0x200}},
                     "_clusters": {"CN": {"addressOffset": 0x200, "registers": {"Q": {"addressOffset": 0}}}}}
                add("%s._add.%s" % (n, s), at(*blk)({"_add": {s: x[s]}})[0], blk + ("_add", s), HASH)
                add("%s._add.%s.body" % (n, s), at(*blk)({"_add": {s: x[s]}})[0], blk + ("_add", s, list(x[s])[0]), HASH)
            for k in ("_array",):
                add("peripheral._array.body", at(*blk)({"_array": {"RB*": {}}})[0], blk + ("_array", "RB*"), HASH)
                attrs("peripheral._array", {"name": ("RBN%s", STR), "description": ("t", STR), "displayName": ("D%s", STR)},
                      at(*blk, "_array", "RB*"))
                attrs("peripheral._cluster", {"description": ("t", STR), "dimIncrement": (8, U32)}, at(*blk, "_cluster", "CN%s"), {"RB*": {"name": "R"}})
                add("peripheral._cluster.member", at(*blk)({"_cluster": {"CN%s": {"RB*": {"name": "R"}}}})[0], blk + ("_cluster", "CN%s", "RB*"), HASH)
                add("peripheral._cluster.name", at(*blk)({"_cluster": {"CN%s": {"RB*": {"name": "R"}}}})[0],
                    blk + ("_cluster", "CN%s", "RB*", "name"), STR)
                add("peripheral._cluster.body", at(*blk)({"_cluster": {"CN%s": {"RB*": {"name": "R"}}}})[0], blk + ("_cluster", "CN%s"), HASH)
                add("peripheral._expand_array.body", at(*blk)({"_expand_array": {"AR%s": {}}})[0], blk + ("_expand_array", "AR%s"), HASH)
                add("peripheral._expand_cluster", at(*blk)({"_expand_cluster": ["CC%s"]})[0], blk + ("_expand_cluster",),
                    [3, True, REAL, [3], [["x"]], None, ["NOPE"], {"CC%s": {"_index": "x"}}])
                attrs("peripheral._expand_cluster", {"_preindex": ("_", STR), "_postindex": ("_", STR), "_zeroindex": (False, BOOL),
                                                     "_noprefix": (False, BOOL)}, at(*blk, "_expand_cluster", "CC%s"))
                add("peripheral._expand_cluster.body", at(*blk)({"_expand_cluster": {"CC%s": {}}})[0], blk + ("_expand_cluster", "CC%s"), SECT)
        sections = {"_copy": {"RN": {"_from": r, "addressOffset": 0x200}}, "_modify": {r: {"description": "t"}}, "_add": {"RN": {"addressOffset": 0x200}},
                    "_derive": {"RN": {"_from": r, "addressOffset": 0x200}}}
        if per:
            sections.update(_array={"RB*": {}}, _cluster={"CN%s": {"RB*": {}}}, _clusters={"CS": {"_delete": "Y"}}, _expand_array={"AR%s": {}})
        for k, v in sections.items():
            rule, p = at(*blk)({k: v})
            add("%s.%s" % (n, k), rule, p + (k,), SECT)
            if isinstance(v[list(v)[0]], dict) and k in ("_modify", "_add", "_copy"):
                add("%s.%s.body" % (n, k), rule, p + (k, list(v)[0]), HASH)
        add("%s._derive.body" % n, at(*blk)({"_derive": {"RN": {"_from": r, "addressOffset": 0x200}}})[0], blk + ("_derive", "RN"),
            [3, True, None, ["x"], REAL, {}, {"addressOffset": 0x200}, "NOPE"])
        for k, g in (("_strip", "ZQ_"), ("_strip_end", "_ZQ"), ("_clear_fields", r)):
            add("%s.%s" % (n, k), at(*blk)({k: [g]})[0], blk + (k,), NAMES)
        add("%s._delete" % n, at(*blk)({"_delete": [r]})[0], blk + ("_delete",), NAMES + ([{"_fields": ["x"]}] if per else []))
        for k in ("_prefix", "_suffix"):
            add("%s.%s" % (n, k), at(*blk)({k: "ZQ_"})[0], blk + (k,), STR)
        attrs("%s.register.modify" % n, dict(REG, name=("RM", STR), addressOffset=(0x200, U32)), at(*blk, "_modify", r))
        attrs("%s.register.add" % n, dict(REG, derivedFrom=(r, STR)), at(*blk, "_add", "RN"), {"addressOffset": 0x200})
        attrs("%s.register.add" % n, DIM, at(*blk, "_add", "RN%s"), {"addressOffset": 0x200, "dim": 2, "dimIncrement": 4})
        attrs("%s.register.derive" % n, {"description": ("t", STR), "displayName": ("D", STR), "addressOffset": (0x200, U32)}, at(*blk, "_derive", "RN"),
              {"_from": r, "addressOffset": 0x200})
        for k, w in (("_derive", "RN%s"), ("_copy", "RN%s")):
            attrs("%s.register.%s" % (n, k), DIM, at(*blk, k, w), {"_from": r, "addressOffset": 0x200, "dim": 2, "dimIncrement": 4})
        add("%s.register.add.offset" % n, at(*blk, "_add", "RN")({"addressOffset": 0x200})[0], blk + ("_add", "RN", "addressOffset"), U32)
        add("%s.register.add.fields" % n, at(*blk, "_add", "RN")({"addressOffset": 0x200, "fields": {"FN": {"bitOffset": 0, "bitWidth": 1}}})[0],
            blk + ("_add", "RN", "fields"), HASH)
        add("%s.rule" % n, at(*blk)({r: {"_delete": "NOPE"}})[0], blk + (r,), HASH)
    attrs("cluster.modify", dict(CLUSTER, name=("CM", STR), addressOffset=(0x300, U32)), at("ZZ", "_modify", "_clusters", "CS"))
    attrs("cluster.add", CLUSTER, at("ZZ", "_add", "_clusters", "CN"), {"addressOffset": 0x300, "registers": {"Q": {"addressOffset": 0}}})
    # registers
    rg = ("ZZ", "RA")
    for k, v in {"_modify": {"FA": {"description": "t"}}, "_add": {"FN": {"bitOffset": 20, "bitWidth": 1}}, "_derive": {"FB0": "FA"},
                 "_array": {"FB*": {}}}.items():
        rule, p = at(*rg)({k: v})
        add("register." + k, rule, p + (k,), SECT)
        add("register.%s.body" % k, rule, p + (k, list(v)[0]), HASH if k != "_derive" else [3, True, None, ["x"], REAL, {}])
    for k, g in (("_delete", "FA"), ("_strip", "ZQ_"), ("_strip_end", "_ZQ"), ("_clear", "FA")):
        add("register." + k, at(*rg)({k: [g]})[0], rg + (k,), NAMES)
    for k in ("_prefix", "_suffix"):
        add("register." + k, at(*rg)({k: "ZQ_"})[0], rg + (k,), STR)
    add("register._merge", at(*rg)({"_merge": ["FB*"]})[0], rg + ("_merge",), [3, True, REAL, [3], [["x"]]])
    add("register._split", at(*rg)({"_split": ["FA"]})[0], rg + ("_split",), [3, True, REAL, [3], [["x"]]])
    add("register._merge.value", at(*rg)({"_merge": {"FBM": ["FB0", "FB1"]}})[0], rg + ("_merge", "FBM"), [3, True, REAL, [3], None])
    add("register._split.value", at(*rg)({"_split": {"FA": {"name": "S%s"}}})[0], rg + ("_split", "FA"), HASH)
    attrs("register._split", {"name": ("S%s", STR), "description": ("t %s", STR)}, at(*rg, "_split", "FA"))
    attrs("field.modify", dict(FIELD, name=("FM", STR), derivedFrom=("FB0", STR)), at(*rg, "_modify", "FA"))
    attrs("field.modify", {"bitRange": ("[1:0]", BITS), "bitOffset": (20, U32), "bitWidth": (1, U32)}, at(*rg, "_modify", "FA"))
    attrs("field.add", FIELD, at(*rg, "_add", "FN"), {"bitOffset": 20, "bitWidth": 2})
    add("field.add.bitRange", at(*rg, "_add", "FN")({"bitRange": "[21:20]"})[0], rg + ("_add", "FN", "bitRange"), BITS)
    for k in ("bitOffset", "bitWidth"):
        add("field.add." + k, at(*rg, "_add", "FN")({"bitOffset": 20, "bitWidth": 2})[0], rg + ("_add", "FN", k), U32)
    for k in ("lsb", "msb"):
        add("field.add." + k, at(*rg, "_add", "FN")({"lsb": 20, "msb": 21})[0], rg + ("_add", "FN", k), U32)
    add("field.add.msb.order", at(*rg, "_add", "FN")({"lsb": 20, "msb": 21})[0], rg + ("_add", "FN", "msb"), [19, 0])
    attrs("field.add", {"dim": (2, U32), "dimIncrement": (2, U32)}, at(*rg, "_add", "FN%s"), {"bitOffset": 20, "bitWidth": 2, "dim": 2, "dimIncrement": 2})
    attrs("field._array", {"name": ("FBN%s", STR), "description": ("t", STR)}, at(*rg, "_array", "FB*"))
    attrs("field._derive", {"description": ("t", STR), "_from": ("FA", STR)}, at(*rg, "_derive", "FB0"), {"_from": "FA"})
    # enumerations and ranges
    for side in ("", "_read", "_write", "_W1C", "_RC"):
        p = rg + ("FA",) + ((side,) if side else ())
        add("enum%s.value" % side, at(*p)({"v0": [0, "t"], "v1": [1, "t"]})[0], p + ("v1",), ENUMVAL)
        add("enum%s.replace" % side, at(*p)({"_replace_enum": {"v1": [1, "t"]}})[0], p + ("_replace_enum",), HASH)
        if side:
            add("enum%s.section" % side, at(*p)({"v0": [0, "t"]})[0], p, HASH)
    add("enum.derived", at(*rg, "FA")({"_derivedFrom": "FCE"})[0], rg + ("FA", "_derivedFrom"), STR + ["NOPE"])
    add("range", at(*rg)({"FA": [0, 1]})[0], rg + ("FA",), [[], [0], [0, 1, 2], ["x", 1], [0, "y"], [None, 1], [0, None], [0, [1]]])
    add("field.rule", at(*rg)({"FA": {"v0": [0, "t"]}})[0], rg + ("FA",), SECT)
    # derived peripherals
    for k, v in (("_modify", {"description": "t"}), ("_add", {"value": 9, "description": "t"}), ("_delete", None)):
        s = {"_interrupts": {"IZ" if k == "_modify" else "IN": v}} if v else {"_interrupts": ["IN?"]}
        if v:
            add("derived.peripheral." + k, {"ZY": {k: s}}, ("ZY", k), SECT)
            add("derived.peripheral.%s._interrupts" % k, {"ZY": {k: s}}, ("ZY", k, "_interrupts"), SECT)
    # top level
    add("top._svd", {"_svd": "dev.svd"}, ("_svd",), STR + ["nope.svd", "", "."])
    add("top._include", {"_include": []}, ("_include",), [3, True, REAL, [3], {"a": 1}, ["nope.yaml"], "nope.yaml", ["."]])
    add("peripheral._include", {"ZZ": {"_include": []}}, ("ZZ", "_include"), [3, True, REAL, [3], {"a": 1}, ["nope.yaml"], "nope.yaml"])
    return t


def with_value(rule, path, v):
    if not path:
        return v
    if isinstance(rule, list):
        out = list(rule)
        out[path[0]] = with_value(rule[path[0]], path[1:], v)
        return out
    out = dict(rule)
    out[path[0]] = with_value(rule[path[0]], path[1:], v)
    return out
