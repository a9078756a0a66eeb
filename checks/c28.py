"""C28: the html pages show every peripheral, register and field of the devices, with the right documented counts."""
import os
import sys
from html.parser import HTMLParser

from kit import dev as devs
from kit import expand, model, rich, runner
from kit.model import PROPS, clone
from kit.runner import Violation

PID = "C28"
LEVEL = "exploration"
RULE = ("a case counts if the whole page of a device with fields was read back and compared with the independently computed "
        "contents, or if the freshness of an existing page was judged; two cases are the same if they use devices of the "
        "same structure")
CASES = {"quick": 700, "thorough": 15000}
MUST_SEE = ("pages", "index", "several_devices", "registers", "fields", "map_rows", "tables", "enum_docs", "wc_docs",
            "default_value", "default_value_64", "escaped", "had:cluster", "had:nested_cluster", "had:cluster_array",
            "had:register_array", "had:field_array", "had:derived_peripheral", "had:derived_register", "had:derived_field",
            "had:derived_enum", "had:derived_cluster", "had:wide", "had:access_code", "stale_rewritten", "fresh_kept",
            "svd_copied", "same_directory", "refused", "unlisted_missing",
            "had:sole_bit")
VOID = {"meta", "link", "br", "img", "hr", "input"}
ACC = {"read-write": "rw", "read-only": "r", "write-only": "w"}
MWV = {"oneToClear": "w1c", "oneToSet": "w1s", "oneToToggle": "w1t", "zeroToClear": "w0c", "zeroToSet": "w0s",
       "zeroToToggle": "w0t", "clear": "wc", "set": "ws", "modify": "w"}
RA = {None: "r", "clear": "rc", "set": "rs", "modify": "rm", "modifyExternal": "re"}


# ------------------------------------------------------------------ reading pages

class Node:
    def __init__(self, tag, attrs, up):
        self.tag, self.attrs, self.up, self.kids = tag, attrs, up, []

    def all(self, tag=None, cls=None):
        for k in self.kids:
            if isinstance(k, Node):
                if (tag is None or k.tag == tag) and (cls is None or cls in k.attrs.get("class", "").split()):
                    yield k
                yield from k.all(tag, cls)

    def sub(self, tag=None, cls=None):
        return [k for k in self.kids if isinstance(k, Node) and (tag is None or k.tag == tag) and
                (cls is None or cls in k.attrs.get("class", "").split())]

    def raw(self):
        return "".join(k if isinstance(k, str) else k.raw() for k in self.kids)

    def text(self):
        return squash(self.raw())


class Reader(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.root = self.cur = Node("", {}, None)
        self.bad = None

    def handle_starttag(self, tag, attrs):
        n = Node(tag, dict(attrs), self.cur)
        self.cur.kids.append(n)
        if tag not in VOID:
            self.cur = n

    def handle_endtag(self, tag):
        if tag in VOID:
            return
        if self.cur.tag != tag:
            self.bad = self.bad or "</%s> closes <%s> at %s" % (tag, self.cur.tag, self.getpos())
            return
        self.cur = self.cur.up

    def handle_data(self, data):
        self.cur.kids.append(data)


def squash(s):
    return " ".join((s or "").split())


def tree(raw, what):
    r = Reader()
    r.feed(raw.decode("utf8"))
    r.close()
    if r.bad:
        raise Violation("%s: elements are not nested properly: %s" % (what, r.bad))
    return r.root


def read_page(root):
    """The page as plain data."""
    box = next(n for n in root.all("div", "container") if n.up.tag == "body")
    per = []
    for d in box.sub("div", "peripheral"):
        h = d.sub("h3")[0]
        ps = d.sub("p")
        x = {"name": h.text(), "id": h.attrs.get("id"), "head": ps[0].text(), "covered": ps[1].text(), "map": [], "regs": [],
             "width": width(d.sub("div", "progress")[0])}
        x["links"] = [(n.attrs.get("id"), [a.attrs.get("href") for a in n.sub("a")]) for t in ("h3", "h4") for n in d.all(t)]
        det = d.sub("details", "register-map")[0]
        x["bits"] = [th.text() for th in next(det.all("tr")).sub("th")][2:]
        for tr in list(det.all("tr"))[1:]:
            td = tr.sub("td")
            a = td[1].sub("a")[0]
            x["map"].append((td[0].text(), a.text(), a.attrs.get("href"), cells(td[2:])))
        det = d.sub("details", "registers")[0]
        for r in det.sub("div", "register"):
            h = r.sub("h4")[0]
            ps = r.sub("p")
            y = {"name": h.text(), "id": h.attrs.get("id"), "desc": ps[0].text(), "head": ps[1].text(),
                 "covered": ps[2].text() if len(ps) > 2 else None, "fields": [], "rows": [],
                 "width": width(r.sub("div", "progress")[0])}
            for t in r.all("table", "bitfield"):
                trs = t.sub("tr")
                for a, b in zip(trs[::2], trs[1::2]):
                    y["rows"].append(([th.text() for th in a.sub("th")], cells(b.sub("td"))))
            det = r.sub("details", "fields")[0]
            ks = [k for k in det.kids if isinstance(k, Node) and k.tag != "summary"]
            for k in ks:
                if k.tag == "h4":
                    y["fields"].append({"name": k.text(), "id": k.attrs.get("id"), "ps": []})
                elif k.tag == "p":
                    y["fields"][-1]["ps"].append(docs(k))
            x["regs"].append(y)
        per.append(x)
    return {"title": squash(next(root.all("title")).raw()), "overall": squash(next(box.all("div", "col-sm-12")).sub("div")[0].raw()),
            "width": width(next(box.all("div", "col-sm-12")).sub("div", "progress")[0]),
            "menu": [(a.text(), a.attrs.get("href")) for a in next(box.all("nav", "menu")).sub("a")], "per": per}


def docs(p):
    """Text of a paragraph with its line breaks."""
    out = ""
    for k in p.kids:
        if isinstance(k, str):
            out += k
        elif k.tag == "br":
            out += "\x01"
        else:
            out += k.raw()
    return [squash(x) for x in out.split("\x01")]


def width(progress):
    s = next(progress.all("div", "progress-bar")).attrs["style"]
    return float(s[len("width:"):].strip().rstrip("%"))


def cells(tds):
    """Per bit: None or (name, href, documented, access)."""
    out = []
    for td in tds:
        n = int(td.attrs.get("colspan", "1"))
        a = list(td.all("a"))
        if a:
            if out and len(out) % 16 and out[-1] and out[-1][1] == a[0].attrs.get("href"):
                raise Violation("the bits of one field are shown in several cells: %s" % a[0].text())
            t = td.text()[len(a[0].text()):].strip()
            out += [(a[0].text(), a[0].attrs.get("href"), "text-success" in a[0].attrs.get("class", ""), t)] * n
        else:
            if td.text():
                out += [td.text()] * n
            out += [None] * n
    return out


# ------------------------------------------------------------------ what the page has to show

def contents(dev):
    d = expand.expand_properties(dev)
    top = []
    for p0 in d["peripherals"]:
        p, path = expand.resolve_peripheral(d, p0)
        regs = []

        def block(children, path, base, suffix):
            for c in children:
                if c["k"] == "register":
                    r, rpath = expand.resolve_register(d, c, path)
                    for k, (i, nm) in enumerate(elements(r)):
                        regs.append(register(d, r, rpath, base + r["addressOffset"] + k * inc(r), nm + suffix, i))
                else:
                    cl, cpath = expand.resolve_cluster(d, c, path)
                    idx = [i for i, _, _ in model.instances(cl)] if "dim" in cl else ["0"]
                    for k, i in enumerate(idx):
                        block(cl["children"], cpath, base + cl["addressOffset"] + k * inc(cl), suffix + " [%s]" % i)
        block(p["children"], path, 0, "")
        regs.sort(key=lambda r: (r["offset"], r["name"].lower()))
        top.append({"name": p0["name"], "base": p["baseAddress"], "desc": text(p), "regs": regs})
    top.sort(key=lambda p: p["name"].lower())
    return top


def inc(n):
    return n["dim"]["inc"] if "dim" in n else 0


def elements(n):
    if "dim" not in n:
        return [(None, n["name"])]
    return [(i, n["name"].replace("[%s]", "[%s]" % i).replace("%s", i) if "[%s]" in n["name"] else
             n["name"].replace("%s", "[%s]" % i)) for i, _, _ in model.instances(n)]


def text(n, i=None):
    s = n.get("description") or ""
    return squash(expand.sub(s, i) if i is not None else s)


def register(d, r, rpath, offset, name, i):
    size = r.get("size", 32)
    acc = r.get("access", "Unspecified")
    fs = []
    for f0 in r["fields"]:
        f = expand.resolve_field(d, f0, rpath)
        for k, (j, nm) in enumerate(elements(f)):
            fs.append(field(f, f["off"] + k * inc(f), nm, j, acc))
    fs.sort(key=lambda f: f["off"])
    return {"name": name, "offset": offset, "size": size, "acc": acc, "desc": text(r, i), "reset": r.get("resetValue", 0),
            "wc": r.get("wc"), "fields": fs, "total": len(fs), "done": sum(f["done"] for f in fs),
            "fits": all(f["off"] + f["width"] <= size for f in fs)}


def field(f, off, name, j, racc):
    acc = f.get("access", racc)
    mwv, ra = f.get("modifiedWriteValues", "modify"), f.get("readAction")
    code = ACC.get(acc, "N/A")
    if code != "N/A" and (mwv, ra) != ("modify", None):
        code = RA[ra] if acc == "read-only" else MWV[mwv] if acc == "write-only" else RA[ra] + "/" + MWV[mwv]
    wc = f.get("wc")
    doc = None
    if f["enums"]:
        vs = f["enums"][0]["values"]
        used = {v["value"] for v in vs if v.get("value") is not None}
        hole = next(x for x in range(len(used) + 1) if x not in used)
        if hole >> f["width"] and len(used) < len(vs):
            raise expand.Unresolved("a default value, but no value left for it")
        doc = ["Allowed values:"]
        for v in vs:
            n = "%d" % v["value"] if v.get("value") is not None else "%d (+)" % hole
            doc.append("%s: %s: %s" % (n, v["name"], text(v)))
        doc = [squash(x) for x in doc] + [""]
    elif wc and wc[0] == "range":
        doc = ["Allowed values: 0x%x-0x%x" % (wc[1], wc[2])]
    return {"name": name, "off": off, "width": f["width"], "acc": acc, "code": code, "desc": text(f, j), "doc": doc,
            "done": bool(f["enums"]) or wc is not None or acc == "read-only", "marked": bool(f["enums"]) or wc is not None}


# ------------------------------------------------------------------ comparing

def eq(what, exp, got):
    if exp != got:
        raise Violation("%s: expected %r, the page has %r" % (what, exp, got))


def share(what, done, total, got):
    eq(what + ": width of the progress bar", True, abs(got - (100.0 * done / total if total else 100.0)) < 0.01)


def judge(name, exp, got, out):
    eq("title", "%s Peripheral Coverage" % name, got["title"])
    eq("menu", [(p["name"], "#" + p["name"]) for p in exp], got["menu"])
    eq("peripherals", [p["name"] for p in exp], [p["name"] for p in got["per"]])
    for p, q in zip(exp, got["per"]):
        w = "peripheral %s" % p["name"]
        eq(w + " id", p["name"], q["id"])
        eq(w, squash("0x%08x: %s" % (p["base"], p["desc"])), q["head"])
        eq(w + " links of the headings", [(i, ["#%s" % i]) for i, _ in q["links"]], q["links"])
        eq(w + " columns of the register map", [str(b) for b in range(31, -1, -1)], q["bits"])
        done, total = sum(r["done"] for r in p["regs"]), sum(r["total"] for r in p["regs"])
        eq(w, "%d/%d fields covered." % (done, total), q["covered"])
        share(w, done, total, q["width"])
        eq(w + " registers", [(r["name"], "%s:%s" % (p["name"], r["name"])) for r in p["regs"]],
           [(r["name"], r["id"]) for r in q["regs"]])
        eq(w + " register map", [("0x%x" % r["offset"] + (" (%d-bit)" % r["size"] if r["size"] != 32 else ""), r["name"],
                                  "#%s:%s" % (p["name"], r["name"])) for r in p["regs"]], [m[:3] for m in q["map"]])
        for r, s, m in zip(p["regs"], q["regs"], q["map"]):
            one_register(w + " register " + r["name"], p["name"], r, s, m[3], out)
    done, total = (sum(r[k] for p in exp for r in p["regs"]) for k in ("done", "total"))
    eq("overall", "Overall: %d/%d fields covered" % (done, total), got["overall"])
    share("overall", done, total, got["width"])
    return done, total


def one_register(w, pname, r, s, mapcells, out):
    eq(w + " description", r["desc"], s["desc"])
    head = "Offset: 0x%x, size: %d, reset: 0x%08X, access: %s" % (r["offset"], r["size"], r["reset"], r["acc"])
    if r["wc"] and r["wc"][0] == "range":
        head += ", allowed values: %d-%d" % (r["wc"][1], r["wc"][2])
        out.tags["register_range"] += 1
    eq(w, head, s["head"])
    eq(w, "%d/%d fields covered." % (r["done"], r["total"]) if r["total"] else None, s["covered"])
    share(w, r["done"], r["total"], s["width"])
    eq(w + " fields", [(f["name"], "%s:%s:%s" % (pname, r["name"], f["name"])) for f in r["fields"]],
       [(f["name"], f["id"]) for f in s["fields"]])
    for f, g in zip(r["fields"], s["fields"]):
        bits = "Bits %d-%d:" % (f["off"], f["off"] + f["width"] - 1) if f["width"] > 1 else "Bit %d:" % f["off"]
        ps = [[squash("%s %s." % (bits, f["desc"]))]] if f["desc"] else [["%s ." % bits]]
        eq("%s field %s" % (w, f["name"]), ps + ([f["doc"]] if f["doc"] else []), g["ps"])
    bits = [None] * 32
    clash = False
    for f in r["fields"]:
        for b in range(f["off"], min(32, f["off"] + f["width"])):
            clash = clash or bits[b] is not None
            bits[b] = f
    if clash:
        return
    row = [None if f is None else (f["name"], "#%s:%s:%s" % (pname, r["name"], f["name"]), f["marked"]) for f in bits[::-1]]
    eq(w + " bits in the register map", row, [c and c[:3] for c in mapcells])
    out.tags["map_rows"] += 1
    if not r["total"]:
        eq(w + " bit table", [], s["rows"])
        return
    got = {}
    for heads, cs in s["rows"]:
        eq(w + " columns of the bit table", len(heads), len(cs))
        for h, c in zip(heads, cs):
            got[int(h)] = c
    for b in range(32):
        f = bits[b]
        exp = None if f is None else (f["name"], "#%s:%s:%s" % (pname, r["name"], f["name"]), f["marked"], f["code"])
        if f is not None or b in got:
            eq("%s bit %d of the bit table" % (w, b), exp, got.get(b, "nothing"))
    out.tags["tables"] += 1


# ------------------------------------------------------------------ cases

def fit(dev, rng):
    """Give registers room for their fields."""
    def walk(cs):
        for c in cs:
            if c["k"] == "cluster":
                walk(c["children"])
            else:
                top = 0
                for f in c["fields"]:
                    n = f["dim"]["dim"] if "dim" in f else 1
                    top = max(top, f["off"] + (n - 1) * inc(f) + f["width"])
                if c.get("size", 64) < 32 or rng.random() < 0.5:
                    c["size"] = 32
                if top > 32 or c.get("resetValue", 0) >> 32:
                    c["size"] = 64
    for p in dev["peripherals"]:
        walk(p["children"])


def special(dev, rng):
    """Fields the generator does not make: wide ones with a default value."""
    ps = [p for p in dev["peripherals"] if p["children"]]
    if not ps:
        return
    fs = [{"k": "field", "name": "ALL", "off": 0, "width": rng.choice([1, 2, 63, 64]), "br": "offset", "enums": [
        {"values": [{"name": "ON", "value": 1, "description": "on <now> & then\n  off"}, {"name": "REST", "isDefault": True}]}]}]
    if rng.random() < 0.5:
        fs[0]["enums"][0]["values"].insert(0, {"name": "OFF", "value": 0})
        if fs[0]["width"] == 1:
            fs[0]["width"] = 2
    rng.choice(ps)["children"].append({"k": "register", "name": "WIDE_ONE", "addressOffset": 0xF00, "size": 64, "fields": fs})


def sole(dev, rng):
    """Registers with a single field, of one bit, at an end of a row of bits."""
    ps = [p for p in dev["peripherals"] if p["children"] and p.get("size", 32) <= 64]
    if not ps:
        return
    p = rng.choice(ps)
    for k, (size, bit) in enumerate(((32, 16), (32, 15), (64, 32), (64, 31), (64, 48), (64, 47), (64, 63), (32, 31), (16, 15), (8, 7))):
        if rng.random() < 0.5:
            p["children"].append({"k": "register", "name": "SOLE_%d" % k, "addressOffset": 0xE00 + 8 * k, "size": size,
                                  "description": "one bit", "fields": [{"k": "field", "name": "B", "description": "", "off": bit,
                                                                        "width": 1, "br": "offset", "enums": []}]})


def device(rng, n):
    for _ in range(200):
        d = devs.make(rng, size=rng.choice([0, 1, 1, 1, 2]), plain=True, unique=True, parts=("text", "dai", "clu", "per"))
        fit(d, rng)
        if rng.random() < 0.4:
            special(d, rng)
        if rng.random() < 0.3:
            rich.crossed(d, rng)
        if rng.random() < 0.3:
            sole(d, rng)
        d["name"] = "%s%d" % (rng.choice(("DEV", "Dev", "stm")), n)
        try:
            return d, contents(d)
        except (expand.Unresolved, StopIteration):
            continue
    raise runner.Inconclusive("no device")


def html(ctx, dirname, files, cwd=None):
    args = ["html", dirname] + files
    rc, so, er = ctx.run(args, cwd=cwd)
    return rc, so, er, ["svdtools"] + args


def case(ctx, rng, i, out):
    if i % 12 == 5:
        return freshness(ctx, rng, out)
    n = 1 if i % 3 else rng.choice([2, 3])
    ds = [device(rng, k) for k in range(n)]
    files = []
    for k, (d, exp) in enumerate(ds):
        f = "in%d/%s" % (k, rng.choice(("dev%d.svd", "dev%d.svd.patched")) % k)
        ctx.write(f, model.write_device(d))
        files.append(f)
    order = list(files)
    rng.shuffle(order)
    if rng.random() < 0.15:
        order.insert(rng.randint(0, len(order)), "in9/none.svd")
        out.tags["unlisted_missing"] += 1
    before = {f: ctx.read(f) for f in files}
    if rng.random() < 0.3:
        os.mkdir(ctx.path("html"))
    rc, so, er, cmd = html(ctx, "html", order)
    bad = any(not r["fits"] for _, exp in ds for p in exp for r in p["regs"])
    if bad:
        if rc == 0:
            raise Violation("a field outside of its register was not refused", cmd=cmd)
        out.tags["refused"] += 1
        return
    if rc != 0:
        raise Violation("refused with status %d: %s" % (rc, er.decode("utf8", "replace")[-900:]), cmd=cmd)
    rows = []
    for (d, exp), f in zip(ds, files):
        page = ctx.read("html/%s.html" % d["name"])
        if page is None:
            raise Violation("no page for device %s" % d["name"], cmd=cmd)
        try:
            done, total = judge(d["name"], exp, read_page(tree(page, d["name"] + ".html")), out)
        except Violation as v:
            v.cmd = cmd
            raise
        except (IndexError, StopIteration, KeyError, ValueError, AttributeError) as x:
            raise Violation("page %s.html lacks an expected element: %r" % (d["name"], x), cmd=cmd)
        rows.append((d["name"], done, total))
        if ctx.read(f) != before[f]:
            raise Violation("input %s was changed" % f, cmd=cmd)
        if ctx.read("html/" + os.path.basename(f)) != before[f]:
            raise Violation("the copy of %s differs from it" % f, cmd=cmd)
        out.tags["svd_copied"] += 1
        out.tags["pages"] += 1
        see(d, exp, out)
    index(ctx, rows, cmd)
    out.tags["index"] += 1
    if n > 1:
        out.tags["several_devices"] += 1
    exp_files = {"index.html"} | {d["name"] + ".html" for d, _ in ds} | {os.path.basename(f) for f in files}
    if set(os.listdir(ctx.path("html"))) != exp_files:
        raise Violation("files written: expected %s, found %s" % (sorted(exp_files), sorted(os.listdir(ctx.path("html")))), cmd=cmd)
    out.nontrivial = any(t for _, _, t in rows)
    out.key = [devs.facts(d) for d, _ in ds]
    out.sample = {"index": rows, "registers": [(p["name"], [r["name"] for r in p["regs"]]) for p in ds[0][1]][:3]}


def index(ctx, rows, cmd):
    root = tree(ctx.read("html/index.html"), "index.html")
    box = next(n for n in root.all("div", "container") if n.up.tag == "body")
    got = []
    for r in box.sub("div", "row")[1:]:
        a = next(r.all("a"))
        got.append((a.text(), a.attrs.get("href"), squash(next(r.all("div", "col-sm-4")).raw()), width(next(r.all("div", "progress")))))
    exp = sorted(rows, key=lambda x: x[0].lower())
    try:
        eq("index", [(n, n + ".html") for n, _, _ in exp], [g[:2] for g in got])
        for (n, done, total), g in zip(exp, got):
            eq("index entry %s" % n, "%s (svd): %d/%d fields documented" % (n, done, total), g[2])
            share("index entry %s" % n, done, total, g[3])
    except Violation as v:
        v.cmd = cmd
        raise


def freshness(ctx, rng, out):
    """Pages older than the SVD file are written again, newer ones are kept."""
    d, exp = device(rng, 0)
    if any(not r["fits"] for p in exp for r in p["regs"]):
        return
    same = rng.random() < 0.3
    f = "html/dev.svd" if same else "dev.svd"
    os.mkdir(ctx.path("html"))
    ctx.write(f, model.write_device(d))
    raw = ctx.read(f)
    t = 1600000000 + rng.randint(0, 10 ** 8)
    os.utime(ctx.path(f), (t, t))
    name = "html/%s.html" % d["name"]
    ctx.write(name, "an earlier page")
    delta = rng.choice([-100000, -3600, -60, -1, 1, 60, 3600, 100000])
    os.utime(ctx.path(name), (t + delta, t + delta))
    if not same:
        ctx.write("html/dev.svd", "an earlier copy")
    rc, so, er, cmd = html(ctx, "html", [f])
    if rc != 0:
        raise Violation("refused with status %d: %s" % (rc, er.decode("utf8", "replace")[-900:]), cmd=cmd)
    if ctx.read(f) != raw:
        raise Violation("input %s was changed" % f, cmd=cmd)
    got = ctx.read(name)
    if delta > 0:
        if got != b"an earlier page":
            raise Violation("page newer than the SVD file was replaced (%d s)" % delta, cmd=cmd)
        out.tags["fresh_kept"] += 1
    else:
        if got == b"an earlier page":
            raise Violation("page older than the SVD file was kept (%d s)" % delta, cmd=cmd)
        judge(d["name"], exp, read_page(tree(got, name)), out)
        if ctx.read("html/dev.svd") != raw:
            raise Violation("the copy of the SVD file was not renewed with the page", cmd=cmd)
        out.tags["stale_rewritten"] += 1
    if same:
        out.tags["same_directory"] += 1
    done, total = (sum(r[k] for p in exp for r in p["regs"]) for k in ("done", "total"))
    index(ctx, [(d["name"], done, total)], cmd)
    out.nontrivial = True
    out.key = ("fresh", delta, same, devs.facts(d))


def see(d, exp, out):
    s = set()

    def walk(cs, depth):
        for c in cs:
            if "derivedFrom" in c:
                s.add("derived_" + c["k"])
            if c["k"] == "cluster":
                s.add("nested_cluster" if depth else "cluster")
                if "dim" in c:
                    s.add("cluster_array")
                walk(c["children"], depth + 1)
            else:
                if c["name"].startswith("SOLE_"):
                    s.add("sole_bit")
                if "dim" in c:
                    s.add("register_array")
                for f in c["fields"]:
                    if "dim" in f:
                        s.add("field_array")
                    if "derivedFrom" in f:
                        s.add("derived_field")
                    if any("derivedFrom" in e for e in f["enums"]):
                        s.add("derived_enum")
    for p in d["peripherals"]:
        if "derivedFrom" in p:
            s.add("derived_peripheral")
        walk(p["children"], 0)
    for p in exp:
        for r in p["regs"]:
            out.tags["registers"] += 1
            if r["size"] > 32:
                s.add("wide")
            for f in r["fields"]:
                out.tags["fields"] += 1
                if f["doc"]:
                    out.tags["enum_docs" if f["doc"][0] == "Allowed values:" else "wc_docs"] += 1
                    if any(" (+): " in x for x in f["doc"]):
                        out.tags["default_value_64" if f["width"] == 64 else "default_value"] += 1
                if "/" in f["code"] and f["code"] != "N/A":
                    s.add("access_code")
                if any(c in f["desc"] + r["desc"] + p["desc"] for c in "<>&"):
                    out.tags["escaped"] += 1
    for x in s:
        out.tags["had:" + x] += 1


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
