"""Reads YAML with PyYAML (not part of the standard library, so in a process of its own)."""
import json
import os
import struct
import subprocess

PY = "/opt/vp/pyvenv/bin/python"
CODE = r'''
import sys, struct, json, yaml
i, o = sys.stdin.buffer, sys.stdout.buffer
def conv(n):
    if isinstance(n, yaml.MappingNode):
        return ["m", [[conv(k), conv(v)] for k, v in n.value]]
    if isinstance(n, yaml.SequenceNode):
        return ["l", [conv(x) for x in n.value]]
    return ["s", n.value, n.style is None]
while True:
    h = i.read(4)
    if len(h) < 4:
        break
    t = i.read(struct.unpack("<I", h)[0]).decode("utf8")
    try:
        r = [conv(d) for d in yaml.compose_all(t, Loader=yaml.SafeLoader) if d is not None]
    except Exception as e:
        r = str(e)
    b = json.dumps(r).encode()
    o.write(struct.pack("<I", len(b)) + b)
    o.flush()
'''
_proc = {}


def read(raw):
    """Documents as ["m", [[key, value]...]], ["l", [...]], ["s", text, is plain]; a message if it is not YAML."""
    p = _proc.get(os.getpid())
    if p is None:
        p = _proc[os.getpid()] = subprocess.Popen([PY, "-c", CODE], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    p.stdin.write(struct.pack("<I", len(raw)) + raw)
    p.stdin.flush()
    n = struct.unpack("<I", p.stdout.read(4))[0]
    return json.loads(p.stdout.read(n))


def same(node, v, order=True):
    """Does the node represent the value?"""
    if isinstance(v, dict) and not order:
        d = {k[1]: x for k, x in node[1]} if node[0] == "m" else {}
        return len(node[1]) == len(v) == len(d) and all(k in d and same(d[k], x, False) for k, x in v.items())
    if isinstance(v, dict):
        return node[0] == "m" and len(node[1]) == len(v) and all(
            same(k, a) and same(x, b) for (k, x), (a, b) in zip(node[1], v.items()))
    if isinstance(v, (list, tuple)):
        return node[0] == "l" and len(node[1]) == len(v) and all(same(x, y, order) for x, y in zip(node[1], v))
    if node[0] != "s":
        return False
    if isinstance(v, str):
        return node[1] == v
    if v is None:
        return node[2] and node[1] in ("~", "null", "")
    if isinstance(v, bool):
        return node[2] and node[1] == ("true" if v else "false")
    return node[2] and node[1] == str(v)


def drop(node, name):
    """Without the entries of that name."""
    if node[0] == "m":
        return ["m", [[k, drop(v, name)] for k, v in node[1] if k[1] != name]]
    if node[0] == "l":
        return ["l", [drop(x, name) for x in node[1]]]
    return node


def plain(node):
    if node[0] == "m":
        return {k[1] if k[0] == "s" else str(k): plain(v) for k, v in node[1]}
    if node[0] == "l":
        return [plain(x) for x in node[1]]
    return node[1]


def where(node, v, path=""):
    """First place where node and value differ."""
    if isinstance(v, dict):
        if node[0] != "m":
            return "%s: expected a mapping, got %r" % (path, plain(node))
        ks = [k[1] for k, _ in node[1]]
        if ks != [k if isinstance(k, str) else str(k) for k in v]:
            return "%s: expected keys %r, got %r" % (path, list(v), ks)
        for (k, x), b in zip(node[1], v.values()):
            if not same(x, b):
                return where(x, b, path + "/" + k[1])
    if isinstance(v, (list, tuple)):
        if node[0] == "l" and len(node[1]) == len(v):
            for i, (x, b) in enumerate(zip(node[1], v)):
                if not same(x, b):
                    return where(x, b, "%s/%d" % (path, i))
    return "%s: expected %r, got %r" % (path, v, plain(node) if node[0] != "s" else node)
