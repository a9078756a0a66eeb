"""YAML emitter: block style, quoted strings, explicit control over scalar notation."""
import json


class Raw(str):
    """Scalar emitted verbatim (unquoted)."""


def scalar(v):
    if isinstance(v, Raw):
        return str(v)
    if v is None:
        return "~"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        return str(v)
    return json.dumps(v, ensure_ascii=False)


def dump(v, ind=0):
    return "\n".join(_dump(v, ind)) + "\n"


def _dump(v, ind):
    pad = "  " * ind
    out = []
    if isinstance(v, dict):
        if not v:
            return [pad + "{}"]
        for k, x in v.items():
            ks = scalar(k)
            if isinstance(x, dict) and x:
                out.append("%s%s:" % (pad, ks))
                out.extend(_dump(x, ind + 1))
            elif isinstance(x, (list, tuple)) and x and any(isinstance(y, (dict, list)) for y in x):
                out.append("%s%s:" % (pad, ks))
                for y in x:
                    out.append("%s  - %s" % (pad, flow(y)))
            else:
                out.append("%s%s: %s" % (pad, ks, flow(x)))
    else:
        out.append(pad + flow(v))
    return out


def flow(v):
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (scalar(k), flow(x)) for k, x in v.items()) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(flow(x) for x in v) + "]"
    return scalar(v)
