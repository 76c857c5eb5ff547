"""What a well-formed variant document is, independently of variantlib; and documents that are almost so."""
from __future__ import annotations

import copy
import json
import re
import tomllib

from . import gen

NAME = re.compile(r"[a-z0-9_]+")
VALUE = re.compile(r"[a-z0-9_.]+")
LABEL = re.compile(r"[0-9a-z._]{1,16}")
LINE = re.compile(r"[\S ]+")
API = re.compile(r"[\w.]+(\s*:\s*[\w.]+)?")
KNOWN = {"default-priorities", "providers", "static-properties", "variants", "$schema"}
FIELDS = {"requires": list, "optional": bool, "plugin-api": str, "enable-if": str, "install-time": bool}


class Bad(Exception):
    pass


class Free(Exception):
    """Neither acceptance nor refusal is required."""


def _names(xs, rx):
    for x in xs:
        if type(x) is not str or not rx.fullmatch(x):
            raise Bad(f"name {x!r}")


def _strs(x, rx, what):
    if type(x) is not list:
        raise Bad(f"{what}: not a list")
    _names(x, rx)


def _dict(x, what):
    if type(x) is not dict:
        raise Bad(f"{what}: not a table")
    return x


def check(doc, kind, label=None):
    """"ok", "bad" or "free" with a reason; kind: toml (the [variant] table), index, distinfo."""
    free = []
    try:
        _check(doc, kind, label, free)
    except Bad as e:
        return "bad", str(e)
    return ("free", free[0]) if free else ("ok", "")


def _check(doc, kind, label, free):
    _dict(doc, "document")
    if not set(doc) <= (KNOWN if kind != "toml" else KNOWN - {"$schema", "variants"}):
        free.append("unknown key at the top")
    if "$schema" in doc and type(doc["$schema"]) is not str:
        free.append("$schema")
    pr = _dict(doc.get("default-priorities", {}), "default-priorities")
    if not set(pr) <= {"namespace", "feature", "property"}:
        raise Bad("unknown key in default-priorities")
    nss = pr.get("namespace", [])
    _strs(nss, NAME, "namespace")
    feat = _dict(pr.get("feature", {}), "feature")
    _names(feat, NAME)
    for x in feat.values():
        _strs(x, NAME, "feature")
    for what, d in (("property", pr.get("property", {})), ("static-properties", doc.get("static-properties", {}))):
        _names(_dict(d, what), NAME)
        for fs in d.values():
            _names(_dict(fs, what), NAME)
            for vs in fs.values():
                _strs(vs, VALUE, what)
    provs = _dict(doc.get("providers", {}), "providers")
    _names(provs, NAME)
    aot = set()
    for ns, p in provs.items():
        _dict(p, "provider")
        for k, v in p.items():
            if k not in FIELDS:
                raise Bad(f"unknown key {k} in a provider")
            if type(v) is not FIELDS[k]:
                raise Bad(f"{k} is a {type(v).__name__}")
        _strs(p.get("requires", []), LINE, "requires")
        if "plugin-api" in p and not API.fullmatch(p["plugin-api"]):
            raise Bad("plugin-api")
        if "enable-if" in p and not LINE.fullmatch(p["enable-if"]):
            raise Bad("enable-if")
        if p.get("install-time", True):
            if not p.get("requires"):
                raise Bad("install-time without requires")
        elif kind != "toml" or not p.get("requires"):
            aot.add(ns)
    st = doc.get("static-properties", {})
    for ns, fs in st.items():
        if len(fs) > 1 and not set(fs) <= set(feat.get(ns, [])):
            raise Bad("static-properties without feature priorities")
        if not fs:
            free.append("empty static-properties")
    if set(nss) != set(provs):
        raise Bad("priorities are not the providers")
    if {n for n, fs in st.items() if fs} != aot and {n for n in st} != aot:
        raise Bad("static-properties are not the ahead-of-time providers")
    if kind == "toml":
        return
    if "variants" not in doc:
        raise Bad("no variants")
    vs = _dict(doc["variants"], "variants")
    _names(vs, LABEL)
    for lab, v in vs.items():
        n = 0
        for ns, fs in _dict(v, "variant").items():
            empty = not _dict(fs, "variant")
            for f, xs in fs.items():
                if type(xs) is not list:
                    raise Bad("values are not a list")
                if any(type(x) is not str for x in xs):
                    raise Bad("a value is not a string")
                if xs:
                    _names([ns, f], NAME)
                _names(xs, VALUE)
                if len(set(xs)) != len(xs):
                    raise Bad("a value twice")
                n += len(xs)
                empty |= not xs
            if empty:
                free.append("empty variant table")
        if (n == 0) != (lab == "null"):
            raise Bad("null label")
    if kind == "distinfo":
        if len(vs) != 1:
            raise Bad("not one variant")
        if label is not None and label not in vs:
            raise Bad("other label")


# ---------------------------------------------------------------- text
class Twice(Exception):
    pass


def _pairs(ps):
    if len({k for k, _ in ps}) != len(ps):
        raise Twice
    return dict(ps)


def read(data, fmt):
    """("ok", document) | ("bad", why) | ("free", why) of bytes in format json or toml."""
    try:
        if fmt == "toml":
            d = tomllib.loads(data.decode("utf8")).get("variant", {})
            return "ok", d
        return "ok", json.loads(data, object_pairs_hook=_pairs)
    except Twice:
        return "free", "a key twice"
    except RecursionError:
        return "free", "deep"
    except ValueError as e:
        return "bad", f"unreadable: {e}"


def _tv(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, str):
        return json.dumps(x).replace("\x7f", "\\u007f")
    if isinstance(x, (int, float)):
        return repr(x)
    if isinstance(x, list):
        return "[" + ", ".join(_tv(y) for y in x) + "]"
    if isinstance(x, dict):
        return "{" + ", ".join(f"{_tk(k)} = {_tv(v)}" for k, v in x.items()) + "}"
    raise TypeError(x)


def _tk(k):
    return k if re.fullmatch(r"[A-Za-z0-9_-]+", k) else json.dumps(k)


def toml(doc, style=0):
    """A pyproject.toml with [variant] table `doc`, or None when TOML cannot say it."""
    def table(prefix, d):
        simple = {k: v for k, v in d.items() if not (isinstance(v, dict) and (style & 1 == 0 or len(prefix) < 2))}
        subs = {k: v for k, v in d.items() if k not in simple}
        out = []
        if simple or not subs:
            out += ["[" + ".".join(_tk(p) for p in prefix) + "]"] + [f"{_tk(k)} = {_tv(v)}" for k, v in simple.items()]
        for k, v in subs.items():
            out += table([*prefix, k], v)
        return out
    try:
        if not isinstance(doc, dict):
            return f"variant = {_tv(doc)}\n[project]\nname = \"demo\"\n"
        head = "" if style & 2 else "[project]\nname = \"demo\"\nversion = \"1\"\n"
        text = head + "\n".join(table(["variant"], doc)) + "\n"
    except TypeError:
        return None
    return text.replace("\n", "\r\n") if style & 4 else text


def dump(doc, style=0):
    return json.dumps(doc, indent=[None, 4, 1][style % 3], sort_keys=bool(style & 8), ensure_ascii=bool(style & 16))


# ---------------------------------------------------------------- almost valid documents
def gen_doc(r, kind):
    """A well-formed document."""
    plugins, table = gen.gen_table(r, nmax=4, nmin=r.choice([0, 1, 1, 1]), aot=0.25, static=0.35)
    if kind == "toml":
        return table
    st = {}
    for p in plugins:
        if table["providers"][p["ns"]].get("install-time", True) is False:
            st[p["ns"]] = {n: list(v) for n, v, _ in p["all"]}
            if len(st[p["ns"]]) > 1:
                have = table["default-priorities"].setdefault("feature", {}).setdefault(p["ns"], [])
                have += [f for f in st[p["ns"]] if f not in have]
    variants = {}
    for _ in range(1 if kind == "distinfo" else r.choice([0, 1, 2, 4])):
        props = sorted({(r.choice(gen.NSPOOL), r.choice(gen.FEATS), r.choice(gen.VALS)) for _ in range(r.randint(0, 5))})
        variants["null" if not props else r.choice(["lab", "x", "a.b_c", "0123456789abcdef", "00", "deadbeef"])] = props
    d = gen.variant_json(table, variants, st)
    if r.random() < 0.15:
        del d["$schema"]
    return d


def nodes(d, path=()):
    yield path
    items = d.items() if isinstance(d, dict) else enumerate(d) if isinstance(d, list) else ()
    for k, v in items:
        yield from nodes(v, (*path, k))


def at(d, path):
    for k in path:
        d = d[k]
    return d


VALUES = [None, 0, 1, -1, 1.5, True, False, "", "x", "a-b", [], {}, [1], ["x"], [[]], [None], ["x", 1], {"a": ["b"]},
          {"f": "x"}, {"f": {}}, {"f": []}, {"ns": {"f": ["1"]}}, "true", [True], [""], {"": []}, {"requires": ["q"]}]
KEYS = ["unknown", "x-y", "requires", "plugin_api", "install_time", "namespace", "feature", "property", "optional",
        "enable-if", "X", "", "null", "alpha", "zz", "a.b", "f f", "providers", "é", "lab\n"]


def spoil(r, s):
    x = r.randrange(12)
    if x == 0:
        return s + "\n"
    if x == 1:
        return s + r.choice(["-", " ", "\t", "\r", "\0", "é", ":", "::", "/", "Z", "\u2028", "²", "."])
    if x == 2:
        return r.choice(["-", " ", "\n", "é", "A", ":", ".", "\ufeff"]) + s
    if x == 3:
        return ""
    if x == 4:
        return s.upper()
    if x == 5:
        return (s * 20)[:r.choice([16, 17, 60])]
    if x == 6 and s:
        i = r.randrange(len(s))
        return s[:i] + r.choice(["\n", "-", " ", "A", ".", "\t", "::", " : ", "\x0b", "+"]) + s[i:]
    if x == 7:
        return s.replace("_", "-").replace(".", "_")
    if x == 8:
        return r.choice(gen.NSPOOL + gen.FEATS)
    if x == 9:
        return r.choice(["null", "None", "abi_dependency", "python", "__", "0"])
    return s + r.choice(["x", "1", "_", ".", "-"])


def edit(r, d):
    """One change to a document, likely to make it ill-formed."""
    d = copy.deepcopy(d)
    ps = [p for p in nodes(d) if p]
    if not ps or not isinstance(d, dict):
        return d
    if r.random() < 0.02:
        return r.choice([[], "x", 3, True, [d], {}])
    p = r.choice(ps)
    if r.random() < 0.35:                  # near the top: small tables get their share
        p = p[:r.randint(1, min(2, len(p)))]
    parent, k = at(d, p[:-1]), p[-1]
    v = parent[k]
    x = r.randrange(13)
    if x <= 1:
        del parent[k]
    elif x == 2:
        parent[k] = copy.deepcopy(r.choice(VALUES))
    elif x <= 4 and isinstance(v, str):
        parent[k] = spoil(r, v)
    elif x <= 6 and isinstance(parent, dict):
        k2 = spoil(r, k) if r.random() < 0.8 else r.choice(KEYS)
        items = [(k2 if a == k else a, b) for a, b in parent.items()]
        parent.clear()
        parent.update(items)
    elif x == 7:
        t = v if isinstance(v, dict) else parent
        if isinstance(t, dict):
            t[r.choice(KEYS)] = copy.deepcopy(r.choice(VALUES))
        else:
            t.append(copy.deepcopy(r.choice(VALUES)))
    elif x == 8 and isinstance(parent, list):
        parent.insert(r.randint(0, len(parent)), v)
    elif x == 9:
        q = r.choice(ps)
        if q[:len(p)] != p and p[:len(q)] != q:
            a = at(d, q[:-1])
            a[q[-1]], parent[k] = v, a[q[-1]]
    elif x == 10:
        provs = d.get("providers")
        if isinstance(provs, dict) and provs:
            e = provs[r.choice(sorted(provs))]
            if isinstance(e, dict):
                y = r.randrange(4)
                if y == 0:
                    e["install-time"] = not e.get("install-time", True)
                elif y == 1:
                    e["requires"] = []
                elif y == 2:
                    e.pop("requires", None)
                else:
                    e[r.choice(sorted(FIELDS))] = copy.deepcopy(r.choice(VALUES))
    elif x == 11:
        pr = d.setdefault("default-priorities", {})
        if isinstance(pr, dict):
            t = r.choice(["namespace", "feature", "property"])
            if t == "namespace" and isinstance(pr.get(t), list):
                pr[t].append(r.choice(gen.NSPOOL))
            elif isinstance(pr.setdefault(t, {}), dict):
                pr[t][r.choice(gen.NSPOOL)] = r.choice([["f"], [], {"f": ["1"]}, {"f": []}, {}])
    else:
        st = d.setdefault("static-properties", {})
        if isinstance(st, dict):
            ns = r.choice(sorted(d.get("providers") or {"x": 0}) if isinstance(d.get("providers"), dict) else ["x"])
            fs = st.setdefault(ns, {})
            if isinstance(fs, dict):
                fs[r.choice(gen.FEATS)] = r.choice([["1"], [], ["1", "1"], ["A"]])
    return d


def rot(data, s, other=b""):
    """Bytes as a disk may give them back: s = [kind, where, size]."""
    kind, frac, n = s
    i = min(int(frac * len(data)), max(len(data) - 1, 0))
    if kind == "cut":
        return data[:i]
    if kind == "flip":
        return data[:i] + bytes([data[i] ^ (1 << (n % 8))]) + data[i + 1:] if data else data
    if kind == "byte":               # not UTF-8 any more
        return data[:i] + bytes([0x80 + n]) + data[i + 1:] if data else data
    if kind == "text":               # the same, within free text
        spots = [m.end() for m in re.finditer(rb'(schema|enable-if|requires)"?( =|:) \[?\s*"', data)] or [i]
        i = spots[int(frac * len(spots)) % len(spots)]
        return data[:i] + bytes([0x80 + n]) + data[i:]
    if kind == "zero":
        return data[:i] + b"\0" * min(n, len(data) - i) + data[i + n:]
    if kind == "splice":             # the beginning of one version, the rest of another
        return data[:i] + other[i:]
    if kind == "twice":
        return data + data[i:]
    if kind == "lost":               # a piece is missing
        return data[:i] + data[i + n:]
    return data + b"\n"


ROTS = ["cut", "flip", "flip", "flip", "byte", "text", "text", "zero", "splice", "splice", "twice", "lost", "lost", "newline"]
