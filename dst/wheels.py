"""Building and judging wheels, independently of variantlib."""
from __future__ import annotations

import base64
import csv
import hashlib
import io
import json
import random
import warnings
import zipfile

from . import core


def content(m):
    n, s, k = m.get("n", 0), m.get("s", 0), m.get("k", "text")
    if "b" in m:
        return m["b"].encode("latin1")
    if "t" in m:
        return m["t"].encode("utf8")
    if n == 0:
        return b""
    if k == "zero":
        return b"\0" * n
    r = random.Random(s)
    if k == "rand":
        return r.randbytes(n)
    words = [b"alpha", b"beta", b"gamma,delta", b"\r\n", b"\n", b"x" * 13, str(s).encode()]
    out = bytearray()
    while len(out) < n:
        out += r.choice(words)
    return bytes(out[:n])


def b64(data):
    return base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode()


def base_name(w):
    parts = [w["name"], w["ver"]]
    if w.get("build"):
        parts.append(w["build"])
    return "-".join(parts + [w.get("tags", "py3-none-any")])


def file_name(w, label=None):
    return base_name(w) + (f"-{label}" if label else "") + ".whl"


def dist_info(w):
    return f"{w['name']}-{w['ver']}.dist-info"


def build(w):
    """Bytes of the wheel described by spec w."""
    di = dist_info(w)
    members = list(w["members"])
    meta = [{"p": f"{di}/METADATA", "t": f"Metadata-Version: 2.1\nName: {w['name']}\nVersion: {w['ver']}\n"},
            {"p": f"{di}/WHEEL", "t": "Wheel-Version: 1.0\nGenerator: dst\nRoot-Is-Purelib: true\nTag: py3-none-any\n"}]
    for i, m in enumerate(meta):
        m.update(w.get("metaattr", {}))
    allm = members + meta
    for m in w.get("dimembers", []):
        allm.append(dict(m, p=f"{di}/{m['p']}"))
    if w.get("variant") is not None:
        allm.append({"p": f"{di}/variant.json", "t": w["variant"]})
    rec = w.get("record", {})
    rows = []
    for m in allm:
        if m["p"].endswith("/") or m["p"] in (f"{di}/RECORD.jws", f"{di}/RECORD.p7s"):
            continue
        data = content(m)
        rows.append([m["p"], "sha256=" + b64(data), str(len(data))])
    for sig in rec.get("sigs", []):
        rows.append([f"{di}/{sig}", "", ""])
    rows.append([f"{di}/RECORD", "", ""])
    if rec.get("duprow"):
        rows.insert(rec["duprow"] % len(rows), list(rows[0]))
    if rec.get("shuffle"):
        random.Random(rec["shuffle"]).shuffle(rows)
    buf = io.StringIO()
    wr = csv.writer(buf, lineterminator="\r\n" if rec.get("crlf") else "\n",
                    quoting=csv.QUOTE_ALL if rec.get("quoteall") else csv.QUOTE_MINIMAL)
    wr.writerows(rows)
    text = buf.getvalue()
    if rec.get("nonl"):
        text = text.rstrip("\r\n")
    if rec.get("blank"):
        text = text + "\n"
    recm = {"p": f"{di}/RECORD", "t": text}
    recm.update(rec.get("attr", {}))
    order = allm + [recm]
    if rec.get("missing"):
        order = allm
    elif rec.get("pos") == "first":
        order = [recm] + allm
    elif rec.get("pos") == "mid":
        order = allm[: len(allm) // 2] + [recm] + allm[len(allm) // 2:]
    if w.get("dup"):
        order.append(dict(allm[0], s=777, n=allm[0].get("n", 0) + 5))
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for m in order:
            zi = zipfile.ZipInfo(m["p"], tuple(m.get("dt", (2020, 2, 2, 0, 0, 0))))
            zi.compress_type = m.get("c", zipfile.ZIP_DEFLATED)
            mode = m.get("m", 0o644)
            if m["p"].endswith("/"):
                zi.external_attr = (0o40755 << 16) | 0x10
                zi.compress_type = 0
                z.writestr(zi, b"")
                continue
            zi.external_attr = (0o100000 | mode) << 16
            if m.get("dos"):
                zi.create_system, zi.external_attr = 0, 0x20
            z.writestr(zi, content(m))
        if w.get("comment"):
            z.comment = w["comment"].encode()
    return out.getvalue()


class Bad(Exception):
    pass


def damage(data, which, frac):
    """The archive with one bit of a member's stored content flipped (bit rot), or None."""
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        zs = [zi for zi in z.infolist() if zi.compress_size and not is_di(zi.filename, "variant.json")]
    if not zs:
        return None
    zi = zs[which % len(zs)]
    h = zi.header_offset
    start = h + 30 + int.from_bytes(data[h + 26:h + 28], "little") + int.from_bytes(data[h + 28:h + 30], "little")
    at = start + min(int(frac * zi.compress_size), zi.compress_size - 1)
    new = data[:at] + bytes([data[at] ^ (1 << (which % 8))]) + data[at + 1:]
    try:
        parse(new)
    except Bad:
        return new
    return None


def parse(data):
    """Ordered [(name, attrs, bytes)] of a zip; raises Bad when it is not a sound archive."""
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            res = []
            for zi in z.infolist():
                res.append((zi.filename, (zi.compress_type, zi.date_time, zi.external_attr, zi.create_system),
                            z.read(zi)))
            return res
    except Exception as e:
        raise Bad(f"not a readable wheel: {type(e).__name__}: {e}") from None


def is_di(name, leaf):
    c = name.split("/")
    return len(c) == 2 and c[0].endswith(".dist-info") and c[1] == leaf


def record_rows(data):
    text = data.decode("utf8")
    return [r for r in csv.reader(io.StringIO(text, newline="")) if r]


def record_lines(data, skip):
    """The rows of a RECORD as written, but those of path `skip` (a missing final newline does not matter)."""
    lines = data.split(b"\n")
    if lines and lines[-1] == b"":
        lines.pop()
    return [x for x in lines if [r[0] for r in csv.reader([x.decode("utf8")]) if r] != [skip]]


def norm_variant_json(d):
    """Canonical form of variant.json / index data: defaults made explicit, sets of values sorted."""
    prio = d.get("default-priorities", {})
    return {
        "ns": list(prio.get("namespace", [])),
        "feat": {k: list(v) for k, v in prio.get("feature", {}).items() if v},
        "prop": {n: {f: list(v) for f, v in fs.items() if v} for n, fs in prio.get("property", {}).items() if fs},
        "providers": {
            n: {"requires": list(p.get("requires", [])), "enable-if": p.get("enable-if"),
                "optional": bool(p.get("optional", False)), "plugin-api": p.get("plugin-api"),
                "install-time": bool(p.get("install-time", True))}
            for n, p in d.get("providers", {}).items()},
        "static": {n: {f: list(v) for f, v in fs.items()} for n, fs in d.get("static-properties", {}).items()},
        "variants": {lab: sorted((n, f, x) for n, fs in v.items() for f, xs in fs.items() for x in xs)
                     for lab, v in d.get("variants", {}).items()},
    }


def judge_variant_wheel(orig, new, expected, ordered=True):
    """Problems of `new` as the variant of wheel `orig` with normalized metadata `expected`."""
    try:
        o = parse(orig)
        n = parse(new)
    except Bad as e:
        return [("unreadable", str(e))]
    probs = []
    names = [x[0] for x in n]
    dup = {x for x in names if names.count(x) > 1} - {x for x in [y[0] for y in o] if [y[0] for y in o].count(x) > 1}
    if dup:
        probs.append(("duplicate-member", sorted(dup)))
    keep_o = [x for x in o if not is_di(x[0], "variant.json") and not is_di(x[0], "RECORD")]
    keep_n = [x for x in n if not is_di(x[0], "variant.json") and not is_di(x[0], "RECORD")]
    if [x[0] for x in keep_o] != [x[0] for x in keep_n]:
        probs.append(("members", f"{[x[0] for x in keep_o]} -> {[x[0] for x in keep_n]}"))
    else:
        for a, b in zip(keep_o, keep_n):
            if a[2] != b[2]:
                probs.append(("content", a[0]))
            if a[1] != b[1]:
                probs.append(("attributes", f"{a[0]} {a[1]} -> {b[1]}"))
    vj = [x for x in n if is_di(x[0], "variant.json")]
    rec_o = [x for x in o if is_di(x[0], "RECORD")]
    rec_n = [x for x in n if is_di(x[0], "RECORD")]
    if len(vj) != 1:
        probs.append(("variant-json-count", len(vj)))
        return probs
    if len(rec_n) != 1:
        probs.append(("record-count", len(rec_n)))
        return probs
    di = rec_o[0][0].split("/")[0] if rec_o else None
    vpath = f"{di}/variant.json"
    if vj[0][0] != vpath:
        probs.append(("variant-json-path", vj[0][0]))
    try:
        got = norm_variant_json(json.loads(vj[0][2]))
    except Exception as e:
        probs.append(("variant-json-unparsable", repr(e)))
        return probs
    if expected is not None:
        for k in expected:
            if got[k] != expected[k]:
                probs.append((f"metadata-{k}", f"expected {expected[k]!r} got {got[k]!r}"))
        for k in ("feat", "prop", "static"):
            if k in expected and got[k] == expected[k] and k != "feat":
                pass
    try:
        ro, rn = record_rows(rec_o[0][2]), record_rows(rec_n[0][2])
    except Exception as e:
        probs.append(("record-unparsable", repr(e)))
        return probs
    want = record_lines(rec_o[0][2], vpath)
    have = record_lines(rec_n[0][2], vpath)
    if want != have:
        probs.append(("record-rows", f"{want} -> {have}"))
    mine = [r for r in rn if r[0] == vpath]
    if mine != [[vpath, "sha256=" + b64(vj[0][2]), str(len(vj[0][2]))]]:
        probs.append(("record-variant-row", f"{mine}"))
    return probs


def judge_same_wheel(orig, new):
    """Problems of `new` as the un-made copy of `orig` (variant.json rows and member removed)."""
    try:
        o, n = parse(orig), parse(new)
    except Bad as e:
        return [("unreadable", str(e))]
    probs = []
    o = [x for x in o if not is_di(x[0], "variant.json")]
    if [x[0] for x in o] != [x[0] for x in n]:
        return [("members", f"{[x[0] for x in o]} -> {[x[0] for x in n]}")]
    for a, b in zip(o, n):
        if a[1] != b[1]:
            probs.append(("attributes", f"{a[0]} {a[1]} -> {b[1]}"))
        if is_di(a[0], "RECORD"):
            vp = a[0].split("/")[0] + "/variant.json"
            try:
                if record_lines(a[2], vp) != record_lines(b[2], None):
                    probs.append(("record-rows", f"{a[2][:300]!r} -> {b[2][:300]!r}"))
            except Exception as e:
                probs.append(("record-unparsable", repr(e)))
        elif a[2] != b[2]:
            probs.append(("content", a[0]))
    return probs


# ---------------------------------------------------------------- generators
NAMES = ["pkg/__init__.py", "pkg/core.py", "pkg/data.bin", "pkg/a,b.py", "pkg/caf\u00e9.txt", "pkg/sub/variant.json",
         "variant.json", "pkg/RECORD", "pkg/with space.py", "pkg/q\"uote.txt", "bin/tool", "pkg/empty.txt", "pkg/",
         "pkg.data/scripts/run", "pkg/_native.so", "pkg/x.dist-info/variant.json", "z/" + "n" * 90 + ".py"]
DI_NAMES = ["REQUESTED", "top_level.txt", "RECORD.jws", "RECORD.p7s", "variant.json.asc", "variants.json", "licenses/variant.json",
            "licenses/RECORD", "entry_points.txt"]
SIZES = [0, 1, 17, 300, 4096, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131072, 200000]


def gen_wheel(r, name=None, ver=None, small=False, weird=True):
    name = name or r.choice(["demo", "my_pkg", "a.b", "torchlike", "7zip_like", "My_Pkg.X"])
    ver = ver or r.choice(["1.0", "2.1.3", "1.0rc1", "0.1+local.1", "1!3.0.dev0"])
    k = r.randint(1, 3 if small else 6)
    picks = r.sample(NAMES if weird else NAMES[:3], min(k, len(NAMES) if weird else 3))
    members = []
    for p in picks:
        m = {"p": p}
        if not p.endswith("/"):
            m["n"] = r.choice(SIZES[:7] if small else SIZES)
            m["s"] = r.randint(0, 999)
            m["k"] = r.choice(["text", "rand", "zero"])
            if r.random() < 0.4:
                m["c"] = r.choice([0, 8, 8, 12, 14])
            if r.random() < 0.4:
                m["m"] = r.choice([0o755, 0o600, 0o644, 0o664, 0o444, 0o4755])
                if r.random() < 0.15:
                    m["dos"] = True
            if r.random() < 0.4:
                m["dt"] = r.choice([[1980, 1, 1, 0, 0, 0], [2016, 12, 31, 23, 59, 58], [2099, 1, 2, 3, 4, 6]])
        members.append(m)
    if weird and not small and r.random() < 0.03:
        members += [{"p": f"many/m{j:03}.py", "n": j % 7, "s": j} for j in range(r.choice([40, 130]))]
        if r.random() < 0.5:
            r.shuffle(members)
    rec = {}
    big = weird and not small and r.random() < 0.08 and [m for m in members if "n" in m]
    if big:
        b = r.choice(big)
        b.update(n=r.choice([1 << 20, (1 << 20) + 1, 1500000, 2600000]), k=r.choice(["rand", "zero"]))
        if b.get("c") in (12, 14):
            b["c"] = 8          # the others take seconds
    if weird:
        if r.random() < 0.25:
            rec["nonl"] = True
        if r.random() < 0.15:
            rec["quoteall"] = True
        if r.random() < 0.1:
            rec["crlf"] = True
        elif r.random() < 0.1:
            rec["blank"] = True
        if r.random() < 0.2:
            rec["pos"] = r.choice(["first", "mid"])
        if r.random() < 0.2:
            rec["shuffle"] = r.randint(1, 99)
        if r.random() < 0.05:
            rec["duprow"] = r.randint(1, 9)
        if r.random() < 0.15:
            rec["sigs"] = ["RECORD.jws"]
        if r.random() < 0.2:
            rec["attr"] = {"c": 0, "m": 0o664, "dt": [2001, 1, 1, 1, 1, 2]}
    w = {"name": name, "ver": ver, "tags": r.choice(["py3-none-any", "cp312-cp312-manylinux_2_17_x86_64",
                                                      "py2.py3-none-any",
                                                      "cp39-abi3-manylinux_2_17_x86_64.manylinux2014_x86_64"]),
         "members": members, "record": rec}
    if weird and r.random() < 0.3:
        w["dimembers"] = [{"p": p, "n": r.choice([0, 0, 9, 300]), "s": r.randint(0, 99)} for p in r.sample(DI_NAMES, r.randint(1, 2))]
    if weird and not small and r.random() < 0.03 and "n" in members[0]:
        w["dup"] = True
    if r.random() < 0.2:
        w["build"] = r.choice(["1", "2abc"])
    return w
