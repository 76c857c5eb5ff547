"""Generic minimiser: drop parts of the plan while the same violation class persists."""
from __future__ import annotations

import copy

from .core import REAL


def _has(r, klass):
    return "harness" not in r and any(k == klass for k, _ in r["violations"])


def _lists(node, path=()):
    """Paths of all lists and droppable dict entries, biggest first."""
    if isinstance(node, dict):
        for k in sorted(node, key=str):
            v = node[k]
            if isinstance(v, (dict, list)):
                yield from _lists(v, path + (k,))
    elif isinstance(node, list):
        yield path
        for i, v in enumerate(node):
            if isinstance(v, (dict, list)):
                yield from _lists(v, path + (i,))


def _dicts(node, path=()):
    if isinstance(node, dict):
        yield path
        for k in sorted(node, key=str):
            if isinstance(node[k], (dict, list)):
                yield from _dicts(node[k], path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            if isinstance(v, (dict, list)):
                yield from _dicts(v, path + (i,))


def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def _sane(node):
    """Properties stay (namespace, feature, value) triples."""
    if isinstance(node, dict):
        for k, v in node.items():
            if k == "props" and isinstance(v, list) and not all(
                    isinstance(p, (list, tuple)) and len(p) == 3 and all(isinstance(x, str) and x for x in p) for p in v):
                return False
            if isinstance(v, (dict, list)) and not _sane(v):
                return False
    elif isinstance(node, list):
        return all(_sane(v) for v in node if isinstance(v, (dict, list)))
    return True


def shrink(plan, res, klass, run, deadline, keep=(), valid=None):
    mono = REAL["time.monotonic"]
    strict = _sane(plan)
    best, bres = plan, res
    tries = 0

    def attempt(cand):
        nonlocal best, bres, tries
        if mono() > deadline or tries > 1500:
            return False
        try:
            if (strict and not _sane(cand)) or (valid is not None and not valid(cand)):
                return False
        except Exception:
            return False
        tries += 1
        r = run(cand)
        if _has(r, klass):
            best, bres = cand, r
            return True
        return False

    changed = True
    while changed and mono() < deadline and tries <= 1500:
        changed = False
        # faults, nested actions and operations first
        paths = sorted(set(_lists(best)), key=lambda p: (0 if p and p[0] in ("faults", "nests", "ops", "schedule")
                                                         else 1, len(p), str(p)))
        for path in paths:
            if path and path[0] in keep:
                continue
            try:
                lst = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            size = len(lst)
            step = max(1, size // 2)
            while step >= 1 and mono() < deadline:
                i = 0
                while True:
                    try:
                        cur = _get(best, path)
                    except (KeyError, IndexError, TypeError):
                        break
                    if not isinstance(cur, list) or i >= len(cur):
                        break
                    cand = copy.deepcopy(best)
                    del _get(cand, path)[i:i + step]
                    if attempt(cand):
                        changed = True
                    else:
                        i += step
                    if mono() > deadline:
                        break
                if step == 1:
                    break
                step //= 2
        for path in list(_dicts(best)):
            try:
                d = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(d, dict) or (path and path[0] in keep) or (path and path[0] in ("faults", "nests")):
                continue
            for k in sorted(d, key=str):
                if not path and k in ("seed", "world", "ops", "faults", "nests", "schedule"):
                    continue
                if mono() > deadline:
                    break
                try:
                    if k not in _get(best, path):
                        continue
                except (KeyError, IndexError, TypeError):
                    break
                cand = copy.deepcopy(best)
                del _get(cand, path)[k]
                if attempt(cand):
                    changed = True
                    continue
                v = _get(best, path).get(k)
                if isinstance(v, int) and not isinstance(v, bool) and v > 1:
                    for nv in (0, 1, v // 2):
                        cand = copy.deepcopy(best)
                        _get(cand, path)[k] = nv
                        if attempt(cand):
                            break
    return best, bres
