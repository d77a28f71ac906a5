"""Brute force reference models for patterns and activities (plain words, no hashes, no suffix trees)."""


def tandems(w, limit):
    """{(first_pos, length, repeats)}: every block content repeated back to back, at its first repeated position"""
    out = []
    n = len(w)
    for L in range(2, limit):
        seen = set()
        for i in range(0, n - 2 * L + 1):
            s = tuple(w[i:i + L])
            if s in seen or tuple(w[i + L:i + 2 * L]) != s:
                continue
            seen.add(s)
            r = 1
            while tuple(w[i + r * L:i + (r + 1) * L]) == s:
                r += 1
            out.append((i, L, r))
    return out


def is_primitive(block):
    n = len(block)
    if n <= 2:
        return True
    return not any(n % d == 0 and list(block) == list(block[:d]) * (n // d) for d in range(1, n))


def primitive_tandems(w, limit):
    return [(i, L, r) for i, L, r in tandems(w, limit) if is_primitive(w[i:i + L])]


def occurrences(w, s):
    k = len(s)
    return [i for i in range(len(w) - k + 1) if tuple(w[i:i + k]) == s]


def maximal_repeats(w):
    """{content: occurrences}"""
    res = {}
    n = len(w)
    table = {}
    for L in range(1, n):
        for i in range(n - L + 1):
            table.setdefault(tuple(w[i:i + L]), []).append(i)
    for s, occ in table.items():
        if len(occ) < 2:
            continue
        L = len(s)
        left = {('start',) if j == 0 else ('x', w[j - 1]) for j in occ}
        right = {('end',) if j + L == n else ('x', w[j + L]) for j in occ}
        if len(left) > 1 and len(right) > 1:
            res[s] = occ
    return res


def contains(a, b):
    return any(b[i:i + len(a)] == a for i in range(len(b) - len(a) + 1))


def super_maximal(m):
    return [s for s in m if not any(len(t) > len(s) and contains(s, t) for t in m)]


def near_super_maximal(m):
    out = []
    for s, occ in m.items():
        for i in occ:
            if not any(len(t) > len(s) and any(j <= i and i + len(s) <= j + len(t) for j in m[t]) for t in m):
                out.append(s)
                break
    return out


def repeats(w, kind):
    m = maximal_repeats(w)
    if kind == 0:
        return set(m)
    return set(super_maximal(m)) if kind == 1 else set(near_super_maximal(m))


def merged(traces):
    """the traces one after another, each followed by an event that occurs nowhere else"""
    w = []
    for i, t in enumerate(traces):
        w += list(t) + [('unique', i)]
    return w


def gaps(n, instances):
    """maximal uncovered stretches [start, end)"""
    out, i = [], 0
    for s, ln in instances:
        if i < s:
            out.append((i, s))
        i = s + ln
    if i < n:
        out.append((i, n))
    return out


class Act:
    """reference activity: classes, children"""

    def __init__(self, name, classes):
        self.name, self.classes, self.children = name, frozenset(classes), []


def segment(w, roots, narrow, keep=lambda inst: True):
    """greedy segmentation of the word w by the top-level activities `roots` (name, classes, children): list of
    (start, length, set of admissible activity objects)"""
    roots = sorted(roots, key=lambda a: (len(a.classes), a.name))
    out = []
    i = 0
    n = len(w)
    while i < n:
        cur = next((a for a in roots if w[i] in a.classes), None)
        if cur is None:
            i += 1
            continue
        start, seen = i, {w[i]}
        i += 1
        while i < n:
            if w[i] not in cur.classes:
                nxt = next((a for a in roots if len(a.classes) >= len(cur.classes) and seen | {w[i]} <= a.classes), None)
                if nxt is None:
                    break
                cur = nxt
            seen.add(w[i])
            i += 1
        out.append((start, i - start, admissible(cur, seen) if narrow else [cur]))
    return out


def admissible(act, seen):
    """all smallest activities in the hierarchy below act that still cover `seen` (act itself if no descendant does)"""
    found = []
    stack = list(act.children)
    while stack:
        a = stack.pop()
        if seen <= a.classes:
            found.append(a)
            stack.extend(a.children)
    if not found:
        return [act]
    m = min(len(a.classes) for a in found)
    return [a for a in found if len(a.classes) == m]
