"""Enumerators of small finite input spaces (all of them enumerate without repetition, simplest first)."""
import itertools


def words(k, max_len, min_len=0):
    """all words over the letters 0..k-1"""
    for n in range(min_len, max_len + 1):
        for w in itertools.product(range(k), repeat=n):
            yield list(w)


def rgs(max_len, k, min_len=0):
    """words up to renaming of letters (restricted growth): one representative of every class of equal-letter layouts"""
    def rec(prefix, used, n):
        if len(prefix) == n:
            yield list(prefix)
            return
        for c in range(min(used + 1, k)):
            prefix.append(c)
            yield from rec(prefix, max(used, c + 1), n)
            prefix.pop()
    for n in range(min_len, max_len + 1):
        yield from rec([], 0, n)


def splits(n, max_traces):
    """all ways to cut a word of n events into 1..max_traces (possibly empty) traces: list of lengths"""
    for t in range(1, max_traces + 1):
        yield from compositions(n, t)


def compositions(n, t):
    if t == 1:
        yield [n]
        return
    for first in range(n + 1):
        for rest in compositions(n - first, t - 1):
            yield [first] + rest


def logs(k, max_traces, max_events, max_len=None, min_traces=0, canonical=True):
    """all logs (lists of traces of letters) with at most max_traces traces and max_events events in total; with
    canonical=True one representative up to renaming letters (equivalent to all logs for name-independent code)"""
    if min_traces == 0:
        yield []
    src = rgs(max_events, k) if canonical else words(k, max_events)
    for w in src:
        for t in range(max(1, min_traces), max_traces + 1):
            for lens in compositions(len(w), t):
                if max_len is not None and max(lens) > max_len:
                    continue
                out, i = [], 0
                for n in lens:
                    out.append(w[i:i + n])
                    i += n
                yield out


def subsets(items):
    items = list(items)
    for r in range(len(items) + 1):
        for c in itertools.combinations(items, r):
            yield list(c)


def intervals(n, max_count=None):
    """all sets of disjoint non-empty intervals [start, length] inside range(n), sorted by start"""
    def rec(i):
        if i >= n:
            yield []
            return
        yield from rec(i + 1)
        for ln in range(1, n - i + 1):
            for rest in rec(i + ln):
                yield [[i, ln]] + rest
    for x in rec(0):
        if max_count is None or len(x) <= max_count:
            yield x


LETTERS = 'ABCDEFGHIJKLMNOP'
# names that weak encodings, hashes or normalisations tend to confuse
CONFUSABLE = ['A', 'a', 'B', 'AB', 'BA', 'aA', 'BB', 'A ', ' A', '', 'A::B', 'A, B', 'A,B', 'ABA', 'AAB', 'Ab', '0', '00',
              '1', 'é', 'É', 'e\u0301', '\U0001F600', 'x' * 40, 'x' * 39 + 'y', 'y' + 'x' * 39, 'x' * 20 + 'y' + 'x' * 19, 'x' * 120 + 'a', 'x' * 120 + 'b', 'FAKE_START', 'FAKE_END', 'None', 'UndefinedActivity']

# texts which may serve to join names: a name may contain any of them
JOINERS = ['', ',', ', ', ';', '; ', ' ', '-', '--', '->', ' -> ', '|', '||', ':', '::', '_', '__', '/', '.', '\n', '\t', '\r\n', '\x00', '\x01', '\x1f', "', '", '", "', "','",
           '","', '=', '#', '@', '&', '+', '~', '$', '%', '^', '\\', "'", '"', ')(', '), (', '][', '], [', '\u2026', '\u2192', '\ue000', '\U0010ffff']


def joined(p='p', q='q', r='r'):
    """pairs of different pairs of names which some way of joining makes equal"""
    for s in JOINERS:
        yield (p + s + q, r), (p, q + s + r)
