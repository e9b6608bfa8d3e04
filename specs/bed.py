"""Boundary edit distance, as defined by Fournier (2013)."""
from itertools import permutations
from segeval.similarity.distance.multipleboundary import boundary_edit_distance
from segeval.util import SegmentationMetricError

def pairs(m):
    d, a, b = m
    return (len(d) - abs(len(a) - len(b))) / 2

def busy(k, t, used):
    return k in used and any(x[2] == t for x in used[k])

def two(i, j, t, missing):
    return i in missing and t in missing[i][0] and j in missing and t in missing[j][0] and \
                        pairs(missing[i]) > 0 and pairs(missing[j]) > 0

def swaps(h, r, n, missing):
    """Near misses: types present on one side here and on the other side nearby, nearest first."""
    found = []
    used = {}
    for span in range(1, n):
        for i in range(len(h) - span):
            j = i + span
            for t in (h[i] ^ r[i]) & (h[j] ^ r[j]) & (h[i] ^ h[j]) & (r[i] ^ r[j]):
                if not (busy(i, t, used) or busy(j, t, used)) and not two(i, j, t, missing):
                    found.append((i, j, t))
                    if i not in used:
                        used[i] = []
                    if j not in used:
                        used[j] = []
                    used[i].append((i, j, t))
                    used[j].append((i, j, t))
                    missing[i][0].discard(t)
                    missing[i][1].discard(t)
                    missing[i][2].discard(t)
                    missing[j][0].discard(t)
                    missing[j][1].discard(t)
                    missing[j][2].discard(t)
    return found

def closest(a, b):
    best = []
    cost = None
    for p in permutations(sorted(a)):
        for q in permutations(sorted(b)):
            s = set(zip(p, q))
            c = sum(abs(x - y) for x, y in s)
            if cost is None or c < cost:
                best, cost = s, c
    return best

def edits(h, r, n):
    """Additions, substitutions and transpositions between two boundary strings."""
    if len(h) != len(r):
        raise SegmentationMetricError()
    missing = {}
    for i in range(len(h)):
        if len(h[i] ^ r[i]) > 0:
            missing[i] = (h[i] ^ r[i], h[i] - r[i], r[i] - h[i])
    t = swaps(h, r, n, missing)
    a = []
    s = []
    for d, x, y in missing.values():
        pairing = closest(x, y)
        both = []
        for p, q in pairing:
            both.append(p)
            both.append(q)
        for p in x - set(both):
            a.append((p, 'a'))
        for p in y - set(both):
            a.append((p, 'b'))
        for p in set([(p, q) for p, q in set(pairing)]):
            s.append(p)
    return a, s, t


@check('C15', 'C14', budget=6000000, limit=300, cost=9)
def bed_code(h: STRING, r: STRING, n: INT):
    return boundary_edit_distance(h, r, n)


def bed_want(h, r, n):
    return edits(h, r, n)


@check('C15', 'C14', 'C07', budget=6000000, limit=300, cost=8)
def bed_default_code(h: STRING, r: STRING):
    return boundary_edit_distance(h, r)


def bed_default_want(h, r):
    return boundary_edit_distance(h, r, 2)
