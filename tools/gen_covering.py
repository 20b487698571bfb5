"""Writes pv/covering.json: a covering array of strength 3 over the features of a declaration (every combination of
values of every three features that can occur together occurs in some row). Run by hand; the result is committed."""
import itertools
import json
import os
import random
import sys

FACTORS = {
    "kind": ["named", "tuple", "enum-tuple", "enum-named"],
    "lt": [0, 1, 2],
    "ty": [0, 1, 2],
    "const": [0, 1],
    "where": [0, 1],
    "bound": [0, 1],
    "default": [0, 1],
    "mode": ["", "drop", "replace", "replace-named"],
    "unpin": ["", "!Unpin", "UnsafeUnpin"],
    "project": [0, 1],
    "ref": [0, 1],
    "vis": ["", "pub", "pub(crate)"],
    "attr": ["", "repr", "derive", "must_use"],
    "doc": [0, 1],
    "marker": [0, 1],
    "raw": [0, 1],
    "outlives": [0, 1],
    "before": [0, 1],
    "count": [1, 2, 3, 4],
    "pins": ["none", "first", "last", "all", "odd"],
    "first": ["param", "concrete", "app", "ref", "tuple", "array", "fn", "ptr", "paren"],
    "last": ["param", "app", "ref", "array", "tuple"],
    "fvis": ["", "pub", "pub(crate)"],
    "fattr": ["", "doc", "before", "after", "many"],
}
NAMES = list(FACTORS)


def valid(r):
    """r: partial row {factor: value}"""
    g = r.get
    if g("kind", "").startswith("enum") and (g("mode") == "replace" or g("fvis", "") != ""):
        return False
    if g("ty") == 0 and (g("bound") == 1 or g("default") == 1):
        return False
    if g("lt") == 0 and g("outlives") == 1:
        return False
    if g("count") == 1 and g("pins") in ("last", "odd"):
        return False
    return True


def main():
    rnd = random.Random(5)
    idx = list(itertools.combinations(range(len(NAMES)), 3))
    todo = set()
    for c in idx:
        ns = [NAMES[i] for i in c]
        for vs in itertools.product(*(range(len(FACTORS[n])) for n in ns)):
            if valid({n: FACTORS[n][v] for n, v in zip(ns, vs)}):
                todo.add((c, vs))
    total, rows = len(todo), []
    while todo:
        best, score = None, -1
        for _ in range(25):
            c, vs = rnd.choice(tuple(todo)) if len(todo) < 500 else next(iter(todo))
            row = dict(zip(c, vs))
            order = [i for i in range(len(NAMES)) if i not in row]
            rnd.shuffle(order)
            for i in order:
                opts = list(range(len(FACTORS[NAMES[i]])))
                rnd.shuffle(opts)
                opts = [o for o in opts if valid({NAMES[j]: FACTORS[NAMES[j]][v] for j, v in list(row.items()) + [(i, o)]})]
                if not opts:
                    break
                gain = lambda o: sum((tuple(sorted((a, b, i))), tuple(dict(row, **{}).get(x, o) if x != i else o for x in sorted((a, b, i)))) in todo for a, b in itertools.combinations(row, 2))
                row[i] = max(opts, key=gain)
            else:
                s = sum((c, tuple(row[i] for i in c)) in todo for c in idx)
                if s > score:
                    best, score = row, s
            if len(rows) > 5 and score > 0 and _ >= 4:
                break
        if best is None:
            print("impossible:", next(iter(todo)))
            todo.discard(next(iter(todo)))
            continue
        for c in idx:
            todo.discard((c, tuple(best[i] for i in c)))
        rows.append([FACTORS[NAMES[i]][best[i]] for i in range(len(NAMES))])
    print(total, "triples", len(rows), "rows")
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pv", "covering.json")
    with open(p, "w") as f:
        f.write('{"factors": %s,\n "rows": [\n' % json.dumps(NAMES) + ",\n".join("  " + json.dumps(r) for r in rows) + "\n]}\n")


main()
