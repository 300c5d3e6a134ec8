"""Turns the transitions of a state graph which TLC explored into histories that take each transition at least once."""
import json
from collections import deque


def key(s):
    """Sets of paths and entries have no order; other states are compared as they are"""
    if s and all(isinstance(x, list) and len(x) == 3 for x in s):
        return tuple(sorted((tuple(p), k, tuple(c)) for p, k, c in s))
    return json.dumps(s)


def graph(edges):
    ids, adj, es = {}, {}, []

    def sid(s):
        k = key(s)
        if k not in ids:
            ids[k] = len(ids)
        return ids[k]

    for e in edges:
        a, b = sid(e["s"]), sid(e["d"])
        adj.setdefault(a, []).append(len(es))
        es.append((a, b, e["o"]))
    return ids, adj, es


def tours(edges, start, want, maxlen, rng):
    """Histories from `start` which cover the wanted edges (indices into edges)"""
    ids, adj, es = graph(edges)
    s0 = ids[key(start)]
    left = {}
    for i in sorted(want):
        left.setdefault(es[i][0], []).append(i)
    for l in left.values():
        rng.shuffle(l)
    # Moving between states only takes edges that change the state; one per pair of states is enough
    moves = {}
    for i, (a, b, o) in enumerate(es):
        if a != b and b not in moves.setdefault(a, {}):
            moves[a][b] = i
    n = sum(map(len, left.values()))
    out, cur, hist = [], s0, []

    def nearest(src):
        prev, q = {src: None}, deque([src])
        while q:
            x = q.popleft()
            if left.get(x):
                path = []
                while prev[x] is not None:
                    e = prev[x]
                    path.append(e)
                    x = es[e][0]
                return path[::-1]
            for y, e in moves.get(x, {}).items():
                if y not in prev:
                    prev[y] = e
                    q.append(y)
        return None

    while n:
        if len(hist) >= maxlen:
            out.append(hist)
            hist, cur = [], s0
        if left.get(cur):
            e = left[cur].pop()
            n -= 1
            hist.append(es[e][2])
            cur = es[e][1]
            continue
        path = nearest(cur)
        if path is None:
            if cur == s0:
                raise ValueError("not all transitions can be reached")
            out.append(hist)
            hist, cur = [], s0
            continue
        for e in path:
            if left.get(es[e][0]) and e in left[es[e][0]]:
                left[es[e][0]].remove(e)
                n -= 1
            hist.append(es[e][2])
            cur = es[e][1]
    if hist:
        out.append(hist)
    return out


def states(edges, start):
    """For each state a shortest history from `start` which reaches it, and all calls there"""
    ids, adj, es = graph(edges)
    s0 = ids[key(start)]
    path, q = {s0: []}, deque([s0])
    while q:
        x = q.popleft()
        for e in adj.get(x, []):
            y = es[e][1]
            if y not in path:
                path[y] = path[x] + [es[e][2]]
                q.append(y)
    return [(path[s], [es[e][2] for e in adj.get(s, [])]) for s in sorted(path)]
