"""Turns state graphs printed by TLC into behaviours that cover their edges."""
import json
from collections import deque


def graph(edges):
    """state -> list of (edge number, act, state'); the initial state comes first"""
    key = lambda s: json.dumps(s, sort_keys=True)
    adj, seen = {}, set()
    for e in edges:
        a, b = key(e["from"]), key(e["to"])
        k = (a, b, json.dumps(e["act"], sort_keys=True))
        if k in seen:
            continue
        seen.add(k)
        adj.setdefault(a, []).append((len(seen), e["act"], b))
        adj.setdefault(b, [])
    targets = set()
    for a, out in adj.items():
        targets |= {b for _, _, b in out if b != a}
    start = [a for a in adj if a not in targets]
    if len(start) != 1:
        raise ValueError("%d initial states" % len(start))
    for out in adj.values():
        out.sort(key=lambda x: (json.dumps(x[1], sort_keys=True), x[2]))
    return start[0], adj, len(seen)


def cover(start, adj, rng, maxlen=60, limit=None):
    """Walks from the initial state that take every edge (or as many as the limit of steps allows)"""
    todo = {a: [e for e in out] for a, out in adj.items()}
    for out in todo.values():
        rng.shuffle(out)
    left = sum(map(len, todo.values()))
    total = left
    walks, steps = [], 0

    def nearest(a):
        """shortest path to a state with an untaken edge"""
        back, q = {a: None}, deque([a])
        while q:
            x = q.popleft()
            if todo[x]:
                path = []
                while back[x]:
                    x, e = back[x]
                    path.append(e)
                return path[::-1]
            out = list(adj[x])
            rng.shuffle(out)
            for e in out:
                if e[2] not in back:
                    back[e[2]] = (x, e)
                    q.append(e[2])
        return None

    done = set()
    while left and (limit is None or steps < limit):
        walk, at = [], start
        while len(walk) < maxlen:
            if todo[at]:
                path = [todo[at].pop()]
                if path[0][0] in done:
                    continue
            else:
                path = nearest(at)
                if path is None:
                    break
                if walk and len(walk) + len(path) > maxlen:
                    break
            for e in path:
                walk.append(e)
                at = e[2]
                if e[0] not in done:
                    done.add(e[0])
                    left -= 1
        # edges taken on the way need not be taken again
        for a in todo:
            todo[a] = [e for e in todo[a] if e[0] not in done]
        if not walk:
            break
        walks.append([e[1] for e in walk])
        steps += len(walk)
    return walks, len(done), total
