"""Linearizability of one register (a path) over a recorded history.

ops: dicts {"kind": "w"|"r", "val", "start", "end", "maybe": bool}; end may be
None (never finished).  A "maybe" write took effect once or not at all.
"""


def linearizable(ops, initial, limit=400_000):
    """-> (ok, how far it got)"""
    n = len(ops)
    INF = float("inf")
    ends = [INF if o["end"] is None else o["end"] for o in ops]
    must = [i for i in range(n) if not (o_maybe(ops[i]))]
    seen = set()
    best = [0]
    count = [0]

    def go(done, val):
        count[0] += 1
        if count[0] > limit:
            return None
        key = (done, val)
        if key in seen:
            return False
        seen.add(key)
        left = [i for i in range(n) if not done >> i & 1]
        if not any(i in mustset for i in left):
            return True
        best[0] = max(best[0], bin(done).count("1"))
        # an operation may come next when no other remaining one ended before it began
        horizon = min(ends[i] for i in left if i in mustset)
        for i in left:
            o = ops[i]
            if o["start"] > horizon:
                continue
            if o_maybe(o) and any(done >> j & 1 and ops[j]["start"] > ends[i] for j in range(n)):
                continue            # too late for it to take effect
            if o["kind"] == "r":
                if o["val"] == val:
                    r = go(done | 1 << i, val)
                    if r or r is None:
                        return r
            else:
                r = go(done | 1 << i, o["val"])
                if r or r is None:
                    return r
        return False
    mustset = set(must)
    import sys
    sys.setrecursionlimit(10000)
    r = go(0, initial)
    return r, best[0]


def o_maybe(o):
    return bool(o.get("maybe"))
