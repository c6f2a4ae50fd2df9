"""Random histories on trees of boxes."""
import random

AUTO = -999999999
MARGINS = ["mt", "mr", "mb", "ml"]
COLLAPSE = ["kt", "kr", "kb", "kl"]
PLAIN = ["cw", "ch", "bt", "br", "bb", "bl", "pt", "pr", "pb", "pl"]


def value(r, f):
    pool = [0, 64, 128, 64 * r.randrange(1, 2000), r.randrange(1, 64 * 900), -64 * r.randrange(1, 40), -r.randrange(1, 4000)]
    if f in PLAIN:
        pool = pool[:5]
    if f in MARGINS:
        pool.append(AUTO)
    return r.choice(pool)


def history(r, prop, length):
    n = r.randrange(1, 8) if r.random() < 0.9 else 12
    par = [0] + [r.randrange(max(1, k - 3), k + 1) for k in range(1, n)]
    now = list(par)
    up = set(range(1, n + 1))
    ops = []

    def anchored(k):
        ops.append({"op": "anchor", "n": k})

    def settle(k):
        """Put a box that is not in its place there: directly, or because its parent moves."""
        p = now[k - 1]
        if r.random() < 0.6:
            return anchored(k)
        for f in r.sample(["ct", "cl"], 2):
            ops.append({"op": "set", "n": p, "f": f, "v": 64 * r.randrange(1, 2000) + r.randrange(1, 64)})
            last[(p, f)] = ops[-1]["v"]
        if r.random() < 0.3:
            anchored(k)
    last = {}
    restless = r.random() < 0.3        # moves, resets, boxes that come and go
    while len(ops) < length:
        k = r.choice(sorted(up))
        x = r.random() if not restless or r.random() < 0.4 else r.uniform(0.81, 1)
        if x < (0.75 if prop == "C11" else 0.45):
            f = r.choice(["ct", "cl", "cw", "ch", r.choice(PLAIN), r.choice(MARGINS), r.choice(COLLAPSE)] if prop == "C11"
                         else ["ct", "cl", "ct", "cl", r.choice(MARGINS), r.choice(COLLAPSE), r.choice(PLAIN)])
            v = last[(k, f)] if (k, f) in last and r.random() < 0.15 else value(r, f)
            last[(k, f)] = v
            op = {"op": "set", "n": k, "f": f, "v": v}
            if r.random() < 0.2:
                op["as"] = "float"
            ops.append(op)
        elif x < 0.80 and 1 in up:
            ops.append({"op": "origin", "n": 1, "t": value(r, "ct"), "l": value(r, "cl")})
        elif x < 0.81:
            ops.append({"op": "visible", "n": k, "v": r.random() < 0.3})
        elif x < 0.83:
            p = q = r.choice(sorted(up))
            while q and q != k:
                q = now[q - 1]
            if q != k and k != 1 and p != now[k - 1]:
                now[k - 1] = p
                ops.append({"op": "move", "n": k, "par": p})
                settle(k)
        elif x < 0.87:
            ops.append({"op": "dirty", "n": k, "v": r.choice("TFN")})
        elif x < 0.90:
            # a box that is reset is anchored again next (unless its history ends there)
            ops.append({"op": "reset", "n": k})
            if k != 1:
                if now[k - 1] in up:
                    settle(k)
        elif x < 0.95:
            if k != 1:
                ops.append({"op": "hide", "n": k})
                up.discard(k)
        else:
            down = sorted(m for m in range(1, n + 1) if m not in up and now[m - 1] in up)
            if down:
                k = r.choice(down)
                ops.append({"op": "show", "n": k})
                up.add(k)
                settle(k)
    return {"par": par, "ops": ops}


def gen(prop, tier, seed):
    r = random.Random(f"{seed}/box/{prop}")
    for k in range(600 if tier == "quick" else 6000):
        yield dict(history(r, prop, r.choice([4, 12, 30])), id=f"random-{k}")
