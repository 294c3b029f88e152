"""Tables of users"""
NAMES = ["ann", "bob.smith", "c", "d_9", "eve", "fay.x.y", "gil", "hal", "ida", "joe", "kay", "lee"]
GROUPS = ["news", "sport", "arts", "g4", "the fifth", "6"]


def split(rng, total, n):
    if total == 0:
        return []
    cuts = sorted(rng.randint(0, total) for _ in range(n - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [total])]


def ops(rng, table, target, apart):
    o = [dict(op="share", table=table, target=target)]
    o.append(dict(op="choose", apart=apart, sort=rng.random() < .5))
    tot = {g: sum(v for _, v in u) for g, u in table}
    free = [[g, rng.choice([0, 1, tot[g] // 2, max(0, tot[g] - 1), tot[g], tot[g] + 5])] for g, _ in table if rng.random() < .9]
    o.append(dict(op="choose", apart=apart, sort=rng.random() < .5, share=free))
    return o


def from_model(rng, m):
    table = []
    for i, s in enumerate(m["supply"]):
        table.append([GROUPS[i], [["%s%d" % (NAMES[j], i), v] for j, v in enumerate(split(rng, s, rng.randint(1, 3)))]])
    rng.shuffle(table)
    return dict(ops=ops(rng, table, m["target"], True))


def random_table(rng):
    G = rng.randint(1, 6)
    apart = rng.random() < .7
    table = []
    big = rng.choice([5, 50, 3000, 200000])
    for i in range(G):
        n = rng.choice([0, 1, 2, 3, 5, 8])
        names = rng.sample(NAMES, n)
        table.append([GROUPS[i], [[("%s%d" % (u, i)) if apart else u, rng.choice([0, 1, rng.randint(1, big), rng.randint(1, big)])] for u in names]])
    total = sum(v for _, us in table for _, v in us)
    target = rng.choice([0, 1, G, total // 3, total // 2, (2 * total) // 3, max(total - 1, 0), total, total + 1, 2 * total + 7, rng.randint(0, total + 1)])
    return dict(ops=ops(rng, table, target, apart))


def reading(rng):
    lines = []
    groups = GROUPS[:rng.randint(1, 4)]
    for _ in range(rng.randint(1, 14)):
        u = rng.choice(NAMES[:6])
        f = rng.choice([u + ".txt", u + ".csv", u + ".txt"]) if "." in u or rng.random() < .7 else u
        lines.append(dict(count=rng.choice([0, 1, 2, 5, 9, 10, 11, 40]), group=rng.choice(groups), file=f, user=u))
    apart = len({l["user"] for l in lines}) == len({(l["user"], l["group"]) for l in lines})
    lo, hi = rng.choice([-1, -1, 0, 1, 5, 9, 10]), rng.choice([-1, -1, 11, 20, 40, 41])
    if lo >= 0 or hi < 0:
        pass
    else:
        lo = 0
    o = [dict(op="read", lines=lines, lo=lo, hi=hi)]
    o.append(dict(op="share", target=rng.choice([0, 3, 10, 25, 60, 500])))
    o.append(dict(op="choose", apart=apart, sort=rng.random() < .5))
    return dict(ops=o)
