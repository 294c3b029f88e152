from vlib import gen
LEVEL = "model_checking"
RULE = ("one trace per row of exponents of the model and its shift (sampled in the quick tier), extended to matrices and through every "
        "function of the numeric modules, in both precisions, every output form and memory layout")
ASSUMPTIONS = ["inputs are chosen so that exact answers are rational (logarithms of whole numbers plus a shift, powers of two)",
               "log-sum-exp is exercised only where the exponentials can be represented, as its documentation says it does not scale",
               "the entropy's probabilities are positive",
               "results compared to about five digits in double precision and four in single"]
GONE = -1000
DYADIC = [[0], [0, 0], [0, 1, 0], [1, 1, 2], [0, 0, 1, 2], [0, 1, 2, 0], [2, 2, 2, 2], [3, 0, 0, 1, 2], [4, 0, 1, 3, 2, 0], [0, 0, 0, 0]]
DYADIC = [r for r in DYADIC if bin(sum(2 ** v for v in r)).count("1") == 1 and sum(2 ** v for v in r) <= 64]


def models(tier):
    return [dict(module="MC_Softmax", cfg="MC_Softmax.cfg" if tier == "quick" else "MC_Softmax_thorough.cfg",
                 must_take=("Scan", "Scanned", "Exponentiate", "Finish"))]


def dyadic(rng, n, gone=True):
    r = rng.choice(DYADIC)[:]
    rng.shuffle(r)
    if gone and rng.random() < .4:
        r.insert(rng.randrange(len(r) + 1), GONE)
    return r


def matrix(rng, n):
    """rows with the same number of elements, whose exponentials sum to powers of two"""
    w = rng.randint(1, 6)
    out = []
    while len(out) < n:
        r = dyadic(rng, w)
        if len(r) <= w:
            r = r + [GONE] * (w - len(r))
            rng.shuffle(r)
            out.append(r)
    return out


def shifts(rng, n, dt):
    return [rng.choice([0, 0, 30, -60, 700, -700, 100000, -100000, 1000] if dt == "float64" else [0, 0, 10, -16]) for _ in range(n)]


def one(rng, x, shift):
    R, W = rng.randint(1, 4), rng.randint(1, 5)
    ops = []
    # the model's row, in the logarithmic units of the machine's range
    n0 = [2 ** max(v, 0) if v > -20 and v < 20 else (0 if v < 0 else 1) for v in (x or [0])]
    if x and max(x) == 20:
        n0 = [1 if v == 20 else 0 for v in x]
    if not any(n0):
        n0 = [1] * len(n0)
    for axis in ("row", "col"):
        for dt in ("float64", "float32"):
            n = [[rng.choice([0, 1, 1, 2, 3, 7, 50, 300]) for _ in n0] for _ in range(R)]
            for r in n:
                if not any(r):
                    r[rng.randrange(len(r))] = 1
            n[0] = n0
            ops.append(dict(op="softmax", axis=axis, n=n, shift=[shift * (10 if dt == "float64" else 0)] + shifts(rng, R - 1, dt), dtype=dt,
                            out=rng.choice(["none", "given", "inplace"]), layout=rng.choice(["C", "C", "F", "strided"])))
    # extreme shifts in single precision, where only equal elements are exact
    ops.append(dict(op="softmax", axis=rng.choice(["row", "col"]), n=[[rng.choice([1, 1, 0]) for _ in range(W)] + [1] for _ in range(R)],
                    shift=[rng.choice([1000, -1000, 3000, 500]) for _ in range(R)], dtype="float32", out="none", layout="C"))
    for mod in ("sig", "se"):
        dt = rng.choice(["float64", "float32"])
        ops.append(dict(op="lse", mod=mod, n=[[rng.choice([0, 1, 2, 5, 40]) for _ in range(W)] + [rng.randint(1, 9)] for _ in range(R)],
                        shift=[rng.choice([0, 5, -5] + ([600, -600] if dt == "float64" else [60, -60])) for _ in range(R)], dtype=dt))
    for dt, lo, hi in (("float64", -990, 1020), ("float32", -110, 120)):
        ops.append(dict(op="safelog", dtype=dt, e=[[rng.choice([GONE, 0, 1, -1, rng.randint(lo, hi)]) for _ in range(W)] for _ in range(R)],
                        out=rng.choice(["none", "given", "inplace"])))
        # positive, but smaller than anything whose logarithm the functions promise
        sub = (-1070, -1010) if dt == "float64" else (-148, -120)
        ops.append(dict(op="safelog", dtype=dt, e=[[rng.choice([GONE, 0, 3, rng.randint(*sub), rng.randint(*sub)]) for _ in range(W)] for _ in range(R)],
                        out=rng.choice(["none", "given", "inplace"])))
        ops.append(dict(op="xlogx", dtype=dt, e=[[rng.choice([GONE, 0, 1, rng.randint(-20, 20)]) for _ in range(W)] for _ in range(R)]))
    for fn in ("wide", "fast", "plain"):
        dt = "float64" if fn == "plain" else rng.choice(["float64", "float32"])
        f8 = dt == "float64"
        regs = [("exact", [rng.randint(1, 40 if f8 else 20) for _ in range(5)]), ("middle", [rng.choice([1, 2, 3, 10, 300, 5000]) for _ in range(4)]),
                ("small", [rng.randint(25, 900) if f8 else rng.randint(25 if fn == "wide" else 17, 100) for _ in range(4)])]
        if fn == "plain":
            regs.append(("half", [rng.randint(1, 12) for _ in range(3)]))
        else:
            regs += [("big", [rng.choice([48, 64, 1024, 2048, 5000]) for _ in range(4)]), ("tiny", [rng.choice([800, 5000]) for _ in range(2)])]
        for reg, v in regs:
            ops.append(dict(op="log1p", fn=fn, regime=reg, v=v, dtype=dt))
    for dt in ("float64", "float32"):
        ops.append(dict(op="scaledsum", k=[[rng.choice([0, 1, 2, 3, 9, 24, 40, 200, 1200]) for _ in range(W)] for _ in range(R)],
                        w=[rng.randint(0, 6) for _ in range(R)], dtype=dt))
    for dt in ("float64", "float32", "int64"):
        for sc in ("", "int64", "int32", "float64", "float32"):
            if dt == "int64":
                W2 = rng.randint(1, 4)
                c = 2 ** rng.randint(0, 2)
                m = [[0] * c + [GONE] * rng.randint(0, 0) for _ in range(R)]
            else:
                m = matrix(rng, R)
            ops.append(dict(op="softdot", mod=rng.choice(["sig", "se"]), e=m, dtype=dt, sdtype=sc or "float64",
                            shift=[rng.choice([0, 0, 3, -7, 20] + ([800, -900] if dt == "float64" else [])) for _ in range(R)],
                            scale=[rng.randint(0, 9) for _ in range(R)] if sc else []))
    for dt in ("float64", "float32", "int64"):
        t = dyadic(rng, 0, gone=False)
        D, K = rng.randint(1, 3), len(t)
        ts = [rng.sample(t, K) for _ in range(D)]
        ops.append(dict(op="entropy", t=ts, mult=[rng.choice([1, 1, 3, 5]) for _ in range(D)],
                        v=[[rng.randint(0, 5) for _ in range(W)] for _ in range(K)], dtype=dt))
    for dt in ("float64", "float32"):
        ops.append(dict(op="normrows", n=[[rng.choice([0, 1, 5, 100]) for _ in range(W)] + [rng.randint(1, 9)] for _ in range(R)], dtype=dt,
                        layout=rng.choice(["C", "F", "strided"])))
    for _ in range(3):
        step = rng.choice([1, 5, 10])
        L = rng.randint(1, 8)
        iters = [step * (i + 1) for i in range(L)]
        vals = [rng.randint(-900, 900) if rng.random() < .5 else 100 + i for i in range(L)]
        idx = rng.randint(0, L)
        if idx >= 2 and vals[idx - 1] - vals[idx - 2] in (0, step):
            vals[idx - 1] += step + 1
        ops.append(dict(op="converged", iters=iters, vals=vals, idx=idx, eps=rng.choice([0, 1, 10, 45]), min=rng.choice([0, 10, 20, 100]),
                        itype=rng.choice(["float64", "int32"])))
    L = rng.randint(0, 6)
    ops.append(dict(op="clamp", arrs=[[rng.randint(-9, 9) for _ in range(L)] for _ in range(3)],
                    dtypes=[rng.choice(["float64", "float32", "int32", "int64"]) for _ in range(3)], length=rng.randint(0, L)))
    ops.append(dict(op="constant", shape=[rng.randint(1, 3) for _ in range(rng.randint(1, 3))], val=rng.randint(0, 9), dtype=rng.choice(gen.DT)))
    ops.append(dict(op="todense", a=[[rng.randint(-2, 2) for _ in range(W)] for _ in range(R)], form=rng.choice(["array", "matrix", "csr", "csc"]), dtype=rng.choice(gen.DT)))
    for fn in ("slog", "diag", "safe"):
        n = rng.randint(1, 40 if fn != "safe" else 6)
        dt = rng.choice(["float64", "float32"]) if fn != "slog" else "float64"
        lim = 10 if fn == "safe" else 60
        ops.append(dict(op="det", fn=fn, diag=[rng.randint(-lim, lim) if fn != "slog" else rng.choice([-3, 0, 20, 60]) for _ in range(n)],
                        sign=rng.choice([1, 1, 0, -1]) if fn == "safe" else 1, seed=rng.randrange(1000), dtype=dt))
    return dict(ops=ops)


def batches(tier, rng, models):
    ms = gen.uniq(models[0]["scenarios"]) if models else []
    rng.shuffle(ms)
    scs = [one(rng, m["x"], m["shift"]) for m in ms[:70 if tier == "quick" else 2500]]
    for _ in range(20 if tier == "quick" else 400):
        scs.append(one(rng, None, 0))
    return [dict(name="numerics", driver="numerics", scenarios=scs, module="T_Numerics", cfg="T_Numerics.cfg")]
