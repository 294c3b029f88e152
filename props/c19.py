from vlib import gen
LEVEL = "model_checking"
RULE = "one trace per shape and divisor: dense and sparse vec-transposes of every type and layout, and the permutation matrix; shapes of the model plus random ones"
ASSUMPTIONS = ["the number of rows is a multiple of p; elements are whole numbers (the operation only moves elements)"]
TYPES = ["float64", "float32", "int32", "int64", "int16"]


def models(tier):
    return [dict(module="MC_VecTrans", cfg="MC_VecTrans.cfg" if tier == "quick" else "MC_VecTrans_thorough.cfg", must_take=("Move", "Emit"))]


def scenario(rng, R, C, p):
    ops = []
    a = [[rng.randint(-99, 99) for _ in range(C)] for _ in range(R)]
    z = [[v if rng.random() < .4 else 0 for v in r] for r in a]
    for dt in rng.sample(TYPES, 3):
        ops.append(dict(op="vectrans", a=a, p=p, dtype=dt, sparse=False, layout=rng.choice(["C", "C", "F", "strided"])))
    for dt in rng.sample(TYPES, 3):
        ops.append(dict(op="vectrans", a=z, p=p, dtype=dt, sparse=True, unsorted=rng.random() < .3))
    if R * C <= 36:
        ops.append(dict(op="transmatrix", a=a, layout=rng.choice(["C", "F"])))
    return dict(ops=ops)


def batches(tier, rng, models):
    scs = [scenario(rng, m["rows"], m["cols"], m["p"]) for m in (models[0]["scenarios"] if models else []) for _ in range(1 if tier == "quick" else 5)]
    for _ in range(60 if tier == "quick" else 600):
        p, q = rng.randint(1, 7), rng.randint(1, 6)
        scs.append(scenario(rng, p * q, rng.randint(1, 9), p))
    return [dict(name="vectrans", driver="matrices", scenarios=scs, module="T_Matrices", cfg="T_Matrices.cfg")]
