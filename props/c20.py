from vlib import gen
LEVEL = "model_checking"
RULE = ("one trace per sparsity pattern and window: quotient, normed quotient, product, direct product and log-product in single and "
        "double precision, new output, given output or in place; every pattern and window of the model (sampled in the quick tier) plus random ones")
ASSUMPTIONS = ["factors are whole numbers (powers of two under the log, possibly scaled by a power of two) so that results are rational; compared to within about seven digits",
               "the output given for a window of rows is the window's, as the function's own default is", "no explicit repetition of an element"]


def models(tier):
    return [dict(module="MC_Sparse", cfg="MC_Sparse.cfg" if tier == "quick" else "MC_Sparse_thorough.cfg", must_take=("Element", "NextRow", "Finish"))]


def one(rng, pat, start, end):
    R, C = len(pat), len(pat[0])
    K = rng.randint(1, 4)
    rows = [[[j + 1, rng.randint(1, 20)] for j in range(C) if pat[i][j]] for i in range(R)]
    if rng.random() < .3:
        for r in rows:
            rng.shuffle(r)
    ops = []
    for kind in ("quotient", "logproduct"):
        for dt in ("float64", "float32"):
            full = start == 0 and end == R
            if kind == "quotient":
                b = [[rng.randint(1, 6) for _ in range(K)] for _ in range(end - start)]
                c = [[rng.randint(0 if k else 1, 6) for _ in range(C)] for k in range(K)]
                sh = 0
            else:   # every inner product is a power of two, or zero
                kk = rng.choice([1, 2, 4])
                b = [[2 ** e if True else 0] * kk for e in [rng.randint(0, 5) for _ in range(end - start)]]
                zero = [rng.random() < .25 for _ in range(C)]
                col = [0 if zero[j] else 2 ** rng.randint(0, 5) for j in range(C)]
                c = [col[:] for _ in range(kk)]
                sh = rng.choice([0, 0, 3, 10, 40])
            ops.append(dict(op=kind, a=rows, ncols=C, b=b, c=c, start=start, end=end, dtype=dt, shift=sh,
                            out=rng.choice(["none", "given"] + (["inplace"] if full else [])), sayWindow=rng.random() < .5))
    full = dict(a=rows, ncols=C, start=0, end=R)
    for kind in ("normed", "product", "direct"):
        for dt in ("float64", "float32") + (("int32",) if kind != "normed" else ()):
            b = [[rng.randint(1, 6) for _ in range(C if kind == "direct" else K)] for _ in range(R)]
            c = [] if kind == "direct" else [[rng.randint(0 if k else 1, 6) for _ in range(C)] for k in range(K)]
            ops.append(dict(full, op=kind, b=b, c=c, d=[rng.choice([1, 2, 3, 4, 5, 6]) for _ in range(K)], dtype=dt, out=rng.choice(["none", "given", "inplace"])))
    ops.append(dict(op="indices", a=rows, ncols=C))
    return dict(ops=ops)


def batches(tier, rng, models):
    ms = gen.uniq(models[0]["scenarios"]) if models else []
    rng.shuffle(ms)
    scs = [one(rng, m["pat"], m["start"], m["end"]) for m in ms[:200 if tier == "quick" else 3000] if m["end"] > m["start"]]
    for _ in range(100 if tier == "quick" else 1000):
        R, C = rng.randint(1, 9), rng.randint(1, 9)
        p = rng.choice([.2, .5, .9])
        pat = [[int(rng.random() < p) for _ in range(C)] for _ in range(R)]
        start = rng.choice([0, rng.randrange(R)])
        end = rng.choice([R, rng.randint(start + 1, R)])
        scs.append(one(rng, pat, start, end))
    return [dict(name="sparse", driver="matrices", scenarios=scs, module="T_Matrices", cfg="T_Matrices.cfg")]
