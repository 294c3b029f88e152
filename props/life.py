"""Shared by the properties about histories of estimator calls"""
from vlib import gen, genlife


def models(tier):
    ms = [dict(module="MC_Lifecycle", cfg="MC_Lifecycle.cfg" if tier == "quick" else "MC_Lifecycle_thorough.cfg", timeout=840,
               must_take=("Call", "Turn", "NoiseCreated", "NoiseTrained", "Again", "Repeat"))]
    return ms


def from_model(rng, m):
    """A history of the model, by an estimator of its kind, on corpora as the model has them"""
    kind = m["kind"] if m["kind"] != "LDA_CVB0" else rng.choice(["LDA_CVB0", "LDA_CVB", "LDA_VB_PYTHON_IMPL"])
    T = rng.randint(2, 5)
    a = dict(id=1, words=genlife.words(rng, rng.randint(1, 4), T), dtype=rng.choice(genlife.DTS), form="dataset")
    b = dict(id=2, words=genlife.words(rng, rng.randint(1, 4), T), dtype=a["dtype"], form=rng.choice(["matrix", "dense"]))
    genlife.shape(rng, a), genlife.shape(rng, b)
    c = genlife.cfg(rng, kind, T, 1)
    noise = genlife.cfg(rng, "LDA_GIBBS", T, 2)
    def calls(h, x1):
        return [dict(op=o["op"], h=h, x=x1 if o["x"] == 1 else 3, persist=o["persist"], resume=o["resume"], iters=0, how=o["how"],
                     method=o["method"], explicit=rng.random() < .5, ref=0) for o in m["calls"]]
    ops = [dict(op="new", h=1, cfg=1, seed=7)] + calls(1, 1)
    for o in ops:
        if o.get("how") == "both":
            o["how"] = "qs"
    if rng.random() < .7:
        ops += [dict(op="new", h=3, cfg=2, seed=9), dict(op="fit", h=3, x=1, persist=True, resume=False, iters=0)]
    ops += [dict(op="new", h=2, cfg=1, seed=7)] + [dict(o, h=2) for o in calls(1, 2)]
    for o in ops:
        if o.get("how") == "both":
            o["how"] = "qs"
    return dict(corpora=[a, dict(a), b], cfgs=[c, noise], ops=ops)


def batches(tier, rng, models, cfg, per_kind=18, twins=8, replay=160, length=(4, 10), extra=()):
    n = 1 if tier == "quick" else 10
    scs = []
    ms = gen.uniq([x for m in models for x in m["scenarios"]])
    rng.shuffle(ms)
    for m in ms[:replay * n]:
        scs.append(from_model(rng, m))
    for kind in genlife.KINDS:
        for _ in range(per_kind * n):
            scs.append(genlife.history(rng, [kind] * 3 + genlife.KINDS, rng.randint(*length), nh=rng.choice([1, 2, 2, 3])))
        for _ in range(twins * n):
            scs.append(genlife.twins(rng, kind, rng.randint(2, 6)))
    return [dict(name="histories", driver="models", scenarios=scs + list(extra), module="T_Lifecycle", cfg=cfg)]
