from vlib import gen, genpapers
LEVEL = "model_checking"
RULE = ("one trace per text, list of authors, name or record of the model (sampled in the quick tier), and random records of papers, read, written and gathered into lists of authors")
ASSUMPTIONS = ["a record's lines each hold a key and a value, or continue a value", "lists of authors begin and end with names, separated by a comma, by 'and', or by both",
               "names hold no semicolons or braces"]


def models(tier):
    return [dict(module="MC_Bibliography", cfg="MC_Bibliography.cfg" if tier == "quick" else "MC_Bibliography_thorough.cfg", must_take=("Parens", "Authors", "Name", "Lines"))]


def batches(tier, rng, models):
    ms = gen.uniq([s for m in models for s in m["scenarios"]])
    q = tier == "quick"
    rng.shuffle(ms)
    scs = []
    for kind, n in (("parens", 300), ("authors", 400), ("name", 400), ("lines", 400)):
        of = [m for m in ms if m["kind"] == kind]
        for m in of[:n if q else 8000]:
            scs.append(dict(ops=genpapers.from_model(rng, m)))
    scs += [dict(ops=genpapers.random_ops(rng)) for _ in range(250 if q else 3000)]
    return [dict(name="papers", driver="papers", scenarios=scs, module="T_Bibliography", cfg="T_Bibliography.cfg")]
