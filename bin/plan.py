"""Which specification machines decide which property, and with which bounds.

runs/steps are (quick, thorough): number of generated behaviours and steps per
behaviour."""


def codec(step, r1, r2):
    return {"gens": [{"spec": "m_codec", "main": "m_codec%d" % d, "machine": "m_codec%d" % d, "step": step, "runs": r[0], "steps": r[1]}
                     for d, r in ((1, r1), (2, r2))],
            "models": [{"spec": "m_codec", "main": "m_codec%d" % d, "kind": "test", "quick": True} for d in (1, 2)]}


def hashing(step, runs, steps, must, more=()):
    return {"gens": [{"spec": "m_hash", "step": step, "runs": runs, "steps": steps, "must": must}] +
                    [{"spec": "m_hash", "step": s, "runs": r, "steps": n} for s, r, n in more],
            "models": [{"spec": "rare", "match": "rareTest", "kind": "test", "quick": True},
                       {"spec": "sha256", "kind": "test", "quick": True}, {"spec": "h2c", "match": "h2cTest", "kind": "test", "quick": True},
                       {"spec": "m_hash", "match": "hashTest", "kind": "test", "quick": True}]}


def stages(plan):
    plan["gens"].append({"spec": "m_encode", "init": "initStages", "step": "stepStages", "runs": (4, 32), "steps": (300, 3000)})
    return plan


def wide(d, runs, steps):
    return {"spec": "m_wide", "main": "m_wide%d" % d, "machine": "m_wide%d" % d, "runs": runs, "steps": steps, "every386": 4,
            "must": ["sign", "verify", "signCommon", "common", "aggPub"]}


def scheme(step, r1, r2, must, more=()):
    return {"gens": [{"spec": "m_scheme", "main": "m_scheme%d" % d, "machine": "m_scheme%d" % d, "step": step, "runs": r[0], "steps": r[1], "must": must, "every386": 4}
                     for d, r in ((1, r1), (2, r2))] + list(more)}


# short behaviours of the sequential machines, replayed at the same time in one process
BUNDLE = [({"spec": "m_words"}, 300), ({"spec": "m_repr"}, 300), ({"spec": "m_fq"}, 300), ({"spec": "m_fr"}, 300),
          ({"spec": "m_tower"}, 100), ({"spec": "m_sqrt"}, 60),
          ({"spec": "m_curve", "main": "m_g1", "machine": "m_g1"}, 60), ({"spec": "m_curve", "main": "m_g2", "machine": "m_g2"}, 50)]
BUNDLE += [({"spec": "m_codec", "main": "m_codec%d" % d, "machine": "m_codec%d" % d, "step": s}, n)
           for d in (1, 2) for s, n in (("stepCompress", 40), ("stepChecked", 20), ("stepRaw", 60), ("stepKeys", 40))]
BUNDLE += [({"spec": "m_hash", "step": s}, n) for s, n in (("stepMessage", 10), ("stepDomain", 10), ("stepSecret", 20))]
BUNDLE += [({"spec": "m_scheme", "main": "m_scheme%d" % d, "machine": "m_scheme%d" % d, "step": s}, 20) for d in (1, 2) for s in ("stepVerify", "stepAggregate")]
BUNDLE += [({"spec": "m_encode"}, 40), ({"spec": "m_pair"}, 15), ({"spec": "m_domain"}, 15), ({"spec": "m_rand"}, 50), ({"spec": "m_values"}, 150)]

PLAN = {
    "C01": {"gens": [{"spec": "m_words", "runs": (8, 64), "steps": (12000, 30000)}]},
    "C02": {"gens": [{"spec": "m_repr", "runs": (8, 64), "steps": (12000, 30000)}]},
    "C03": {"gens": [{"spec": "m_fq", "runs": (8, 64), "steps": (12000, 30000)}]},
    "C04": {"gens": [{"spec": "m_fr", "runs": (8, 64), "steps": (10000, 30000)}]},
    "C05": {"gens": [{"spec": "m_tower", "runs": (8, 64), "steps": (2500, 8000)}],
            "models": [{"spec": "tower", "kind": "test", "quick": True}]},
    "C06": {"gens": [{"spec": "m_sqrt", "runs": (8, 64), "steps": (1500, 8000), "must": ["fq", "fq2"]}]},
    "C07": {"gens": [{"spec": "m_curve", "main": "m_g1", "machine": "m_g1", "runs": (8, 64), "steps": (2500, 8000)}],
            "models": [{"spec": "m_curve", "main": "m_g1", "kind": "test", "quick": True},
                       {"spec": "curve", "main": "curveToy", "match": "toyTest", "kind": "test", "quick": True},
                       {"spec": "curve", "main": "curveToy", "match": "assocTest", "kind": "test"}]},
    "C08": {"gens": [{"spec": "m_curve", "main": "m_g2", "machine": "m_g2", "runs": (8, 64), "steps": (1500, 6000)}],
            "models": [{"spec": "m_curve", "main": "m_g2", "kind": "test", "quick": True},
                       {"spec": "curve", "main": "curveToy", "match": "toyTest", "kind": "test", "quick": True},
                       {"spec": "curve", "main": "curveToy", "match": "assocTest", "kind": "test"}]},
    "C09": codec("stepCompress", ((8, 64), (900, 4000)), ((8, 64), (700, 3000))),
    "C10": codec("stepChecked", ((8, 64), (300, 1500)), ((8, 64), (200, 1000))),
    "C11": codec("stepRaw", ((4, 32), (800, 4000)), ((4, 32), (800, 4000))),
    "C12": {"gens": [{"spec": "m_pair", "runs": (8, 64), "steps": (120, 2000), "every386": 4}],
            "models": [{"spec": "pairing", "match": "pairingTest", "kind": "test", "quick": True}]},
    "C13": stages(hashing("stepMessage", (8, 64), (120, 1000), ["hash1", "hash2"],
                          (("stepHuge", (1, 4), (1, 2)), ("stepLong", (4, 24), (5, 10))))),
    "C14": hashing("stepDomain", (8, 64), (130, 1500), ["domain"]),
    "C15": hashing("stepSecret", (8, 64), (400, 3000), ["secret"]),
    "C16": scheme("stepVerify", ((8, 64), (180, 1500)), ((8, 64), (240, 2000)), ["verify", "sign"]),
    "C17": scheme("stepAggregate", ((8, 64), (160, 1500)), ((8, 64), (200, 2000)), ["verifyAgg", "common", "signList", "signCommon", "aggPub", "aggSig"],
                  (wide(1, (8, 48), (45, 200)), wide(2, (8, 48), (45, 200)))),
    "C18": {"gens": [{"spec": "m_domain", "runs": (8, 64), "steps": (170, 1500), "every386": 4,
                      "must": ["verify", "verifyPlain", "common", "aggregate", "sign", "signList", "passPub"]}, wide(3, (8, 48), (45, 200))]},
    "C19": {"gens": [{"spec": "m_values", "runs": (8, 64), "steps": (2500, 12000), "every386": 8,
                      "must": ["f12New", "f12Unit", "frOfRepr", "frOfKey", "affOfProj", "affNeg", "affRaw", "objPass", "objList", "verify", "pairing"]}]},
    "C20": {"gens": [{"spec": "m_conc", "concurrent": True, "runs": (6, 32), "steps": (150, 600),
                      "must": ["sign1", "sign2", "signD", "verify1", "verify2", "verifyD", "aggregate1", "aggregate2", "pair", "miller", "encode", "mul1"]}],
            "bundle": BUNDLE, "bundles": (1, 12)},
    "C21": codec("stepKeys", ((8, 64), (800, 3000)), ((8, 64), (500, 2000))),
    "C22": {"gens": [{"spec": "m_rand", "runs": (8, 64), "steps": (1200, 5000), "must": ["fq", "fr", "key", "fq2", "fq6", "fq12", "g1", "g2"]}]},
    "C23": {"gens": [{"spec": "m_encode", "runs": (8, 64), "steps": (900, 5000)}],
            "models": [{"spec": "m_encode", "match": "encodeTest", "kind": "test", "quick": True}]},
}

# per-property assurance notes for MANIFEST.json
NOTES = {}
NOT_APPLICABLE = {}
