"""Which configurations and workloads decide which property, and how many runs each gets."""
ALL = ["default", "light", "stats", "lightstats", "seal", "sealstats", "plain", "dirty", "small", "tinyq", "noext", "noq", "noself", "bigq", "mte", "label", "android", "androidmte"]
CORE = ["default", "light", "plain", "dirty", "small", "tinyq", "noext", "noq", "seal", "mte", "lightstats", "androidmte"]
WAF = ["default", "stats", "seal", "small", "tinyq", "noext", "noq", "android", "androidmte"]
CANARY = ["default", "light", "dirty", "small", "tinyq", "noext", "noq", "seal", "androidmte"]
STATS = ["stats", "lightstats", "sealstats", "android"]
SEAL = ["seal", "sealstats"]
RNG = ["default", "light", "tinyq", "noext", "noq", "dirty", "mte"]


def P(*parts):
    return [{"mode": m, "configs": c, "runs": n} for m, c, n in parts]


# runs are per configuration, for the quick tier
PLAN = {
    "C01": P(("gen", CORE, 900), ("grow", ["default", "light", "small"], 120), ("huge", ["default", "light", "small", "tinyq", "dirty"], 120)),
    "C02": P(("gen", CORE, 900)),
    "C03": P(("gen", CORE, 900), ("huge", ["default", "light", "small", "tinyq", "dirty"], 120)),
    "C04": P(("gen", CORE, 900), ("grow", ["default", "light", "small", "seal"], 150), ("huge", ["default", "light", "small", "tinyq", "dirty"], 120)),
    "C05": P(("gen", CORE, 1400), ("grow", ["default"], 100), ("huge", ["default", "light", "small", "tinyq", "dirty"], 400)),
    "C06": P(("gen", CORE, 900)),
    "C07": P(("gen", CORE, 1500)),
    "C08": P(("gen", CORE, 900), ("huge", ["default", "light", "small", "tinyq", "dirty"], 120)),
    "C09": P(("gen", CORE, 900), ("huge", ["default", "light", "small", "tinyq", "dirty"], 120)),
    "C10": P(("gen", WAF, 1400)),
    "C11": P(("gen", CANARY, 1200)),
    "C12": P(("gen", ["default", "light", "small", "tinyq", "noext", "noq", "dirty", "seal", "mte"], 300)),
    "C13": P(("gen", CORE, 900), ("grow", ["default", "small"], 80), ("huge", ["default", "light", "small", "tinyq", "dirty"], 120)),
    "C14": P(("gen", ALL, 700)),
    "C15": P(("gen", CORE, 900), ("grow", ["default", "light"], 100), ("huge", ["default", "light", "small", "tinyq", "dirty"], 120)),
    "C16": P(("gen", CORE, 260), ("grow", ["default", "light"], 100), ("huge", ["default", "light", "small", "tinyq", "dirty"], 120)),
    "C17": P(("gen", ALL, 700), ("grow", ["default", "light"], 100), ("huge", ["default", "light"], 120)),
    "C18": P(("gen", ALL, 600)),
    "C19": P(("gen", ALL, 300)),
    "C20": P(("gen", ["default", "light", "noself", "seal"], 900), ("flip", ["default", "light", "tinyq"], 240)),
    "C21": P(("gen", ALL, 60), ("reseed", ["default", "light", "tinyq", "noext", "dirty", "noq"], 24)),
    "C22": P(("differ", RNG, 120), ("stat", RNG, 3), ("stat", ["bigq"], 1)),
    "C23": P(("gen", STATS, 3500), ("grow", ["stats"], 150), ("huge", STATS, 200)),
    "C24": P(("gen", CORE, 800)),
    "C25": P(("gen", CORE, 900)),
    "C26": P(("gen", CORE + ["label"], 700), ("erseed", ["default", "light"], 12)),
    "C27": P(("gen", CORE, 900)),
    "C28": P(("gen", CORE, 900)),
    "C29": P(("gen", CORE + ["noself"], 700), ("grow", ["default", "small"], 100)),
    "C30": P(("gen", SEAL, 4000), ("grow", SEAL, 200), ("huge", SEAL, 400)),
    "C31": P(("gen", CORE, 900)),
    "C32": P(("gen", ALL, 900)),
    "C33": P(("gen", ["mte", "androidmte"], 4500)),
    "C34": P(("gen", ALL, 500)),
    "C35": P(("gen", ALL, 400)),
    "C38": P(("gen", ALL, 500), ("grow", ["default", "seal"], 80), ("huge", ["default", "light", "small", "tinyq", "dirty", "seal"], 120), ("erseed", ["default"], 6)),
    "C39": P(("gen", ALL, 900), ("grow", ["default", "light"], 60), ("huge", ["default", "light", "tinyq"], 100), ("wreseed", ["default", "tinyq"], 10)),
    "C40": P(("gen", ALL, 500), ("many", ALL, 25), ("grow", ["default", "light", "seal"], 60), ("huge", ["default", "light", "tinyq", "small"], 100)),
    "C37": P(("gen", ["android", "androidmte"], 3000)),
    "C36": P(("gen", ALL, 700), ("grow", ["default", "light", "noq"], 80), ("huge", ["default", "light", "small", "tinyq", "dirty"], 120)),
}
# a thorough run does this many times as much, over this many workload seeds
THOROUGH = 20
