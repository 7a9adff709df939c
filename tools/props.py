"""Which machinery decides which property, and how much of it."""
import os
import lib

ASSUMPTIONS = [
    "the Gear executor is replaced by /verif/harness/host: messages are handled one at a time, a failed message leaves no trace, "
    "replies arrive in any order or never, exec::leave commits",
    "the token programs' behaviour is arbitrary (any answer, any time, or none)",
]
LEVEL = {}

# profile -> number of histories in the quick tier
PLANS = {
    "P01": dict(amm=30, pos=15, wrap=20, huge=15, async_=40, mixed=20),
    "P02": dict(mixed=70, pos=50, amm=50),
    "P03": dict(amm=60, wrap=30, ends=30, huge=30, quote=20),
    "P04": dict(amm=60, ends=50, wrap=30, mixed=20),
    "P05": dict(amm=60, pos=40, ends=40, wrap=20),
    "P06": dict(amm=50, ends=50, query=40, pos=30),
    "P07": dict(amm=60, wrap=50, pos=40),
    "P08": dict(pos=60, wrap=50, amm=40),
    "P09": dict(amm=60, config=50, mixed=50),
    "P10": dict(pos=60, ends=40, huge=30, amm=30),
    "P11": dict(pos=90, query=40, mixed=40),
    "P12": dict(quote=60, route=40, ends=30, huge=20),
    "P13": dict(route=140),
    "P14": dict(mixed=50, huge=30, async_=50, route=30, config=20),
    "P15": dict(async_=160, mixed=30),
    "P16": dict(async_=160, mixed=30),
    "P17": dict(async_=110, mixed=70),
    "P18": dict(config=150, mixed=30),
    "P19": dict(config=150, query=30),
    "P20": dict(query=110, config=40, pos=20),
    "P22": dict(huge=90, wrap=50),
    "P25": dict(amm=40, mixed=40, pos=40, route=40),
    "P28": dict(amm=60, wrap=40, pos=60),
}


# scenarios of module MC explored completely, with (quick, thorough) number of operations
DEPTH = {"amm": (4, 5), "dust": (3, 5), "async": (5, 7), "lists": (4, 5), "config": (5, 7), "top": (4, 6), "bottom": (4, 6), "far": (3, 4), "wrap": (4, 5), "quotes": (2, 3), "routes": (4, 5), "full": (4, 6), "queries": (4, 6), "mix": (3, 4), "low": (2, 3), "edge": (2, 3), "high": (2, 3), "free": (2, 4)}
SCENES = {
    "P01": "amm dust async mix",
    "P02": "lists config mix",
    "P03": "amm dust free low top bottom far",
    "P04": "top bottom far low high",
    "P05": "amm far low edge high",
    "P06": "far top bottom edge",
    "P07": "amm wrap low",
    "P08": "lists wrap",
    "P09": "config dust mix",
    "P10": "amm bottom dust free",
    "P11": "lists",
    "P12": "quotes",
    "P13": "routes",
    "P14": "async config routes mix",
    "P15": "async full",
    "P16": "async full",
    "P17": "async mix",
    "P18": "config mix",
    "P19": "config",
    "P20": "queries",
    "P22": "full wrap top bottom low high",
    "P25": "amm routes lists mix",
    "P28": "amm wrap mix",
}


def scenes(r):
    """Every behaviour in small scenarios."""
    lib.build_wasm()
    lib.build_host()
    for s in SCENES[r.prop].split():
        if r.thorough() and lib.time.time() - r.t0 > 2500:
            break
        if not lib.explore(r, s, DEPTH[s][r.thorough()]):
            return


def histories(r):
    """Random histories of the compiled contract, checked step by step."""
    lib.build_wasm()
    lib.build_host()
    plan = [(k.rstrip("_"), n) for k, n in PLANS[r.prop].items()]
    rounds = 20 if r.thorough() else 1
    for k in range(rounds):
        if r.thorough() and lib.time.time() - r.t0 > 3000:
            break
        path = lib.gen_traces(r, plan, 160 if r.thorough() and k % 2 else 110, r.seed * 1000 + k, "hist%d" % k)
        ok = lib.check_traces(r, path, "hist%d" % k)
        os.remove(path)
        if not ok:
            return


# property -> libraries, groups of functions (cargo features of harness/calc-*), number of inputs by generator
CALC = {
    "P21": ("cs", ["ticks", "limits", "map"], dict(ticks=4000)),
    "P23": ("s", ["sim"], dict(simulations=8000)),
    "P24": ("s", ["ticks", "limits", "map", "swap", "growth", "amounts", "fee", "sim"],
            dict(sdk=12000, swap_steps=5000, growths=5000, amounts=5000, tickmap=4000, ticks=500)),
    "P26": ("cs", ["liq"], dict(liq=25000)),
    "P27": ("cs", ["dec"], dict(dec=60000)),
}
# the same for properties decided by histories first: local rules on inputs histories hardly reach
EXTRA = {
    "P03": (["swap"], dict(swap_steps=20000)),
    "P05": (["store"], dict(storage=("tick_cross", "tick_update", "modify", 8000))),
    "P06": (["map"], dict(tickmap=15000)),
    "P07": (["growth", "store"], dict(growths=12000, storage=("add_fee", "tick_new", "tick_cross", "claim", 6000))),
    "P08": (["store"], dict(storage=("claim", "remove", 8000))),
    "P09": (["store"], dict(storage=("add_fee", "withdraw_fee", 8000))),
    "P10": (["amounts", "store"], dict(amounts=15000, storage=("create", "remove", 6000))),
    "P19": (["limits", "store"], dict(sdk=4000, storage=("pool_new", 5000))),
    "P22": (["swap", "growth", "amounts", "limits", "store"],
            dict(swap_steps=20000, growths=10000, amounts=8000,
                 storage=("tick_cross", "tick_update", "add_fee", "modify", "remove", "create", 10000))),
    "P28": (["store"], dict(storage=("tick_new", "tick_cross", "modify", 6000))),
}


def inputs(r, gens, seed, path, known, full=False):
    """writes random inputs for the functions of the given generators"""
    import calcgen
    with open(path + ".all", "w") as f:
        g = calcgen.Gen(seed, f)
        for name, n in gens.items():
            if name == "storage":
                calcgen.storage(g, n[-1], list(n[:-1]))
            elif name == "ticks":
                calcgen.ticks(g, n, full)
            else:
                getattr(calcgen, name)(g, n)
    # only the functions that were built
    with open(path, "w") as f:
        for line in open(path + ".all"):
            if lib.json.loads(line)["f"] in known:
                f.write(line)
    os.remove(path + ".all")


FUNCS = {
    "dec": "dec cast checked_cast", "ticks": "sqrt_price sqrt_prices tick_at ticks_at",
    "limits": "check_tick check_ticks price_in_tick max_liq max_tick min_tick max_price min_price max_chunk consts fee_tier pool_key is_token_x",
    "map": "search_limit tick_pos pos_tick next_init prev_init closer map_get tick_pos_inner", "swap": "swap_step delta_x delta_y next_x enough",
    "growth": "growth_add growth_sub growth_of fee_of inside spl_add spl_sub spl_global spl_inside", "amounts": "amount_delta min_out",
    "liq": "liq_x liq_y liq_both", "fee": "position_fee", "sim": "simulate max_steps",
    "store": "pool_new tick_new tick_cross tick_update add_fee withdraw_fee modify claim remove create",
}


def buildable(libs, group):
    try:
        lib.build_calc(libs, [group])
    except lib.ToolError:
        return False
    return True


def functions(r):
    """Calls of library functions with generated inputs, each answer compared with the specification."""
    libs, feats, gens = CALC[r.prop]
    lib.build_host()
    try:
        lib.build_calc(libs, feats)
    except lib.ToolError as e:
        # some function has another form now: without its group
        kept = [f for f in feats if buildable(libs, f)]
        if not kept:
            raise e
        lib.build_calc(libs, kept)
        r.extra["not_callable"] = sorted(set(feats) - set(kept))
        feats = kept
    known = set(" ".join(FUNCS[f] for f in feats).split())
    for k in range(12 if r.thorough() else 1):
        if r.thorough() and lib.time.time() - r.t0 > 3000:
            break
        path = "%s/calls%d" % (r.dir, k)
        scale = 4 if r.thorough() else 1
        inputs(r, {n: c * scale for n, c in gens.items()}, r.seed * 1000 + k, path, known, full=r.prop == "P21")
        if not lib.check_calc(r, path, "calls%d" % k, libs):
            return
        os.remove(path)


def local_rules(r):
    """The same for the contract's inner functions.  Inner functions may change their form: without them the histories decide."""
    feats, gens = EXTRA[r.prop]
    try:
        lib.build_calc("c", feats)
    except lib.ToolError:
        r.notes.append("inner functions have another form: not called one by one")
        r.extra["inner_functions"] = "not callable, skipped"
        return
    known = set(" ".join(FUNCS[f] for f in feats).split())
    for k in range(6 if r.thorough() else 1):
        if r.thorough() and lib.time.time() - r.t0 > 3400:
            break
        path = "%s/inner%d" % (r.dir, k)
        scale = 5 if r.thorough() else 1
        inputs(r, {n: c * scale if not isinstance(c, tuple) else c[:-1] + (c[-1] * scale,) for n, c in gens.items()}, r.seed * 2000 + k, path, known)
        if not lib.check_calc(r, path, "inner%d" % k, "c"):
            return
        os.remove(path)


def derived(r):
    """Swaps and claims of recorded histories, repeated with the SDK."""
    import calcgen
    lib.build_wasm()
    if {"sim", "fee"} & set(r.extra.get("not_callable", [])):
        return
    plan = dict(P23=[("quote", 60), ("amm", 30), ("ends", 25), ("route", 15), ("huge", 15)], P24=[("amm", 30), ("wrap", 40), ("pos", 50)])[r.prop]
    for k in range(8 if r.thorough() else 1):
        path = lib.gen_traces(r, plan, 120, r.seed * 1000 + 500 + k, "hist%d" % k)
        calls = "%s/derived%d" % (r.dir, k)
        with open(calls, "w") as f:
            calcgen.from_histories(calcgen.Gen(0, f), path, sims=r.prop == "P23", fees=r.prop == "P24")
        os.remove(path)
        if not lib.check_calc(r, calls, "derived%d" % k, "s"):
            return
        os.remove(calls)


PARTS = {p: [scenes, histories] for p in PLANS}
for p in CALC:
    PARTS[p] = [functions]
for p in EXTRA:
    PARTS[p].append(local_rules)
for p in ("P23", "P24"):
    PARTS[p].append(derived)

TECH = "TLA+ specification checked with TLC; conformance of recorded histories of the compiled contract to it"
TECHNIQUE = {}
NOTE_DEF = ("Random histories of the compiled contract (bounded number, seeded) are each compared step by step with the TLA+ specification; "
            "the property's invariants are evaluated by TLC in every state reached.")
NOTE = {p: ("Generated inputs (bounded number, seeded, boundaries over-represented) are given to the compiled library functions; TLC compares "
            "every answer with the specification's exact value.") for p in CALC}
NOTE["P21"] += " Every tick is covered in both tiers, at one spacing each; the thorough tier repeats that with other spacings."
NOT_APPLICABLE = {
    "P29": "the token program extended-vft cannot be compiled here: its git dependency vft-service is not available offline, and the repository's own build leaves it out",
    "P30": "the TypeScript client cannot be executed here: its dependencies (gear-js, polkadot) are not installed and it talks to a live node",
}
