"""For each property: the exhaustive configurations of the specification that
are checked, and the families of scenarios that bind it to the code."""
import vlib
import gen_sched as gs

PROPS = {}


def prop(pid, mc):
    def deco(f):
        PROPS[pid] = {"mc": mc, "families": f}
        return f
    return deco


def scale(tier, quick, thorough):
    return quick if tier == "quick" else thorough


SCHED_MC = {"quick": [("MCSched", "MCSched.cfg")], "thorough": [("MCSched", "MCSchedBig.cfg"), ("MCSched", "MCSchedLive.cfg")]}


def sched_family(rnd, tier, seed, scratch, cfg, nq, nt, nrq, nrt, rand_args, post=None, kinds=None):
    beh = vlib.generate("GenSched", cfg, scratch, scale(tier, nq, nt), 140, seed)
    scens = [gs.from_tlc(b, rnd, kinds=kinds) for b in beh]
    scens += [gs.rand(rnd, **rand_args) for _ in range(scale(tier, nrq, nrt))]
    scens += [gs.large(rnd, **rand_args) for _ in range(scale(tier, 12, 150))]
    for s in scens:
        if post:
            post(s)
    return [{"driver": "drv_sched", "spec": "TrSched", "scens": scens,
             "rule": f"{len(beh)} behaviours generated by TLC from GenSched with {cfg}, and random scripts, some of them with many agents, times or activations"}]


ALL_SCHEDS = gs.FREE + gs.FIFO + gs.UID


@prop("C01", SCHED_MC)
def c01(rnd, tier, seed, scratch):
    return sched_family(rnd, tier, seed, scratch, "GenSchedWake.cfg", 300, 3000, 500, 6000,
                        dict(scheds=ALL_SCHEDS, kills=False))


@prop("C02", SCHED_MC)
def c02(rnd, tier, seed, scratch):
    return sched_family(rnd, tier, seed, scratch, "GenSched.cfg", 300, 3000, 500, 6000,
                        dict(scheds=ALL_SCHEDS, past=True))


@prop("C03", SCHED_MC)
def c03(rnd, tier, seed, scratch):
    def post(s):
        # (less often in the large ones)
        s["observe"] = 1 if len(s["agents"]) < 20 and s["steps"] <= 60 else 15
    return sched_family(rnd, tier, seed, scratch, "GenSched.cfg", 150, 2000, 350, 4000,
                        dict(scheds=ALL_SCHEDS, deathmix=0.3), post=post)


@prop("C24", SCHED_MC)
def c24(rnd, tier, seed, scratch):
    return sched_family(rnd, tier, seed, scratch, "GenSchedOrd.cfg", 300, 3000, 500, 6000,
                        dict(scheds=gs.FIFO + gs.UID))


import gen_coro as gco


@prop("C05", {"quick": [("Coro", "MCCoro.cfg")], "thorough": [("Coro", "MCCoroBig.cfg")]})
def c05(rnd, tier, seed, scratch):
    progs = vlib.enumerate_all("GenCoro", "GenCoro.cfg", scratch)
    rnd.shuffle(progs)
    scens = [gco.scenario(rnd, progs[i:i + 2]) for i in range(0, len(progs), 2)]
    for _ in range(scale(tier, 250, 3000)):
        scens.append(gco.scenario(rnd, [gco.random_prog(rnd) for _ in range(rnd.randint(1, 3))], 1))
    scens += [gco.large(rnd) for _ in range(scale(tier, 12, 150))]
    return [{"driver": "drv_coro", "spec": "TrCoro", "scens": scens,
             "rule": f"the {len(progs)} programs of GenCoro with up to 3 segments or 2 states, and random larger ones, as generators, coroutines and FSM states with random nesting"}]


import gen_fsm as gf


@prop("C04", {"quick": [("Run", "MCRun.cfg")], "thorough": [("Run", "MCRunBig.cfg")]})
def c04(rnd, tier, seed, scratch):
    scens = []
    # Every pair of small limits, and random ones
    for t in [-1, 0, 1, 4, 6, 8, 16, gf.INF]:
        for s in [-1, 0, 1, 2, 4]:
            scens += [gf.run(rnd, t, s) for _ in range(scale(tier, 6, 60))]
    scens += [gf.run(rnd) for _ in range(scale(tier, 250, 3000))]
    scens += [gf.run(rnd, large=True) for _ in range(scale(tier, 12, 150))]
    return [{"driver": "drv_run", "spec": "TrRun", "scens": scens,
             "rule": "every pair of limits of a grid (none, zero, before, at and after the end of the model) and random ones, with random agents, schedulers and ways of running"}]


@prop("C06", {"quick": [("Fsm", "MCFsm.cfg")], "thorough": [("Fsm", "MCFsmBig.cfg")]})
def c06(rnd, tier, seed, scratch):
    beh = vlib.generate("GenFsm", "GenFsm.cfg", scratch, scale(tier, 150, 1500), 120, seed)
    scens = [gf.from_tlc(rnd, b) for b in beh] + [gf.fsm(rnd) for _ in range(scale(tier, 350, 4000))]
    scens += [gf.fsm(rnd, large=True) for _ in range(scale(tier, 12, 150))]
    return [{"driver": "drv_fsm", "spec": "TrFsm", "scens": scens,
             "rule": f"{len(beh)} behaviours generated by TLC from GenFsm, and random scripts, with every form of result and states as functions, generators and coroutines"}]


@prop("C07", {"quick": [("FsmClass", "MCFsmClass.cfg")], "thorough": [("FsmClass", "MCFsmClassBig.cfg")]})
def c07(rnd, tier, seed, scratch):
    chains = vlib.enumerate_all("GenFsmClass", "GenFsmClass.cfg", scratch)
    scens = [gf.chain_scenario(rnd, c) for c in chains] + [gf.chain_scenario(rnd, gf.random_chain(rnd)) for _ in range(scale(tier, 150, 3000))]
    scens += [gf.chain_scenario(rnd, gf.random_chain(rnd, large=True)) for _ in range(scale(tier, 10, 150))]
    return [{"driver": "drv_fsmclass", "spec": "TrFsmClass", "scens": scens,
             "rule": f"all the {len(chains)} chains of up to 3 classes with up to 2 states each (GenFsmClass), and random longer ones"}]


import gen_msg as gm


@prop("C08", {"quick": [("Msg", "MCMsg.cfg")], "thorough": [("Msg", "MCMsgBig.cfg")]})
def c08(rnd, tier, seed, scratch):
    beh = vlib.generate("GenMsg", "GenMsg.cfg", scratch, scale(tier, 150, 1500), 250, seed)
    scens = [gm.from_tlc(rnd, b) for b in beh] + [gm.rand(rnd, waits=rnd.random() < 0.3) for _ in range(scale(tier, 400, 5000))]
    scens += [gm.large(rnd) for _ in range(scale(tier, 12, 120))]
    return [{"driver": "drv_msg", "spec": "TrMsg", "scens": scens,
             "rule": f"{len(beh)} behaviours generated by TLC from GenMsg, and random scripts (mostly sending and processing), some of them with many messages"}]


@prop("C09", {"quick": [("Msg", "MCMsgWait.cfg")], "thorough": [("Msg", "MCMsgBig.cfg")]})
def c09(rnd, tier, seed, scratch):
    beh = vlib.generate("GenMsg", "GenMsg.cfg", scratch, scale(tier, 150, 1500), 250, seed + 1)
    scens = [gm.from_tlc(rnd, b) for b in beh] + [gm.rand(rnd) for _ in range(scale(tier, 400, 5000))]
    scens += [gm.large(rnd) for _ in range(scale(tier, 12, 120))]
    return [{"driver": "drv_msg", "spec": "TrMsg", "scens": scens,
             "rule": f"{len(beh)} behaviours generated by TLC from GenMsg, and random scripts (with questions and waits), some of them with many messages"}]


import gen_net as gn


def net_family(rnd, tier, scratch, nq, nt, rq, rt, weights=None):
    allc = vlib.enumerate_all("GenNet", "GenNet.cfg", scratch)
    cmds = rnd.sample(allc, nq) if tier == "quick" else rnd.sample(allc, min(nt, len(allc)))
    scens = [gn.scenario(rnd, c) for c in cmds] + [gn.rand(rnd, weights) for _ in range(scale(tier, rq, rt))]
    scens += [gn.large(rnd) for _ in range(scale(tier, 6, 60))]
    return [{"driver": "drv_net", "spec": "TrNet", "scens": scens,
             "rule": f"{len(cmds)} of the {len(allc)} sequences of 3 commands of GenNet, and random longer ones, on random networks, within and outside steps"}]


NET_MC = {"quick": [("Net", "MCNet.cfg")], "thorough": [("Net", "MCNetBig.cfg")]}


@prop("C10", NET_MC)
def c10(rnd, tier, seed, scratch):
    return net_family(rnd, tier, scratch, 600, 5000, 400, 4000)


@prop("C12", NET_MC)
def c12(rnd, tier, seed, scratch):
    w = [2 if c in ("add", "many", "all", "populate", "addid", "parent", "addnode") else 1 for c in gn.CMDS]
    return net_family(rnd, tier, scratch, 500, 5000, 500, 4000, w)


@prop("C11", {"quick": [("Query", "MCQuery.cfg")], "thorough": [("Query", "MCQueryBig.cfg")]})
def c11(rnd, tier, seed, scratch):
    combos = vlib.enumerate_all("GenQuery", "GenQuery.cfg", scratch)
    scens = []
    for _ in range(scale(tier, 2, 15)):
        rnd.shuffle(combos)
        for i in range(0, len(combos), 12):
            graph = rnd.choice(["graph"] * 5 + ["digraph", "digraph", "multi", "multidi"])
            n = rnd.choice([2, 4, 8, 12] * 4 + [60])
            scens.append({"cfg": {"directed": "di" in graph}, "graph": graph, "seed": rnd.randrange(10 ** 9), "n": n, "links": rnd.choice([0, 4, 12, 25]) if n < 60 else 1500,
                          "sched": rnd.choice(["timed", "pq"]), "queries": combos[i:i + 12]})
    return [{"driver": "drv_query", "spec": "TrQuery", "scens": scens,
             "rule": f"all the {len(combos)} combinations of filters and forms of GenQuery, with random values on random changing populations"}]


import gen_collect as gcl
import itertools


@prop("C13", {"quick": [("Collect", "MCCollect.cfg")], "thorough": [("Collect", "MCCollectBig.cfg")]})
def c13(rnd, tier, seed, scratch):
    scens = []
    # Every pair of a model reporter and an agent reporter
    for m, a in itertools.product(gcl.MODEL, gcl.AGENT):
        scens += [gcl.rand(rnd, [m], [a]) for _ in range(scale(tier, 1, 10))]
    scens += [gcl.rand(rnd) for _ in range(scale(tier, 250, 3000))]
    scens += [gcl.rand(rnd, large=True) for _ in range(scale(tier, 6, 60))]
    return [{"driver": "drv_collect", "spec": "TrCollect", "scens": scens,
             "rule": "every pair of kinds of reporters, and random sets of them, on random models with agents that come and go"}]


import gen_repro as grp


@prop("C14", {"quick": [("Repro", "MCRepro.cfg")], "thorough": [("Repro", "MCReproBig.cfg")]})
def c14(rnd, tier, seed, scratch):
    scens = [grp.rand(rnd) for _ in range(scale(tier, 120, 1500))] + [grp.many(rnd) for _ in range(scale(tier, 15, 200))] + [grp.lots(rnd) for _ in range(scale(tier, 1, 4))]
    return [{"driver": "drv_repro", "spec": "TrRepro", "scens": scens,
             "rule": "random models run in 3 processes with different hash seeds, in different orders, forms of running, exporters and interleavings"}]


import gen_sweep as gsw


@prop("C15", {"quick": [("MCSweep", "MCSweepLive.cfg")], "thorough": [("MCSweep", "MCSweepBig.cfg"), ("MCSweep", "MCSweepLive.cfg")]})
def c15(rnd, tier, seed, scratch):
    shapes = vlib.enumerate_all("GenSweep", "GenSweep.cfg", scratch)
    rnd.shuffle(shapes)
    scens = [gsw.scenario(rnd, shapes[i:i + 3]) for i in range(0, len(shapes), 3)]
    if tier == "quick":
        scens = scens[:200]
    scens += [gsw.scenario(rnd, [None] * rnd.randint(1, 3)) for _ in range(scale(tier, 200, 2500))]
    scens += [gsw.large(rnd) for _ in range(scale(tier, 10, 60))]
    return [{"driver": "drv_sweep", "spec": "TrSweep", "scens": scens,
             "rule": f"shapes among the {len(shapes)} of GenSweep, and random larger ones, in histories of several runs in every form"}]


import gen_store as gst

STORE_MC = {"quick": [("MCStore", "MCStore.cfg")], "thorough": [("MCStore", "MCStoreBig.cfg")]}


@prop("C16", STORE_MC)
def c16(rnd, tier, seed, scratch):
    hist = vlib.enumerate_all("GenStore", "GenStore.cfg", scratch)
    rnd.shuffle(hist)
    if tier == "quick":
        hist = hist[:150]
    scens = [gst.scenario(rnd, h) for h in hist for _ in range(scale(tier, 1, 8))] + [gst.backups(rnd) for _ in range(scale(tier, 8, 60))] + [gst.large(rnd) for _ in range(scale(tier, 8, 60))]
    return [{"driver": "drv_store", "spec": "TrStore", "scens": scens,
             "rule": f"{len(hist)} of the 256 histories of 4 runs of GenStore and longer ones with backups, with random simulations and exporters"}]


@prop("C17", STORE_MC)
def c17(rnd, tier, seed, scratch):
    hist = vlib.enumerate_all("GenStore", "GenStoreDry.cfg", scratch)
    rnd.shuffle(hist)
    hist = hist[:scale(tier, 250, 4000)]
    scens = [gst.scenario(rnd, h, dumps=False) for h in hist]
    return [{"driver": "drv_store", "spec": "TrStore", "scens": scens,
             "rule": f"{len(hist)} of the 4096 histories of 3 runs of GenStore (with any combination of dump, dry_run, overwrite and backup), with random simulations and exporters"}]


@prop("C18", {"quick": [("AgentInit", "MCAgentInit.cfg")], "thorough": [("AgentInit", "MCAgentInitBig.cfg")]})
def c18(rnd, tier, seed, scratch):
    sources = vlib.enumerate_all("GenInit", "GenInit.cfg", scratch)
    scens = []
    for _ in range(scale(tier, 1, 10)):
        rnd.shuffle(sources)
        for i in range(0, len(sources), 3):
            scens.append({"cfg": {}, "seed": rnd.randrange(10 ** 9), "names": dict(zip("pqrs", sources[i:i + 3])), "base": rnd.choice(["base", "net", "evt", "fsm", "agent"]),
                          "env": rnd.choice(["env", "env", "bare"]), "custom": rnd.random() < 0.3,
                          "ops": [rnd.choice(["create", "create", "inplace", "inplace", "set", "del", "read", "has", "setmodel"]) for _ in range(rnd.randint(4, 12))]})
    return [{"driver": "drv_init", "spec": "TrAgentInit", "scens": scens,
             "rule": f"all the {len(sources)} ways of defining the initial value of an attribute (GenInit), three at a time, with random histories of changes"}]


import gen_lockstep as glk


@prop("C20", {"quick": [("MCLockstep", "MCLockstep.cfg")], "thorough": [("MCLockstep", "MCLockstep.cfg"), ("MCLockstep", "MCLockstepBig.cfg")]})
def c20(rnd, tier, seed, scratch):
    scens = []
    for w in (1, 2, 3, 4, 5, 8, 10, 40):
        for s in ("timed", "pq", "ordered", "pqfix", "shuffled"):
            scens += [glk.scenario(rnd, w, s) for _ in range(scale(tier, 10, 150))]
        scens += [glk.scenario(rnd, w, rnd.choice(["timed", "pq"]), large=True) for _ in range(scale(tier, 1, 10))]
    return [{"driver": "drv_lockstep", "spec": "TrLockstep", "scens": scens,
             "rule": "8 intervals and 5 wrapped schedulers, with random agents that come and go"}]


import gen_loader as gl


@prop("C19", {"quick": [("MCLoader", "MCLoader.cfg")], "thorough": [("MCLoader", "MCLoaderBig.cfg")]})
def c19(rnd, tier, seed, scratch):
    files = vlib.enumerate_all("GenLoader", "GenLoader.cfg", scratch)
    scens = []
    for _ in range(scale(tier, 1, 8)):
        rnd.shuffle(files)
        scens += [gl.scenario(rnd, files[i:i + 3]) for i in range(0, len(files), 3)] + [gl.large(rnd) for _ in range(3)]
    return [{"driver": "drv_loader", "spec": "TrLoader", "scens": scens,
             "rule": f"all the {len(files)} Python files of up to 4 statements of GenLoader, with random simulations, and YAML and JSON files, in histories of loads and runs"}]


import gen_cli as gcli


@prop("C21", {"quick": [("MCCli", "MCCli.cfg")], "thorough": [("MCCli", "MCCliBig.cfg")]})
def c21(rnd, tier, seed, scratch):
    sets = vlib.enumerate_all("GenCli", "GenCli.cfg", scratch)
    small = [s for s in sets if len(s) <= 2]
    rest = [s for s in sets if len(s) > 2]
    rnd.shuffle(rest)
    # Most options make no difference if nothing is run
    rest.sort(key=lambda s: "dry-run" in s or "only-convert" in s)
    chosen = small + rest[:scale(tier, 420, 1024)] + rnd.sample(rest, scale(tier, 60, 1500))
    rnd.shuffle(chosen)
    scens = [gcli.scenario(rnd, chosen[i:i + 2]) for i in range(0, len(chosen), 2)]
    scens += [gcli.scenario(rnd, [s], True) for s in rnd.sample(small + rest, scale(tier, 18, 200))]
    return [{"driver": "drv_cli", "spec": "TrCli", "scens": scens,
             "rule": f"the {len(small)} sets of up to 2 options, and {len(chosen) - len(small)} of the other {len(rest)} (GenCli), with random files and values; some of them in another process"}]


@prop("C23", {"quick": [("MCSisa", "MCSisa.cfg")], "thorough": [("MCSisa", "MCSisaBig.cfg")]})
def c23(rnd, tier, seed, scratch):
    probs = vlib.enumerate_all("GenSisa", "GenSisa.cfg", scratch)
    mixed = vlib.enumerate_all("GenSisa", "GenSisaBig.cfg", scratch)
    chosen = probs * scale(tier, 1, 6) + rnd.sample(mixed, scale(tier, 150, 4000)) + [{k: rnd.choice([0, 0, 1, 1, 2, 4, 6]) for k in probs[0]} for _ in range(scale(tier, 250, 3000))]
    sure, some = dict(v_std=False, v_dc=False, v_cd=False), [dict(v_std=False, v_dc=True, v_cd=False), dict(v_std=False, v_dc=False, v_cd=True), dict(v_std=True, v_dc=False, v_cd=False)]
    chosen = [dict(q, **(sure if rnd.random() < 0.8 else rnd.choice(some))) for q in chosen]
    scens = [{"cfg": {"q": q}, "seed": rnd.randrange(10 ** 9), "n": rnd.choice([rnd.randint(2, 7)] * 15 + [25]), "names": rnd.random() < 0.3, "density": rnd.choice([0.3, 0.6, 1]), "steps": rnd.randint(4, 12)} for q in chosen]
    return [{"driver": "drv_sisa", "spec": "TrSisa", "scens": scens,
             "rule": "the 256 choices of probabilities zero and one (GenSisa), and others with a half or any multiple of a quarter, in random networks that change"}]


@prop("C25", {"quick": [("MCTopo", "MCTopo.cfg")], "thorough": [("MCTopo", "MCTopoBig.cfg")]})
def c25(rnd, tier, seed, scratch):
    seqs = vlib.enumerate_all("GenTopo", "GenTopo.cfg", scratch)
    sources = ["graph", "dict", "gexf", "graphml", "edgelist", "adjlist", "gml", "multiline_adjlist", "generator"]
    scens = []
    for _ in range(scale(tier, 2, 20)):
        rnd.shuffle(seqs)
        for i in range(0, len(seqs), 2):
            source = (sources + ["graph", "graph", "generator"])[len(scens) % 12]
            scens.append({"source": source, "how": rnd.choice(["now", "now", "late", "params"]), "size": rnd.choice([rnd.randint(1, 7)] * 12 + [40]),
                          "density": rnd.choice([0.2, 0.4, 0.8]), "seed": rnd.randrange(10 ** 9), "cmds": sum(seqs[i:i + 2], [])})
    return [{"driver": "drv_topo", "spec": "TrTopo", "scens": scens,
             "rule": f"all the {len(seqs)} sequences of 3 changes to a network (GenTopo), two at a time, in random networks described in 9 ways"}]


@prop("C22", {"quick": [("MCConfig", "MCConfig.cfg")], "thorough": [("MCConfig", "MCConfigBig.cfg")]})
def c22(rnd, tier, seed, scratch):
    shapes = vlib.enumerate_all("GenConfig", "GenConfig.cfg", scratch)
    scens = []

    def add(part, **kw):
        scens.append(dict(part=part, seed=rnd.randrange(10 ** 9), **kw))

    for _ in range(scale(tier, 2, 20)):
        rnd.shuffle(shapes)
        for i in range(0, len(shapes), 10):
            add("texts", shapes=shapes[i:i + 10])
        for i in range(0, len(shapes), 6):
            add("documents", sims=[shapes[i + j:i + j + 3] for j in (0, 3) if i + j < len(shapes)])
    for _ in range(scale(tier, 25, 300)):
        add("names")
    for _ in range(scale(tier, 150, 2000)):
        add("templates", docs=[dict(kind=rnd.choice(["own", "own", "salib", "plain"]), lists=[rnd.randint(1, 3) for _ in range(rnd.randint(0, 2))], bounds=rnd.randint(0, 3)) for _ in range(rnd.randint(1, 3))])
    rnd.shuffle(scens)
    return [{"driver": "drv_config", "spec": "TrConfig", "scens": scens,
             "rule": f"the {len(shapes)} shapes of values of GenConfig, as texts and in random simulations, and random modules and templates"}]


@prop("C26", {"quick": [("MCFail", "MCFail.cfg")], "thorough": [("MCFail", "MCFailBig.cfg")]})
def c26(rnd, tier, seed, scratch):
    points = vlib.enumerate_all("GenFail", "GenFail.cfg", scratch)
    scens = []
    every = points
    for _ in range(scale(tier, 1, 12)):
        points = every + 2 * [p for p in every if p["w"] == "step"]  # The place where most of the code of the user runs
        rnd.shuffle(points)
        scens += [{"cfg": {}, "faults": points[i:i + 3], "seed": rnd.randrange(10 ** 9)} for i in range(0, len(points), 3)]
    return [{"driver": "drv_fail", "spec": "TrFail", "scens": scens,
             "rule": f"the {len(every)} points of failure of GenFail (place, type of error, and which of the calls fails), three at a time, in random simulations that are also run without errors"}]


@prop("C27", {"quick": [("MCDict", "MCDict.cfg")], "thorough": [("MCDict", "MCDictBig.cfg")]})
def c27(rnd, tier, seed, scratch):
    seqs = vlib.enumerate_all("GenDict", "GenDict.cfg", scratch)
    scens = []
    for _ in range(scale(tier, 1, 12)):
        rnd.shuffle(seqs)
        scens += [{"cmds": sum(seqs[i:i + 6], []), "seed": rnd.randrange(10 ** 9)} for i in range(0, len(seqs), 6)]
    return [{"driver": "drv_dict", "spec": "TrDict", "scens": scens,
             "rule": f"the {len(seqs)} sequences of 2 operations of GenDict, six at a time, on agents of every kind and two environments"}]


@prop("C28", {"quick": [("MCLog", "MCLog.cfg")], "thorough": [("MCLog", "MCLogBig.cfg")]})
def c28(rnd, tier, seed, scratch):
    quads = vlib.enumerate_all("GenLog", "GenLog.cfg", scratch)
    scens = []
    for _ in range(scale(tier, 3, 40)):
        rnd.shuffle(quads)
        scens += [{"levels": quads[i:i + 4], "seed": rnd.randrange(10 ** 9)} for i in range(0, len(quads), 4)]
    return [{"driver": "drv_log", "spec": "TrLog", "scens": scens,
             "rule": f"the {len(quads)} choices of levels of GenLog, four at a time, in the same random simulation"}]


@prop("C29", {"quick": [("MCCount", "MCCount.cfg")], "thorough": [("MCCount", "MCCountBig.cfg")]})
def c29(rnd, tier, seed, scratch):
    seqs = vlib.enumerate_all("GenCount", "GenCount.cfg", scratch)
    scens = []
    for _ in range(scale(tier, 1, 15)):
        rnd.shuffle(seqs)
        for i in range(0, len(seqs), 3):
            size = rnd.choice([rnd.randint(0, 5)] * 12 + [30])
            pairs = [[repr(u), repr(v)] for u in range(size) for v in range(u) if rnd.random() < 0.5]
            scens.append({"cmds": sum([c + ["step"] for c in seqs[i:i + 3]], []), "seed": rnd.randrange(10 ** 9), "size": size,
                          "links": [[int(u), int(v)] for u, v in pairs], "cfg": {"edges": pairs}, "sched": rnd.choice(["timed", "pq", "ordered"])})
    return [{"driver": "drv_count", "spec": "TrCount", "scens": scens,
             "rule": f"the {len(seqs)} sequences of 3 changes of GenCount, three at a time, in random networks"}]
