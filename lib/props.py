"""One function per property: what is model checked, what is driven, and what judges it."""
from vlib import parallel


def C01(c):
    """Only an authenticated peer becomes a connection."""
    plans = []
    parallel(
        c.build,
        lambda: c.mc("Session", "Session_MC.cfg"),
        lambda: c.mc("SessionNet", "SessionNet.cfg", workers=3),
        lambda: plans.extend(c.gen("Session_Gen", "Session_Gen.cfg")),
    )
    for i in range(1 if c.quick else 20):
        traces = c.drive("session", plans, seed=c.seed * 100 + i)
        c.validate_known("Session_Trace", "Session_Trace.cfg", traces, "reflection", {"ReflectionAccepted": "TRUE"})


def C02(c):
    """Forged or altered traffic is never delivered."""
    plans = []
    parallel(
        c.build,
        lambda: c.mc("Stream", "Stream_MC.cfg", workers=3),
        lambda: c.mc("SessionNet", "SessionNet.cfg", workers=3),
        lambda: plans.extend(c.gen("Tamper_Gen", "Tamper_Gen.cfg", consts={"Depth": 3 if c.quick else 4})),
    )
    # Every single bit, and every length, of a frame in turn. A frame with 8 bytes of text has 12+8+8+16 bytes.
    for role in ("dial", "accept"):
        for kind, ats in (("flip", range(44 * 8)), ("trunc", range(1, 45))):
            for at in ats:
                of = "answer" if role == "dial" and at % 2 else "msg"
                plans.append({"role": role, "handled": ["m1"], "steps": [
                    {"ev": "send", "m": "m1"}, {"ev": "bad", "kind": kind, "of": of, "at": at}, {"ev": "send", "m": "m2"}]})
    for i in range(1 if c.quick else 10):
        traces = c.drive("tamper", plans, seed=c.seed * 100 + i)
        c.validate("Tamper_Trace", "Tamper_Trace.cfg", traces)


def canonical(traces):
    """Numbers ephemeral keys, over all traces, and nonces, within a session, in the order of first occurrence."""
    keys, out = {}, []
    for t in traces:
        steps, nonces, first = [], {}, len(keys) + 1
        for s in t["steps"]:
            if s["ev"] == "session":
                nonces = {}
                s = dict(s, k1=keys.setdefault(s["k1"], len(keys) + 1), k2=keys.setdefault(s["k2"], len(keys) + 1))
                steps.append(s)
            elif s["ev"] == "frames":
                ns = [nonces.setdefault(n, len(nonces) + 1) for n in s["ns"]]
                for i in range(0, max(len(ns), 1), 500):
                    steps.append({"ev": "frames", "ns": ns[i:i + 500], "clear": s["clear"]})
            else:
                steps.append(s)
        out.append(dict(t, steps=steps, plan=dict(t["plan"], firstKey=first)))
    return out


def C03(c):
    """Sessions use fresh keys, and a nonce is never used twice."""
    q = c.quick
    plans = [{"conns": 6, "msgs": 150, "reseed": r, "size": s} for r in (True, False) for s in (0, 300)] * (1 if q else 5)
    sealed = [{"role": role, "msgs": m, "reseed": m < 1000} for role in ("dial", "accept") for m in (600, 70000 if q else 400000)]
    many = [{"role": role, "msgs": 3, "reseed": False} for role in ("dial", "accept")] * (100 if q else 1500)
    parallel(c.build, lambda: c.mc("Wire", "Wire_MC.cfg", workers=4))
    # Processes of their own, with the seed of math/rand unset, come up with the same numbers if keys or nonces hang on it.
    old = {"GODEBUG": "randautoseed=0"}
    traces = []
    for env in (old, old, None):
        traces += c.drive("wiretap", plans, par=1, env=env)  # one at a time: reseeding concerns the whole process
        traces += c.drive("sealed", sealed, par=1, env=env)
        traces += c.drive("sealed", many, env=env)
    c.validate("Wire_Trace", "Wire_Trace.cfg", canonical(traces))


def directions(traces):
    """Takes a conversation apart into its two directions, and says in which order messages arrived in each."""
    out = []
    for t in traces:
        dirs = sorted(set(s["d"] for s in t["steps"] if "d" in s)) or [1]
        n = max([s["m"] for s in t["steps"] if s.get("m")] or [0])
        for d in dirs:
            steps = [s for s in t["steps"] if s.get("d", d) == d]
            order, place = [], [0] * n
            for s in steps:
                if s["ev"] == "deliver" and s["m"] and not place[s["m"] - 1]:
                    order.append(s["m"])
                    place[s["m"] - 1] = len(order)
            per = t["plan"]["per"]
            base = (d - 1) * per * t["plan"]["senders"]
            senders = [[base + k * per + i + 1 for i in range(per)] for k in range(t["plan"]["senders"])]
            out.append(dict(t, steps=steps, plan=dict(t["plan"], order=order, place=place, senders=senders, d=d)))
    return out


def C04(c):
    """Messages arrive intact, in order and exactly once."""
    import random
    rng = random.Random(c.seed)
    plans = []
    for i in range(70 if c.quick else 900):
        cut = rng.choice([-1, -1, -1, 0, 1, 700, 5000, rng.randrange(200000)])
        senders = rng.choice([1, 1, 2, 4, 7])
        plans.append({
            "limit": rng.choice([1 << 16, 1 << 16, 4096, 600]), "senders": senders,
            "per": rng.randrange(20, 60) if senders > 2 else rng.randrange(60, 180),
            "sizes": rng.choice(["tiny", "edges", "large", "mixed"]), "both": rng.random() < 0.6,
            "cut": cut, "pause": rng.choice([0, 0, 300, 3000]), "workers": rng.choice([1, 1, 1, 2, 5]), "idle": rng.choice([0, 0, 5000])})
    for lim in (1 << 20, 4 << 20):
        plans.append({"limit": lim, "senders": 2, "per": 8, "sizes": "large", "both": True, "cut": -1, "pause": 0, "workers": 1, "idle": 0})
    parallel(c.build, lambda: c.mc("Stream", "Stream_MC.cfg", workers=4), lambda: c.mc("Stream", "Stream_Live.cfg", workers=2))
    traces = c.drive("stream", plans, par=6)
    c.validate("Stream_Trace", "Stream_Trace.cfg", directions(traces), chunk=25 if c.quick else 60)


LOSSES = '{"peerclose", "reset", "half", "garbage", "oversize", "short", "local", "handler", "evict", "nodeclose"}'


def rpc_mc(c):
    c.mc("Rpc", "Rpc_MC.cfg", workers=4)
    c.mc("Rpc", "Rpc_MC.cfg", workers=4, consts={"MaxDup": 1, "Conns": "{1}", "Reqs": "{1, 2}"})
    c.mc("Rpc", "Rpc_Live.cfg", workers=4)
    if not c.quick:
        c.mc("Rpc", "Rpc_MC.cfg", workers=6, consts={"Reqs": "{1, 2, 3}", "Conns": "{1}"})


def C05(c):
    """A response answers exactly its own request."""
    num = 500 if c.quick else 12000
    plans = []
    parallel(
        c.build, lambda: rpc_mc(c),
        lambda: plans.extend(c.gen("Rpc_Gen", "Rpc_Gen.cfg", simulate=(num, 17), keep=num)),
        lambda: plans.extend(c.gen("Rpc_Gen", "Rpc_Gen.cfg", simulate=(num // 2, 17), keep=num // 2, consts={"Dups": "TRUE", "NConns": 1})),
        lambda: plans.extend(c.gen("Rpc_Gen", "Rpc_Gen.cfg", simulate=(num // 4, 15), keep=num // 4, consts={"Kinds": '{"peerclose", "local"}', "Depth": 12})),
    )
    traces = c.drive("rpc", plans)
    for x in (70000,) if c.quick else (70000, 300000):
        traces += c.drive("rpc", [{"conns": 1, "steps": [], "bulk": x}], limit=200)
    c.validate("Rpc_Trace", "Rpc_Trace.cfg", traces, chunk=200)


def C06(c):
    """A request always ends."""
    num = 400 if c.quick else 6000
    plans = []
    parallel(
        c.build, lambda: rpc_mc(c),
        lambda: plans.extend(c.gen("Rpc_Gen", "Rpc_Gen.cfg", simulate=(num, 13), keep=num, consts={"Kinds": LOSSES, "Depth": 10})),
        lambda: plans.extend(c.gen("Rpc_Gen", "Rpc_Gen.cfg", simulate=(num, 11), keep=num, consts={"Kinds": LOSSES, "Depth": 8, "NConns": 1, "Waits": "{FALSE}"})),
    )
    kinds = [x.strip(' "') for x in LOSSES.strip("{}").split(",")]
    race = [{"conns": 1, "steps": [], "race": g, "per": 12, "kind": k} for k in kinds for g in (1, 3, 8) for _ in range(4 if c.quick else 60)]
    traces = c.drive("rpc", plans) + c.drive("rpc", race)
    c.validate("Rpc_Trace", "Rpc_Trace.cfg", traces, chunk=100)


def C07(c):
    """At most one response is sent per request."""
    num = 500 if c.quick else 8000
    plans = []
    parallel(
        c.build, lambda: rpc_mc(c),
        lambda: plans.extend(c.gen("Answer_Gen", "Answer_Gen.cfg", simulate=(num, 24), keep=num)),
        lambda: plans.extend(c.gen("Answer_Gen", "Answer_Gen.cfg", simulate=(num, 24), keep=num, consts={"Hows": '{"race"}', "MaxTries": 8, "NConns": 1})),
        lambda: plans.extend(c.gen("Answer_Gen", "Answer_Gen.cfg", consts={"MaxMsgs": 1, "MaxTries": 3, "NConns": 1, "Handlers": 2})),
    )
    traces = c.drive("answer", plans)
    c.validate("Answer_Trace", "Answer_Trace.cfg", traces, chunk=250)


def node_gen(c, num, depth, race=False, **consts):
    k = dict(consts)
    if race:
        k["Race"] = "TRUE"
    return c.gen("Node_Gen", "Node_Gen.cfg", simulate=(num, depth * 25), keep=num, consts=dict(k, Depth=depth))


def node_mc(c, **consts):
    """The specification of a node, within small bounds."""
    base = {"A": 1, "MaxOut": 1, "MaxIn": 1, "Attempts": 2, "NCalls": 2, "NIn": 0, "NCtx": 0, "NDrop": 0, "NMode": 0,
            "Kinds": '{"send"}', "Modes": '{"up", "stall"}'}
    c.mc("Node_MC", "Node_MC.cfg", workers=4, consts=dict(base, **consts), timeout=850)


def node_validate(c, traces):
    # Long ones next to short ones.
    traces = sorted(traces, key=lambda t: t["id"] % 97)
    c.validate_known("Node_Trace", "Node_Trace.cfg", traces, "outbound-bound", {"Deviation": "TRUE"}, chunk=40, dfs=True,
                     consts={"Budget": 10000 if c.quick else 1000000})


def node_drive(c, plans):
    # Most of the time goes into waiting for nothing to happen any more.
    return c.drive("node", plans, par=320)


def C08(c):
    """One shared outbound connection per address."""
    num = 120 if c.quick else 2500
    plans = []
    parallel(
        c.build,
        lambda: node_mc(c, A=1, NCalls=3, NDrop=1),
        lambda: c.quick or node_mc(c, A=1, NCalls=2, NCtx=1, NDrop=1, NMode=1, Kinds='{"ping", "req"}', Modes='{"up", "stall", "fail", "fail1"}'),
        lambda: plans.extend(node_gen(c, num, 22)),
        lambda: plans.extend(node_gen(c, num, 12, A=1, NCalls=9, Weights="<- WCalls")),
        lambda: plans.extend(node_gen(c, num, 9, race=True, A=2, NCalls=5, AttemptsSet="{1, 2}")),
        lambda: plans.extend(node_gen(c, num, 8, race=True, A=1, NCalls=5, AttemptsSet="{1, 2}", Weights="<- WCalls")),
    )
    node_validate(c, node_drive(c, plans))


def C09(c):
    """Connection pools stay bounded and evict the least recently used."""
    num = 120 if c.quick else 2500
    sizes = {"MaxOuts": "{1, 2, 3}", "MaxIns": "{1, 2, 3}", "Weights": "<- WPools"}
    up = {"Modes0": '{"up", "stall"}'}
    plans = []
    parallel(
        c.build,
        lambda: node_mc(c, NCalls=0, NIn=4, MaxIn=2, NDrop=1),
        lambda: node_mc(c, A=2 if c.quick else 3, NCalls=2 if c.quick else 3, MaxOut=1 if c.quick else 2, Attempts=1),
        lambda: plans.extend(node_gen(c, num, 24, A=4, NCalls=10, **up, **sizes)),
        lambda: plans.extend(node_gen(c, num, 24, A=2, NCalls=5, NIn=8, **sizes)),
        lambda: plans.extend(node_gen(c, 16 if c.quick else 200, 12, A=4, NCalls=8, Equal="FALSE", **up, **sizes)),
        lambda: plans.extend(node_gen(c, num, 9, race=True, A=3, NCalls=5, NIn=2, AttemptsSet="{1, 2}", **sizes)),
        lambda: plans.extend(node_gen(c, num, 9, race=True, A=1, NCalls=2, NIn=6, AttemptsSet="{1}", **sizes)),
    )
    node_validate(c, node_drive(c, plans))


def C10(c):
    """Dialling is bounded and a failed dial leaves no trace."""
    num = 150 if c.quick else 2500
    w = {"Weights": "<- WDials", "Modes": '{"up", "stall", "fail", "fail1", "fail2"}', "MaxOuts": "{3}", "MaxIns": "{3}"}
    plans = []
    parallel(
        c.build,
        lambda: node_mc(c, A=1, NCalls=2, NMode=1, NCtx=1, Attempts=2, Modes='{"up", "fail", "fail1"}'),
        lambda: plans.extend(node_gen(c, num, 20, A=2, AttemptsSet="{1, 2, 3, 4}", **w)),
        lambda: plans.extend(node_gen(c, num, 14, A=1, AttemptsSet="{2, 3}", Modes0='{"fail", "fail1", "fail2", "refuse"}', **w)),
        lambda: plans.extend(node_gen(c, num, 8, race=True, A=2, NCalls=4, AttemptsSet="{1, 2, 3}", **w)),
    )
    node_validate(c, node_drive(c, plans))


def C11(c):
    """One caller giving up never harms another."""
    num = 150 if c.quick else 2500
    w = {"Weights": "<- WCtx"}
    plans = []
    parallel(
        c.build,
        lambda: node_mc(c, A=1, NCalls=2, NCtx=1 if c.quick else 2, Attempts=2, Kinds='{"ping", "req"}', Modes='{"up", "stall"}'),
        lambda: plans.extend(node_gen(c, num, 22, A=1, NCalls=8, Modes0='{"up", "stall"}', **w)),
        lambda: plans.extend(node_gen(c, num, 22, A=2, NCalls=8, **w)),
        lambda: plans.extend(node_gen(c, num, 9, race=True, A=1, NCalls=5, AttemptsSet="{1, 2}", **w)),
        lambda: plans.extend(node_gen(c, num, 9, race=True, A=1, NCalls=4, AttemptsSet="{2, 3}", Modes0='{"stall"}', **w)),
    )
    node_validate(c, node_drive(c, plans))


def C12(c):
    """Connection notifications come once, paired and in order."""
    num = 150 if c.quick else 3000
    plans = []

    def gen(n, depth, race, **k):
        plans.extend(c.gen("Notify_Gen", "Notify_Gen.cfg", simulate=(n, depth + 1), keep=n, consts=dict(k, Depth=depth, Race="TRUE" if race else "FALSE")))

    parallel(
        c.build,
        lambda: c.mc("Notify_MC", "Notify_MC.cfg", workers=4),
        lambda: c.mc("Notify_MC", "Notify_MC.cfg", workers=4, consts={"MaxPush": 2 if c.quick else 4, "MaxSend": 2, "Conns": "{1}" if c.quick else "{1, 2}", "Protos": "{1}"}),
        lambda: gen(num, 24, False, NConns=3, NProtos=2),
        lambda: gen(num, 24, False, NConns=1, NProtos=3, OverWeight=0),
        lambda: gen(num, 9, True, NConns=2, NProtos=2),
        lambda: gen(num, 7, True, NConns=1, NProtos=1),
        lambda: gen(num, 6, True, NConns=3, NProtos=2, Hows='{"nodeclose", "local"}'),
    )
    c.validate("Notify_Trace", "Notify_Trace.cfg", c.drive("notify", plans, par=64), chunk=60, dfs=True)


def C13(c):
    """A handler error closes only its own connection."""
    num = 250 if c.quick else 5000
    plans = []

    def gen(n, depth, race, **k):
        plans.extend(c.gen("Workers_Gen", "Workers_Gen.cfg", simulate=(n, depth + 1), keep=n, consts=dict(k, Depth=depth, Race="TRUE" if race else "FALSE")))

    parallel(
        c.build,
        lambda: c.mc("Workers_MC", "Workers_MC.cfg", workers=4, consts={} if c.quick else {"W": 3, "MaxMsgs": 4}),
        lambda: c.mc("Workers_MC", "Workers_MC.cfg", workers=4, consts={"Holding": "TRUE", "MaxMsgs": 2, "NConns": 1 if c.quick else 2}),
        lambda: c.mc("Workers_MC", "Workers_Live.cfg", workers=3, consts={"MaxMsgs": 2 if c.quick else 3}),
        lambda: gen(num, 40, False),
        lambda: gen(num // 4, 60, False, NConns=30, ErrWeight=8),
        lambda: gen(num, 14, True),
        lambda: gen(num, 14, True, NConns=2, Ws="{2, 4}"),
    )
    c.validate("Workers_Trace", "Workers_Trace.cfg", c.drive("workers", plans, par=64), chunk=100, dfs=True)


def C14(c):
    """Closing a node ends everything and never hangs or crashes."""
    num = 120 if c.quick else 2000
    w = {"Weights": "<- WClose", "NClose": 3}
    plans = []

    def gen(flood=False, **k):
        ps = node_gen(c, num, **k)
        plans.extend(dict(p, flood=flood) for p in ps if any(s["ev"] == "close" for s in p["steps"]))

    parallel(
        c.build,
        lambda: node_mc(c, A=1, NCalls=2, NIn=1, Attempts=1 if c.quick else 2, NCtx=0 if c.quick else 1),
        lambda: gen(depth=16, A=2, NCalls=5, NIn=4, **w),
        lambda: gen(depth=12, A=2, NCalls=5, ListensSet="{FALSE}", **w),
        lambda: gen(depth=8, race=True, A=2, NCalls=4, NIn=3, AttemptsSet="{1, 2}", **w),
        lambda: gen(flood=True, depth=8, race=True, A=1, NCalls=3, NIn=3, AttemptsSet="{1}", **w),
        lambda: gen(depth=7, race=True, A=1, NCalls=4, ListensSet="{FALSE}", AttemptsSet="{1, 2}", **w),
        lambda: c.mc("Rpc", "Rpc_MC.cfg", workers=4, consts={"Conns": "{1}"}),
    )
    node_validate(c, node_drive(c, plans))
    # Requests being issued and answered all the while.
    race = [{"conns": 1, "steps": [], "race": g, "per": 12, "kind": "nodeclose"} for g in (1, 3, 8) for _ in range(15 if c.quick else 300)]
    c.validate("Rpc_Trace", "Rpc_Trace.cfg", c.drive("rpc", race), chunk=100)


def C18(c):
    """Message types map one-to-one to wire opcodes."""
    import random
    rng = random.Random(c.seed)
    num = 300 if c.quick else 8000
    plans, race = [], []

    def gen(to, n, threads, per, **k):
        to.extend(c.gen("Codec_Gen", "Codec_Gen.cfg", simulate=(n, threads * (per + 1) + 2), keep=n,
                        consts=dict(k, Threads=threads, PerThread=per)))

    parallel(
        c.build,
        lambda: c.mc("Codec_MC", "Codec_MC.cfg", workers=4, consts={"MaxCalls": 1} if c.quick else {}),
        lambda: gen(plans, num, 1, 40),
        lambda: gen(plans, num, 1, 40, Same="TRUE"),
        lambda: gen(race, num, 4, 6),
        lambda: gen(race, num, 3, 8, Same="TRUE", NTypes=1),
        lambda: gen(race, num, 6, 4, NTypes=4),
    )
    # More types than one byte can tell apart, registered by one thread or by several.
    for k in range(1 if c.quick else 10):
        ts = [{"k": x, "n": i} for i in range(1, 301) for x in "spl"]
        rng.shuffle(ts)
        ops = [{"ev": "register", "x": 1, "t": t, "dec": t} for t in ts[:420]]
        rng.shuffle(ts)
        use = [{"ev": rng.choice(["encode", "ask"]), "x": 1, "y": 2, "t": t, "v": [rng.randrange(255), 1]} for t in ts[:150]]
        use += [{"ev": "decode", "x": x, "b": [rng.randrange(4), rng.randrange(256), 9]} for x in (1, 2) for _ in range(60)]
        plans.append({"threads": [ops + use], "same": k % 2 == 0})
        few, enc = ops[:60], [o for o in use if o["ev"] == "encode"]
        race.append({"threads": [few[0:20] + enc[0:10], few[20:40] + enc[10:20], few[40:60] + use[-60:]], "same": False})
    c.validate("Codec_Trace", "Codec_Trace.cfg", c.drive("codec", plans), chunk=120)
    c.validate("Codec_Trace", "Codec_Trace.cfg", c.drive("codec", race), chunk=120, dfs=True)


def C26(c):
    """Registration takes effect before listening and is frozen after."""
    num = 150 if c.quick else 3000
    plans = []

    def gen(n, threads, per, **k):
        ps = c.gen("Registration_Gen", "Registration_Gen.cfg", simulate=(n, threads * (per + 1) + 5), keep=n,
                   consts=dict(k, Threads=threads, PerThread=per))
        plans.extend(ps)

    parallel(
        c.build,
        lambda: c.mc("Registration_MC", "Registration_MC.cfg", workers=4, consts={} if not c.quick else {"PerThread": 1}),
        lambda: gen(num, 1, 4),
        lambda: gen(num, 1, 3, Fails="TRUE", Closes="TRUE"),
        lambda: gen(num, 4, 2, Race="TRUE"),
        lambda: gen(num, 8, 1),
        lambda: gen(num, 2, 4, Race="TRUE", Fails="TRUE", Closes="TRUE"),
    )
    plans += [dict(p, inuse=True) for p in plans[:20]]
    c.validate("Registration_Trace", "Registration_Trace.cfg", c.drive("registration", plans, par=32), chunk=120, dfs=True)


def C15(c):
    """The message size limit is exact."""
    num = 400 if c.quick else 8000
    plans, watched = [], []
    parallel(
        c.build,
        lambda: c.mc("Limit_MC", "Limit_MC.cfg", workers=4, consts={} if not c.quick else {"MaxFrames": 1}),
        lambda: plans.extend(c.gen("Limit_Gen", "Limit_Gen.cfg", simulate=(num, 13), keep=num, consts={"Depth": 12})),
    )
    # Sizes next to the limit one by one, for limits that make a difference.
    for lim in [142, 143, 178, 1000, 4096, 65536] + ([] if c.quick else [1 << 20, 4 << 20, 16 << 20]):
        for role in ("dial", "accept", "node"):
            for d in (-1, 0, 1):
                plans.append({"lim": lim, "steps": [{"ev": "connect", "c": 1, "role": role}, {"ev": "connect", "c": 2, "role": "accept"},
                                                    {"ev": "frame", "c": 1, "rel": d, "whole": True}, {"ev": "frame", "c": 1, "rel": 0, "whole": True}]})
    for n in (5 << 20, 17 << 20) + (() if c.quick else (200 << 20,)):
        plans.append({"lim": 0, "steps": [{"ev": "connect", "c": 1, "role": "accept"}, {"ev": "connect", "c": 2, "role": "node"}]
                      + [{"ev": "frame", "c": k, "abs": n + k, "whole": True} for k in (1, 2, 1)]})
    for lim in (142, 4096, 100000):
        for role in ("dial", "accept"):
            for size in ("04000000", "7fffffff", "80000000", "fffffffb", "ffffffff"):
                watched.append({"lim": lim, "watch": True, "steps": [{"ev": "connect", "c": 1, "role": role}, {"ev": "frame", "c": 1, "hex": size, "whole": False}]})
    traces = c.drive("limit", plans, par=16) + c.drive("limit", watched, par=1)
    c.validate("Limit_Trace", "Limit_Trace.cfg", traces, chunk=150)


def C16(c):
    """Idle connections time out, active ones do not."""
    num = 120 if c.quick else 1500
    plans = []

    def gen(n, depth, **k):
        plans.extend(c.gen("Idle_Gen", "Idle_Gen.cfg", simulate=(n, depth + 1), keep=n, consts=dict(k, Depth=depth)))

    parallel(
        c.build,
        lambda: c.mc("Idle_MC", "Idle_MC.cfg", workers=2),
        lambda: gen(num, 10),
        lambda: gen(num // 2, 16, Ts="{800, 1200}"),
    )
    for role in ("dial", "accept"):
        for T in (500, 1000, 0):
            plans += [{"T": T, "stage": s, "role": role, "steps": []} for s in ("none", "kex", "kexpart", "idpart", "up")]
        # One direction only, for long.
        for x in ("recv", "send"):
            other = "send" if x == "recv" else "recv"
            plans += [{"T": 800, "stage": "up", "role": role, "steps": [x, "none"] * 6 + [other] + [x] * 3}] * 2
    for i in range(3):
        # What is not accepted may have been held up: it is only believed if it happens every time.
        traces = [t for t in c.drive("idle", plans, par=(64, 16, 4)[i]) if t["steps"]]
        n = len(c.violations)
        c.validate("Idle_Trace", "Idle_Trace.cfg", traces or [{"steps": []}], chunk=200)
        bad, c.violations = c.violations[n:], c.violations[:n]
        if not bad:
            return
        plans = [v["trace"]["plan"] for v in bad][:40]
    c.violations += bad


def C25(c):
    """Identities and peer lists survive the wire unchanged."""
    import random
    rng = random.Random(c.seed)

    def host():
        four = rng.choice([[127, 0, 0, 1], [127, 9, 9, 9], [0, 0, 0, 0], [255] * 4, [10, 0, 0, rng.randrange(256)],
                           [rng.randrange(1, 224) for _ in range(4)], [0, 0, 0, 1], [192, 168, 255, 0], [128, 0, 0, 1], [224, 0, 0, 251]])
        six = rng.choice([[0] * 15 + [1], [0] * 16, [0] * 15 + [2], [0xfe, 0x80] + [0] * 13 + [1], [0xff] * 16, [0x20, 1, 0xd, 0xb8] + [0] * 11 + [5],
                          [rng.randrange(256) for _ in range(16)], [0] * 12 + [1, 2, 3, 4], [0, 0x64, 0xff, 0x9b] + [0] * 8 + [8, 8, 8, 8], [1] + [0] * 15])
        return rng.choice([four, [0] * 10 + [255, 255] + four, six])

    def ident():
        key = rng.choice([[0] * 32, [255] * 32, [rng.randrange(256) for _ in range(32)], [0] * 31 + [1], [rng.randrange(256) for _ in range(32)]])
        return {"key": key, "host": host(), "port": rng.choice([0, 1, 80, 255, 256, 257, 3000, 32767, 32768, 65535, rng.randrange(65536)])}

    plans = []
    for i in range(40 if c.quick else 1500):
        steps = [{"ev": "id", "x": ident(), "more": rng.choice([[], [], [1], [0] * 40])} for _ in range(10)]
        steps += [{"ev": "list", "xs": [ident() for _ in range(rng.choice([0, 1, 2, 3, 16]))]} for _ in range(3)]
        for _ in range(6):
            n = rng.choice([0, 1, 2, 31, 32, 33, 48, 49, 50, 51, 52, 100, 101, 150])
            b = [rng.randrange(256) for _ in range(n)]
            if b and rng.random() < .7:
                b[0] = rng.choice([0, 1, 2, 3, 255])
            steps.append({"ev": "bytes", "b": b})
        plans.append({"steps": steps})
    for n in (100, 254, 255, 255):
        plans.append({"steps": [{"ev": "list", "xs": [ident() for _ in range(n)]}]})
    for i in range(120 if c.quick else 2000):
        xs = [ident() for _ in range(2 + rng.randrange(13))]
        for k, x in enumerate(xs):
            x["key"] = [rng.randrange(1, 256)] + [rng.randrange(256) for _ in range(30)] + [k]
        plans.append({"steps": [{"ev": "meet", "xs": xs}]})
    parallel(c.build, lambda: c.mc("IdWire_MC", "IdWire_MC.cfg", workers=4, consts={"MaxList": 1} if c.quick else {}))
    c.validate("IdWire_Trace", "IdWire_Trace.cfg", c.drive("idwire", plans, par=16), chunk=30)


KINDS = ["random", "near", "full", "deep", "bytes", "clusters", "mixed"]


def tables(c, n, threads=1, per=40, fill=30, mode="table", kinds=KINDS, keys=30, **more):
    ps = c.gen("Table_Gen", "Table_Gen.cfg", simulate=(n, threads * (per + 1) + fill + 2), keep=n,
               consts={"Threads": threads, "PerThread": per, "Fill": fill, "Mode": '"%s"' % mode})
    return [dict(p, kind=kinds[i % len(kinds)], keys=keys, fill=fill, **more) for i, p in enumerate(ps)]


def C19(c):
    """The routing table keeps its structure."""
    num = 350 if c.quick else 7000
    plans, race = [], []
    parallel(
        c.build,
        lambda: c.mc("Table_MC", "Table_MC.cfg", workers=4, consts={} if c.quick else {"W": 4, "Self": 10}),
        lambda: plans.extend(tables(c, num)),
        lambda: plans.extend(tables(c, num // 2, fill=60, per=20)),
        lambda: plans.extend(tables(c, 14, zeroself=True)),
        lambda: race.extend(tables(c, num, 4, 6, kinds=["full", "deep", "bytes", "near"])),
        lambda: race.extend(tables(c, num, 8, 3, kinds=["full", "full", "bytes"])),
        lambda: race.extend(tables(c, num // 2, 3, 10, fill=0, keys=4)),
    )
    c.validate("Table_Trace", "Table_Trace.cfg", c.drive("table", plans), chunk=120)
    c.validate("Table_Trace", "Table_Trace.cfg", c.drive("table", race), chunk=120, dfs=True)


def C20(c):
    """Closest-peer queries are exact."""
    num = 350 if c.quick else 7000
    plans, race = [], []
    parallel(
        c.build,
        lambda: c.mc("Table_MC", "Table_MC.cfg", workers=4, consts={} if c.quick else {"W": 4, "Self": 10}),
        lambda: plans.extend(tables(c, num, mode="closest", listed=True)),
        lambda: plans.extend(tables(c, num // 2, mode="closest", fill=10, per=30, listed=True)),
        lambda: plans.extend(tables(c, num // 2, mode="closest", listed=True, net=True)),
        lambda: race.extend(tables(c, num // 2, 4, 6, fill=8, keys=16, mode="race", kinds=["near", "random", "mixed"])),
    )
    c.validate("Table_Trace", "Table_Trace.cfg", c.drive("table", plans), chunk=60)
    c.validate("Table_Trace", "Table_Trace.cfg", c.drive("table", race), chunk=120, dfs=True)


def settle(c, driver, module, plans, pars=(64, 16, 4), **k):
    """For runs in which time matters: what is not accepted may have been held up, so it is only believed if it happens every time."""
    for i, par in enumerate(pars):
        traces = [t for t in c.drive(driver, plans, par=par) if t["steps"]]
        n = len(c.violations)
        c.validate(module, module + ".cfg", traces or [{"steps": []}], **k)
        bad, c.violations = c.violations[n:], c.violations[:n]
        if not bad:
            return
        if any(v["trace"]["steps"][-1]["ev"] in ("hang", "crash") for v in bad):
            break
        plans = [v["trace"]["plan"] for v in bad][:16]
    c.violations += bad


def C21(c):
    """Live old peers are kept, dead ones replaced, and events tell so."""
    num = 150 if c.quick else 2000
    plans = []

    def gen(n, depth, **k):
        ps = c.gen("Routing_Gen", "Routing_Gen.cfg", simulate=(n, 60 + depth), keep=n, consts=dict(k, Depth=depth))
        plans.extend(ps)

    parallel(
        c.build,
        lambda: c.mc("Routing_MC", "Routing_MC.cfg", workers=4, consts={"MaxRuns": 3} if c.quick else {}, timeout=800),
        lambda: gen(num, 8),
        lambda: gen(num // 2, 6, DeadOf10=8),
        lambda: gen(num // 2, 10, DeadOf10=0),
        lambda: gen(num, 3, Together=4),
        lambda: gen(num // 2, 3, Together=6, DeadOf10=7),
    )
    settle(c, "routing", "Routing_Trace", plans, chunk=40, dfs=True)


def C22(c):
    """Lookups end with exactly the closest responsive peers found."""
    num = 150 if c.quick else 2500
    plans = []

    def gen(n, N, F, **k):
        plans.extend(c.gen("Lookup_Gen", "Lookup_Gen.cfg", simulate=(n, N + F + 4), keep=n, consts=dict(k, N=N, Finds=F)))

    parallel(
        c.build,
        lambda: c.mc("Lookup_MC", "Lookup_MC.cfg", workers=4, consts={"Targets": "{6}"} if c.quick else {}),
        lambda: gen(num, 12, 2),
        lambda: gen(num, 24, 2, DeadOf10=1),
        lambda: gen(num // 2, 8, 3, DeadOf10=7),
        lambda: gen(num // 2, 40, 1, DeadOf10=0),
        lambda: gen(num // 2, 20, 1, Fakes=60),
        # All are in the table, so that others' lookups make no difference.
        lambda: gen(num // 2, 12, 4, Fakes=0, DeadOf10=1, AtOnce="TRUE"),
    )
    for p in plans:
        if p["atonce"]:
            p["table"] = list(range(1, 1 + len(p["peers"])))
    settle(c, "lookup", "Lookup_Trace", plans, chunk=50)


def gossip_plans(c, num):
    plans, nets = [], []

    def gen(n, depth, **k):
        plans.extend(c.gen("Gossip_Gen", "Gossip_Gen.cfg", simulate=(n, depth + 8), keep=n, consts=dict(k, Depth=depth)))

    def net():
        import random
        rng = random.Random(c.seed)
        for i in range(num // 3):
            n = rng.choice([2, 3, 5, 8, 12])
            shape = rng.choice(["line", "ring", "star", "tree", "random", "full"])
            es = {"line": [[k, k + 1] for k in range(1, n)], "ring": [[k, k % n + 1] for k in range(1, n + 1)], "star": [[1, k] for k in range(2, n + 1)],
                  "tree": [[k, k // 2] for k in range(2, n + 1)], "full": [[j, k] for k in range(1, n + 1) for j in range(1, k)],
                  "random": [[k, rng.randrange(1, k)] for k in range(2, n + 1)] + [[rng.randrange(1, n + 1), rng.randrange(1, n + 1)] for _ in range(n)]}[shape]
            nets.append({"n": n, "edges": es, "quits": rng.sample(range(1, n + 1), rng.choice([0, 0, 0, 1, 2]) if n > 3 else 0), "atonce": rng.random() < .6,
                         "pushes": [{"by": rng.randrange(1, n + 1), "size": rng.choice([1, 10, 1000, 66000])} for _ in range(rng.choice([1, 3, 10]))]})

    parallel(
        c.build,
        lambda: c.mc("Gossip_MC", "Gossip_MC.cfg", workers=4, consts={"Msgs": "{1}"} if c.quick else {}),
        lambda: c.mc("GossipNet", "GossipNet.cfg", workers=3, consts={} if c.quick else {"Nodes": "{1, 2, 3, 4}", "Quits": "{3, 4}"}),
        lambda: gen(num, 12),
        lambda: gen(num, 14, Flips=10, Msgs=3),
        lambda: gen(num // 3, 8, Flips=10, Msgs=2, Burst=5, Peers=3),
        lambda: gen(num, 5, Burst=6),
        lambda: gen(num // 2, 4, Burst=10, Msgs=2, Peers=6, Mute=1),
        lambda: gen(num // 2, 20, Msgs=8, Peers=2, Mute=8),
        net,
    )
    return plans, nets


def by_message(traces, drop=()):
    """What happens to one message has nothing to do with the others."""
    out = []
    for t in traces:
        ms = {s["m"] for s in t["steps"] if "m" in s}
        run = {s["i"]: s["m"] for s in t["steps"] if "m" in s and "i" in s}
        for m in sorted(ms):
            steps = [s for s in t["steps"] if s["ev"] not in drop and (run.get(s["i"]) if "i" in s else s.get("m", m)) == m]
            out.append(dict(t, steps=steps))
        if not ms:
            out.append(t)
    return out


def gossip_self(c, **k):
    if not c.quick:
        for p, n in (("{1, 2, 3}", 6), ("{1, 2}", 8)):
            c.selfcheck("Gossip_Self", "Gossip_Trace", "Gossip_Trace.cfg", 150, 3000, consts=dict(k, P=p, MaxRuns=n), tconsts=k)


def C23(c):
    """A node takes up a gossip message at most once."""
    gossip_self(c, Forwards="FALSE")
    plans, nets = gossip_plans(c, 120 if c.quick else 2500)
    # What is passed on is not at issue here.
    for p in plans + nets:
        p["takes"] = True
    c.validate("Gossip_Trace", "Gossip_Trace.cfg", by_message(c.drive("gossip", plans, par=16), drop=("got",)), consts={"Forwards": "FALSE"}, chunk=400)
    c.validate("GossipNet_Trace", "GossipNet_Trace.cfg", c.drive("gossipnet", nets, par=4), consts={"All": "FALSE"}, chunk=40)


def C24(c):
    """Gossip reaches every peer and is not echoed."""
    gossip_self(c, Takes="FALSE")
    plans, nets = gossip_plans(c, 120 if c.quick else 2500)
    c.validate("Gossip_Trace", "Gossip_Trace.cfg", by_message(c.drive("gossip", plans, par=16)), consts={"Takes": "FALSE"}, chunk=400)
    c.validate("GossipNet_Trace", "GossipNet_Trace.cfg", c.drive("gossipnet", nets, par=4), consts={"Once": "FALSE"}, chunk=40)


def C17(c):
    """Hostile input cannot crash or wedge a node."""
    plans = []

    def each():
        plans.extend(c.gen("Hostile_Gen", "Hostile_Each.cfg", keep=300 if c.quick else None))

    def some(n, depth, **k):
        plans.extend(c.gen("Hostile_Gen", "Hostile_Gen.cfg", simulate=(n, depth + 2), keep=n, consts=dict(k, Depth=depth)))
    parallel(
        c.build,
        lambda: c.mc("Hostile_MC", "Hostile_MC.cfg", workers=4, consts={} if c.quick else {"Hostiles": '{"h1", "h2", "h3"}', "Workers": "{1, 2}"}),
        each,
        lambda: some(80 if c.quick else 800, 25),
        lambda: some(30 if c.quick else 300, 60, N=6),
        lambda: some(30 if c.quick else 300, 15, N=1, Workers="{1}"),
    )
    settle(c, "hostile", "Hostile_Trace", plans, pars=(24, 8, 3), chunk=400)
