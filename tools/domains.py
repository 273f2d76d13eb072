"""What each property's check runs: the exhaustive models, the scripts, the
trace specification."""
from vlib import *


class Domain:
    trace = None
    spec = ""
    note = ""
    subst = {}
    crash_matters = True

    def mc(self, prop, tier):
        return []

    def scripts(self, work, prop, tier):
        raise NotImplementedError

    def cfg(self, prop, script, events):
        return {}

    def events(self, prop, script, events):
        return events

    def soft(self, prop, event):
        """A refused event whose refusal rests on elapsed time is only believed
        when it shows again in a run of its own."""
        return event.get("ev") in ("Hang", "RetErr", "End", "Late", "NoHandle")

    def consts(self, prop):
        return {}

    env = {}


class Conn(Domain):
    spec = "Conn (MCConn, GenConn, TraceConn)"
    note = ("exhaustive on the design model up to 3 callers and 4 faults; the real handle is bound to it on the "
            "executions TLC draws (1000 quick, 6000 thorough), over real TCP with injected faults")
    trace = "TraceConn"
    subst = {"MayStep": "CMay", "DoStep": "CDo", "Start": "CStart"}

    def mc(self, prop, tier):
        base = {"Prop": "ALL", "NCallers": 2, "NOps": 2, "MaxFaults": 2, "MaxConn": 4, "Sasl": True,
                "CloseOnFail": True}
        l = [dict(base)]
        if tier == "thorough":
            l.append(dict(base, NCallers=3, NOps=2, MaxFaults=3, MaxConn=6, Sasl=False))
            l.append(dict(base, NCallers=2, NOps=2, MaxFaults=3, MaxConn=5))
            l.append(dict(base, NCallers=3, NOps=1, MaxFaults=4, MaxConn=6))
        return [dict(module="MCConn", consts=c, invs=["Refused", "HealsB04", "UnauthenticatedB02"]) for c in l]

    def scripts(self, work, prop, tier):
        n = 1000 if tier == "quick" else 6000
        l, st = generate(work, "GenConn", n)
        out = []
        for i, s in enumerate(l):
            if prop == "B02":
                s["sasl"] = True
            out.append({"id": "g%d" % i, "driver": "conn", "rules": s["rules"],
                        "p": {"sasl": s["sasl"], "timeout": 400, "callers": s["callers"], "mech": s["mech"],
                              "user": s["user"], "pass": s["pass"]}})
        return out, st

    def cfg(self, prop, script, events):
        return {"sasl": script["p"]["sasl"]}


class Consumer(Domain):
    spec = "Consumer (MCConsumer, GenConsumer, TraceConsumer)"
    note = ("exhaustive on the design model (one partition, small log, all placements of faults, commits and stop); "
            "the real consumers are bound to it on the executions TLC draws (500 quick, 4000 thorough), over real TCP "
            "against an in-process cluster with injected faults")
    trace = "TraceConsumer"
    subst = {"MayStep": "KMay", "DoStep": "KDo", "Start": "KStart"}

    def mc(self, prop, tier):
        invs = ["Refused", "CommittedIsHanded", "NothingLeft"]
        base = {"Prop": "ALL", "From0": "earliest", "Group": True, "Had": "none", "Cap": 1, "MaxFaults": 1,
                "MaxTrims": 1, "MaxCommits": 2, "Bug": "none"}
        l = [dict(base), dict(base, From0="latest", Had="9")]
        if tier == "thorough":
            l = [dict(base, From0=f, Had=h) for f in ("earliest", "latest", "1", "9") for h in ("none", "1", "9")]
            l += [dict(base, Group=False, From0=f, MaxFaults=2) for f in ("earliest", "latest", "1", "9")]
            l += [dict(base, Cap=0, MaxFaults=2), dict(base, Cap=2), dict(base, MaxFaults=2, MaxTrims=2),
                  dict(base, From0="latest", MaxFaults=3, MaxTrims=2, MaxCommits=3)]
        r = [dict(module="MCConsumer", consts=c, invs=invs) for c in l]
        r.append(dict(module="MCConsumer", spec="Live", invs=[], props=["AllDelivered"], deadlock=False,
                      consts=dict(base, MaxTrims=0, MaxCommits=1, MaxFaults=1 if tier == "quick" else 2)))
        if tier == "thorough":
            for b in ("forgetcommit", "wrongend", "oorminus", "skipcut", "early", "nofinal"):
                r.append(dict(module="MCConsumer", consts=dict(base, Bug=b), invs=invs, expect=True))
        return r

    def scripts(self, work, prop, tier):
        n = 500 if tier == "quick" else 4000
        l, st = generate(work, "GenConsumer", n, consts={"Focus": prop})
        return [dict(id="g%d" % i, driver="consumer", rules=s["rules"], p=s["p"]) for i, s in enumerate(l)], st

    def cfg(self, prop, script, events):
        p = script["p"]
        return {"start": p["start"], "group": p["group"], "auto": p["auto"], "cap": p["chan"],
                "parts": ["p%d" % i for i in (p.get("assign") or range(p["parts"]))]}

    def soft(self, prop, event):
        return event.get("ev") in ("Hang", "End", "Settled", "NoHandle", "Final")


class Producer(Domain):
    spec = "Producer (MCProducer, MCRouting, GenProducer, TraceProducer)"
    note = ("exhaustive on the design models (callers, timer, flush and close around one buffer; leader moves and "
            "refreshes); the real producers are bound to them on the executions TLC draws (600 quick, 4000 thorough), "
            "over real TCP, every produce request decoded independently")
    trace = "TraceProducer"
    subst = {"MayStep": "PMay", "DoStep": "PDo", "Start": "PStart"}

    def mc(self, prop, tier):
        quick = tier == "quick"
        r = []
        if prop in ("P01", "P03", "P04"):
            invs = ["Refused", "Kept", "Mutex"]
            base = {"Prop": "ALL", "Callers": {"a", "b"}, "NAdds": 1, "Max": 2, "WithTimer": False, "MaxFlush": 1,
                    "MaxFaults": 1, "MaxClose": 1, "Bug": "none"}
            l = [dict(base), dict(base, WithTimer=True, MaxFlush=0)]
            if not quick:
                l += [dict(base, WithTimer=True, MaxFaults=2, MaxClose=2), dict(base, MaxFlush=2, MaxFaults=2),
                      dict(base, Callers={"a", "b", "c"}, MaxFlush=0), dict(base, Max=1),
                      dict(base, Callers={"a"}, NAdds=3, MaxFaults=2), dict(base, NAdds=2, MaxFlush=0, MaxClose=0)]
            r += [dict(module="MCProducer", consts=c, invs=invs) for c in l]
            r.append(dict(module="MCProducer", spec="Fair", invs=[], props=["AllSent"], deadlock=False,
                          consts=dict(base, WithTimer=True, MaxFlush=0, MaxClose=1)))
            if not quick:
                for b, c in (("nolock", {}), ("swallow", {}), ("forget", {}), ("acceptlate", {}), ("requeue", {}),
                             ("twice", {})):
                    r.append(dict(module="MCProducer", consts=dict(base, Bug=b, **c), invs=invs, expect=True))
        if prop in ("P02", "P01"):
            invs = ["Refused", "Follows"]
            base = {"Prop": "ALL", "NP": 2, "NN": 2, "Keys": {0, 1, 3}, "MaxAdds": 3, "MaxMoves": 2, "MaxRefresh": 2,
                    "Bug": "none"}
            l = [dict(base)]
            if not quick:
                l += [dict(base, NP=3, NN=3, MaxMoves=3, Keys={0, 4}), dict(base, MaxAdds=4, MaxRefresh=3)]
            r += [dict(module="MCRouting", consts=c, invs=invs) for c in l]
            if not quick:
                for b in ("stale", "rehash", "swallow"):
                    r.append(dict(module="MCRouting", consts=dict(base, Bug=b), invs=invs, expect=True))
        return r

    def scripts(self, work, prop, tier):
        n = 600 if tier == "quick" else 4000
        l, st = generate(work, "GenProducer", n, consts={"Focus": prop})
        return [dict(id="g%d" % i, driver="producer", rules=s["rules"], p=s["p"]) for i, s in enumerate(l)], st

    def cfg(self, prop, script, events):
        p = script["p"]
        return {"max": p["max"], "np": p["parts"], "only": p["only"] if p["mode"] == "simple" else -1,
                "timer": p["interval"] < 1000, "acks": p["acks"], "tmo": p["reqtmo"],
                "attr": {"none": 0, "gzip": 1, "snappy": 2, "lz4": 3}[p["codec"]]}

    def soft(self, prop, event):
        return event.get("ev") in ("Hang", "End", "NoHandle")


class Group(Domain):
    spec = "Group (MCGroup, GenGroup, TraceGroup)"
    note = ("exhaustive on the design model (two members, a coordinator, one partition, small log, all placements of "
            "rebalances, crashes, errors and close); the real group consumers are bound to it on the executions TLC "
            "draws, over real TCP against an in-process coordinator with injected faults")
    trace = "TraceGroup"
    subst = {"MayStep": "GMay", "DoStep": "GDo", "Start": "GStart"}
    jobs = 32

    def mc(self, prop, tier):
        base = {"Prop": "ALL", "NM": 2, "NP": 1, "HiMax": 2, "Begin0": True, "MaxExpire": 0, "MaxCrash": 0, "MaxClose": 0,
                "MaxErr": 0, "MaxReb": 0, "Stays": True, "Bug": "none"}
        invs = ["Refused", "CommittedIsDelivered", "OneOwner"]
        l = {"G01": [dict(NP=2, HiMax=1, MaxClose=1)],
             "G02": [dict(MaxErr=1), dict(NM=1, MaxExpire=1, MaxErr=1, MaxReb=1)],
             "G03": [dict(MaxReb=1), dict(MaxExpire=1, HiMax=1)],
             "G04": [dict(MaxCrash=1), dict(MaxExpire=1, HiMax=1), dict(MaxReb=1, Begin0=False)],
             "G05": [dict(MaxClose=1), dict(NM=1, MaxClose=1, MaxErr=1, MaxReb=1, Stays=False)]}[prop]
        live = [dict(HiMax=1, MaxExpire=1)] if prop in ("G02", "G04") else []
        if tier == "thorough":
            l = [dict(MaxCrash=1, MaxClose=1, Stays=False), dict(MaxExpire=1, MaxErr=1, HiMax=1), dict(NM=3, HiMax=1),
                 dict(NP=2, MaxReb=1), dict(MaxExpire=1, MaxClose=1, HiMax=1), dict(MaxExpire=1),
                 dict(NM=1, MaxExpire=2, MaxErr=2, MaxReb=2, Stays=False, MaxClose=1)] + l
            live = [dict(HiMax=1, MaxExpire=1), dict(MaxCrash=1), dict(MaxReb=1), dict(MaxClose=1), dict(MaxErr=1, HiMax=1)]
        r = [dict(module="MCGroup", consts=dict(base, **c), invs=invs, deadlock=False) for c in l]
        r += [dict(module="MCGroup", consts=dict(base, **c), invs=[], props=["AllDelivered"], spec="Live", deadlock=False)
              for c in live]
        if tier == "thorough":
            for b, c in (("dropid", {}), ("earlyfetch", {}), ("unfair", dict(NP=2, HiMax=1)), ("nostop", dict(MaxExpire=1)),
                         ("nogen", {}), ("latest", dict(Begin0=False, MaxExpire=1)), ("noleave", dict(MaxClose=1)),
                         ("nofinal", dict(MaxClose=1))):
                r.append(dict(module="MCGroup", consts=dict(base, Bug=b, **c), invs=invs, deadlock=False, expect=True))
            for b, c in (("keepid", dict(NM=1, HiMax=1, MaxExpire=1)), ("norejoin", dict(HiMax=1))):
                r.append(dict(module="MCGroup", consts=dict(base, Bug=b, **c), invs=[], props=["AllDelivered"], spec="Live",
                              deadlock=False, expect=True))
        return r

    def scripts(self, work, prop, tier):
        n = 600 if tier == "quick" else 4000
        l, st = generate(work, "GenGroup", n, consts={"Focus": prop})
        return [dict(id="g%d" % i, driver="group", rules=s["rules"], p=s["p"]) for i, s in enumerate(l)], st

    def cfg(self, prop, script, events):
        p = script["p"]
        return {"begin": p["begin"], "auto": p["auto"], "cap": p["chan"], "members": p["members"]}

    def soft(self, prop, event):
        return event.get("ev") in ("Hang", "End", "Gone", "Held")


class Admin(Domain):
    spec = "Admin (MCAdmin, GenAdmin, TraceAdmin)"
    note = ("the real calls are bound to the specification on the executions TLC draws (arguments, layouts, version "
            "ranges, answers, faults), over real TCP, every request decoded and every answer encoded independently")
    trace = "TraceAdmin"
    subst = {"MayStep": "AMay", "DoStep": "ADo", "Start": "AStart"}

    def mc(self, prop, tier):
        invs = ["Refused", "Fresh", "Complete"]
        base = {"Prop": "ALL", "NN": 2, "NP": 2, "MaxCalls": 2, "MaxShifts": 1, "Bug": "none"}
        if tier == "quick":
            return [dict(module="MCAdmin", consts=base, invs=invs)]
        l = [dict(base, MaxShifts=2), dict(base, NN=3, MaxCalls=1, MaxShifts=2), dict(base, NN=3, NP=3)]
        r = [dict(module="MCAdmin", consts=c, invs=invs) for c in l]
        for b in ("skip", "anynode", "lowest", "oldver", "time", "lastonly", "swallow", "ignorelost"):
            r.append(dict(module="MCAdmin", consts=dict(base, MaxShifts=2, Bug=b), invs=["Refused"], expect=True))
        return r

    def scripts(self, work, prop, tier):
        n = 3000 if tier == "quick" else 40000
        l, st = generate(work, "GenAdmin", n, consts={"Focus": prop})
        return [dict(id="g%d" % i, driver="admin", rules=s["rules"], p=s["p"]) for i, s in enumerate(l)], st

    def soft(self, prop, event):
        return event.get("ev") in ("Hang", "NoHandle")


class Lookup(Domain):
    spec = "Lookup (MCLookup, GenLookup, TraceLookup)"
    note = ("exhaustive on the design model (bootstrap, lookups, refresh over every combination of broker states); the real "
            "client is bound to it on the executions TLC draws, over real TCP")
    trace = "TraceLookup"
    subst = {"MayStep": "LMay", "DoStep": "LDo", "Start": "LStart"}
    jobs = 32

    def mc(self, prop, tier):
        invs = ["Refused", "Knows", "Excused"]
        base = {"Prop": "ALL", "Nodes": {1, 2}, "Modes": {"up", "down", "silent", "drop", "empty", "nocoord"}, "MaxShifts": 3, "MaxCalls": 3,
                "Bug": "none"}
        if tier == "quick":
            return [dict(module="MCLookup", consts=base, invs=invs)]
        l = [dict(base, Nodes={1, 2, 3}, Modes={"up", "down", "drop"}), dict(base, MaxShifts=4, MaxCalls=4, Modes={"up", "down", "nocoord"}),
             dict(base, MaxCalls=4)]
        r = [dict(module="MCLookup", consts=c, invs=invs) for c in l]
        for b in ("onlyfirst", "reverse", "emptyok", "asknext", "swallow", "firsterr", "oneonly", "norefresh", "keepdead", "anyctl"):
            r.append(dict(module="MCLookup", consts=dict(base, Bug=b), invs=["Refused"], expect=True))
        return r

    def scripts(self, work, prop, tier):
        n = 800 if tier == "quick" else 12000
        l, st = generate(work, "GenLookup", n, consts={"Focus": prop})
        return [dict(id="g%d" % i, driver="lookup", rules=s["rules"], p=s["p"]) for i, s in enumerate(l)], st

    def cfg(self, prop, script, events):
        return {"nodes": script["p"]["nodes"], "listed": script["p"]["listed"], "ctl": script["p"]["ctl"]}

    def soft(self, prop, event):
        return event.get("ev") in ("Hang", "Ret", "BootRet")


class Tool(Domain):
    spec = "Tool (MCTool, GenTool, TraceTool)"
    note = ("exhaustive on the design model of the offset commands; the built healer command is bound to it on the runs TLC draws "
            "(topics, leaders, groups, versions, faults), over real TCP, its output read back")
    trace = "TraceTool"
    subst = {"MayStep": "OMay", "DoStep": "ODo", "Start": "OStart"}
    cli = True

    def mc(self, prop, tier):
        invs = ["Refused", "ResetExact"]
        base = {"Prop": "ALL", "Nodes": {1, 2}, "Parts": {0, 1, 2}, "MaxRuns": 2, "MaxShifts": 1, "MaxFaults": 1, "Bug": "none"}
        if tier == "quick":
            return [dict(module="MCTool", consts=base, invs=invs)]
        l = [dict(base, MaxRuns=3, MaxShifts=2, MaxFaults=2), dict(base, Nodes={1, 2, 3}, MaxShifts=2)]
        r = [dict(module="MCTool", consts=c, invs=invs) for c in l]
        for b in ("stale", "anybroker", "earliest", "lastonly", "ignoreerr", "skip", "lagsign", "wrongcoord", "allparts", "swallow"):
            r.append(dict(module="MCTool", consts=dict(base, Bug=b), invs=["Refused"], expect=True))
        return r

    def scripts(self, work, prop, tier):
        n = 600 if tier == "quick" else 10000
        l, st = generate(work, "GenTool", n, consts={"Focus": prop})
        return [dict(id="g%d" % i, driver="tool", rules=s["rules"], p=s["p"]) for i, s in enumerate(l)], st

    def soft(self, prop, event):
        return event.get("ev") in ("Hang", "Exit")


class Front(Domain):
    spec = "Front (MCFront, GenFront, TraceFront)"
    note = ("the built healer command and the HTTP interface it serves are bound to the specification on the calls TLC draws "
            "(command lines, requests, credentials, layouts, versions, answers, faults), over real TCP, every request decoded and "
            "every answer encoded independently, what is shown read back")
    trace = "TraceFront"
    subst = {"MayStep": "FMay", "DoStep": "FDo", "Start": "FStart"}
    cli = True

    def mc(self, prop, tier):
        invs = ["Refused", "Nothing"]
        base = {"Prop": "ALL", "NN": 2, "MaxCalls": 2, "Bug": "none"}
        if tier == "quick":
            return [dict(module="MCFront", consts=base, invs=invs)]
        l = [dict(base, MaxCalls=3), dict(base, NN=3, MaxCalls=1)]
        r = [dict(module="MCFront", consts=c, invs=invs) for c in l]
        for b in ("getopen", "noheader", "get", "forbidden", "toctl", "sendbad", "othergroup", "trunc", "swallow", "early"):
            r.append(dict(module="MCFront", consts=dict(base, Bug=b), invs=["Refused"], expect=True))
        return r

    def scripts(self, work, prop, tier):
        n = (900 if prop == "T02" else 500) if tier == "quick" else 8000
        l, st = generate(work, "GenFront", n, consts={"Focus": prop})
        return [dict(id="g%d" % i, driver="admin", rules=s["rules"], p=s["p"]) for i, s in enumerate(l)], st

    def cfg(self, prop, script, events):
        p = script["p"]
        return {"front": p["front"], "guarded": p["guarded"], "getok": p["getallowed"]}

    def soft(self, prop, event):
        return event.get("ev") in ("Hang", "NoHandle")


class Config(Domain):
    spec = "Config (MCConfig, GenConfig, TraceConfig)"
    note = ("exhaustive on the design model (clients created in any order from shared defaults); the real clients are bound to it on "
            "the configurations TLC draws, several clients side by side, over real TCP, every request decoded independently")
    trace = "TraceConfig"
    subst = {"MayStep": "KMay", "DoStep": "KDo", "Start": "KStart"}
    jobs = 40

    def mc(self, prop, tier):
        part = "cfg" if prop == "K01" else "tls"
        invs = ["Refused", "Apart", "NoClear"]
        base = {"Prop": prop, "Part": part, "Cls": {1, 2}, "MaxOps": 4, "Bug": "none"}
        if tier == "quick":
            l = [base] if part == "cfg" else [dict(base, MaxOps=3), dict(base, Cls={1}, MaxOps=5)]
            return [dict(module="MCConfig", consts=c, invs=invs) for c in l]
        l = [dict(base, MaxOps=6), dict(base, Cls={1, 2, 3}, MaxOps=4)] if part == "cfg" else [base, dict(base, Cls={1}, MaxOps=7)]
        r = [dict(module="MCConfig", consts=c, invs=invs) for c in l]
        for b in ("alias", "caller", "default", "novalid", "global", "nosasl") if part == "cfg" else \
                 ("shared", "skipall", "nohost", "reconnclear", "ignoreload", "fallback", "nocert"):
            r.append(dict(module="MCConfig", consts=dict(base, MaxOps=5, Bug=b), invs=["Refused"], expect=True))
        return r

    def scripts(self, work, prop, tier):
        n = 400 if tier == "quick" else 5000
        l, st = generate(work, "GenConfig", n, consts={"Focus": prop})
        return [dict(id="g%d" % i, driver="config" if prop == "K01" else "tls", rules=s["rules"], p=s["p"]) for i, s in enumerate(l)], st

    def cfg(self, prop, script, events):
        p = script["p"]
        return {"tls": True, "cl": [{k: c[k] for k in ("o", "ident", "ct")} for c in p["cl"]]} if prop == "K02" else {"tls": False}

    def soft(self, prop, event):
        return event.get("ev") in ("Hang", "GaveUp", "UseRet", "BootRet", "Retry", "Sent", "Drip", "Watch", "NoStall", "NewRet")


class Release(Domain):
    spec = "Release (MCRelease, GenRelease, TraceRelease)"
    note = ("exhaustive on the design model (two handles with pools, leader connections and workers, every loss, move and order of closing); "
            "the real handles are bound to it on the lives TLC draws, over real TCP, the sockets counted in the process itself")
    trace = "TraceRelease"
    subst = {"MayStep": "RMay", "DoStep": "RDo", "Start": "RStart"}
    jobs = 32
    cli = True

    def mc(self, prop, tier):
        invs = ["Refused", "Owned"]
        base = {"Prop": prop, "Handles": {1, 2}, "Nodes": {1, 2}, "MaxOps": 5, "Bug": "none"}
        if tier == "quick":
            return [dict(module="MCRelease", consts=base, invs=invs)]
        l = [dict(base, MaxOps=7), dict(base, Handles={1}, Nodes={1, 2, 3}, MaxOps=8)]
        r = [dict(module="MCRelease", consts=c, invs=invs) for c in l]
        for b in ("failed", "keepdead", "forget", "nopool", "nolead", "undead", "nowait"):
            r.append(dict(module="MCRelease", consts=dict(base, MaxOps=7, Bug=b), invs=["Refused"], expect=True))
        return r

    def scripts(self, work, prop, tier):
        n = 700 if tier == "quick" else 6000
        l, st = generate(work, "GenRelease", n, consts={"Focus": prop})
        out = [dict(id="g%d" % i, driver="release", rules=s["rules"], p=s["p"]) for i, s in enumerate(l)]
        # and the service that makes a handle for every request
        l, st2 = generate(work, "GenFront", n // 4, consts={"Focus": "H01"})
        out += [dict(id="f%d" % i, driver="admin", rules=s["rules"], p=dict(s["p"], release=True)) for i, s in enumerate(l)]
        return out, {k: st.get(k, 0) + st2[k] if isinstance(st2[k], (int, float)) else st2[k] for k in st2}

    def events(self, prop, script, events):
        return [e for e in events if e["ev"] in ("Make", "Made", "Open", "Shut", "Rest", "Still")]

    def soft(self, prop, event):
        return event.get("ev") in ("Hang", "Rest", "Still")


class Pipe(Domain):
    spec = "Pipe (MCPipe, GenPipe, TracePipe)"
    note = ("exhaustive on the design model of the producing and consuming commands; the built healer command is bound to it on the "
            "runs TLC draws (inputs, logs, flags, configurations, refusals), over real pipes and TCP, its output read back")
    trace = "TracePipe"
    subst = {"MayStep": "SMay", "DoStep": "SDo", "Start": "SStart"}
    cli = True
    jobs = 24

    def mc(self, prop, tier):
        invs = ["Refused", "Safe"]
        base = {"Prop": prop, "Part": "in", "Lines": 5, "Batch": 2, "MaxLog": 4, "MaxRuns": 2, "Cap": 0, "Bug": "none"}
        l = [base, dict(base, Part="out")]
        if tier != "quick":
            l += [dict(base, Batch=3), dict(base, Batch=1), dict(base, Part="out", MaxLog=6, MaxRuns=3)]
        r = [dict(module="MCPipe", consts=c, invs=invs) for c in l]
        if tier != "quick":
            for b in ("dup", "skipempty", "alias", "ignore", "dropswitch", "noflush", "quietend"):
                r.append(dict(module="MCPipe", consts=dict(base, Bug=b), invs=["Refused"], expect=True))
            for b in ("fromstart", "onemore", "stopat", "skipnull", "noclose"):
                r.append(dict(module="MCPipe", consts=dict(base, Part="out", Bug=b), invs=["Refused"], expect=True))
            r.append(dict(module="MCPipe", consts=dict(base, Part="out", Cap=2), invs=["Refused"], expect=True))
        return r

    def scripts(self, work, prop, tier):
        n = 800 if tier == "quick" else 10000
        l, st = generate(work, "GenPipe", n, consts={"Focus": prop})
        return [dict(id="g%d" % i, driver="pipe", rules=s["rules"], p=s["p"]) for i, s in enumerate(l)], st

    def soft(self, prop, event):
        return event.get("ev") in ("Hang", "Exit", "Quiet")


DOMAIN = {"T03": Pipe(), "B05": Release(), "K01": Config(), "K02": Config(),
          "T02": Front(), "H01": Front(), "H02": Front(),
          "T01": Tool(), "M01": Lookup(), "B03": Admin(), "M02": Admin(), "M03": Admin(), "M04": Admin(),
          "G01": Group(), "G02": Group(), "G03": Group(), "G04": Group(), "G05": Group(),
          "P01": Producer(), "P02": Producer(), "P03": Producer(), "P04": Producer(),
          "C01": Consumer(), "C02": Consumer(), "C03": Consumer(), "C04": Consumer(), "C05": Consumer(),
          "C06": Consumer(), "C07": Consumer(), "B01": Conn(), "B02": Conn(), "B04": Conn()}
