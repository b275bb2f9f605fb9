"""What each check runs: scripts generated from the specification, design models, coverage it must reach."""

COMMON_ASSUMPTIONS = [
    "TLC and the trace specifications are trusted; the log of an episode is written by the harness around public calls",
]

def models(tla, bugs=(), cfg=None, main=True, live=None, deep=None, **sets):
    """The design model, and its variants that TLC must refute."""
    cfg = cfg or tla
    out = [{"tla": tla, "cfg": cfg}] if main else []
    if live:
        out.append({"tla": tla, "cfg": live})
    if deep:
        out.append({"tla": tla, "cfg": cfg, "set": deep, "thorough": True, "workers": 8, "timeout": 1500, "heap": "16g"})
    for b in bugs:
        out.append({"tla": tla, "cfg": sets.get(b, cfg), "set": {"Bug": '"%s"' % b}, "expect": "violated", "workers": 1})
    return out


CHECKS = {
    "P01": {"gen": {"mix": {"num": (40, 400)}}, "need": {"all:ok": 500, "types:ok": 500, "stream:ok": 500}},
    "P02": {"gen": {"del": {"num": (40, 400)}, "save": {"num": (25, 200)}}, "need": {"reopen:ok": 10, "del:ok": 50, "save:ok": 500}},
    "P03": {"gen": {"save": {"num": (40, 400)}}, "need": {"save:oth": 100, "save:seq": 50, "save:can": 20, "dlv": 100}},
    "P04": {"gen": {"opt": {"num": (40, 400)}}, "need": {"save:seq": 200, "save:ok": 200}},
    "P05": {"models": models("LevelStore", ("recount", "noindex"), main=False),
            "gen": {"del": {"num": (50, 500)}}, "need": {"del:ok": 100, "del:seq": 50, "del:nf": 50, "del:can": 20}},
    "P07": {"models": models("LevelStore", ("liveread", "bare"), main=False) + models("Reads", ("apart",), main=False),
            "need": {"save:ok": 1000, "save:seq": 50, "del:ok": 100, "types:ok": 300}},
    "P08": {"models": models("LevelStore", ("split", "chunks", "direct", "nodiscard"), deep={"Saves": "3"}),
            "gen": {"del": {"num": (20, 200)}}, "need": {"crash": 300, "crash again": 20, "save:ok": 1000, "del:ok": 100, "reopen:ok": 300}},
    "P09": {"models": models("Subscription", ("notifylate", "reglast", "onceread", "nofilter", "notreached"), deep={"Subs": "{u, v}", "Saves": "2"}),
            "need": {"dlv": 5000, "save:ok": 1000}},
    "P10": {"models": models("Subscription", ("laggard", "onetype", "drop", "keepgoing"), main=False, live="Subscription-live") + models("Relay", ("silentcut", "keep", "patient"), main=False),
            "need": {"dlv": 1500, "save:ok": 800}},
    "P11": {"models": models("Reads", ("silent",), main=False),
            "need": {"all:oth": 100, "types:oth": 100, "stream:oth": 50, "all:can": 100, "types:can": 100}},
    "P12": {"models": models("Reads", ("hold", "relock", "waitall"), deep={"Writes": "5"}),
            "need": {"save:ok": 2000, "del:seq": 20, "save:oth": 50, "all:can": 20}},
    "P13": {"gen": {m: {"num": (n, 10 * n)} for m, n in (("mix", 25), ("save", 20), ("opt", 20), ("del", 20))},
            "need": {"save:ok": 800, "save:seq": 150, "save:oth": 60, "del:ok": 60, "del:seq": 40, "del:nf": 40, "types:ok": 500, "dlv": 800}},
    "P14": {"gen": {m: {"num": (n, 10 * n)} for m, n in (("mix", 20), ("save", 20), ("opt", 20), ("del", 20))},
            "need": {"save:ok": 500, "save:conflict": 100, "save:oth": 60, "del:ok": 60, "del:conflict": 40, "del:nf": 40, "types:ok": 300, "totals:ok": 100, "all:oth": 20}},
    "P15": {"models": models("Relay", ("norestart", "onceread", "fromnow", "refeed", "silentend"), deep={"Clients": "{h, s1, s2}", "Stuck": "{s1, s2}", "Saves": "3"}),
            "need": {"dlv": 4000, "save:ok": 1000}},
    "P16": {"models": models("Shred", ("lostrace", "ownkey", "overwrite", "plainold")),
            "gen": {m: {"num": (12, 120)} for m in ("mix", "save", "opt", "del")},
            "need": {"raw:ok": 1000, "save:ok": 1000, "save:oth": 100, "dlv": 1000, "all:oth": 20}},
    "P17": {"models": models("Shred", ("notomb", "onelook", "memo"), main=False),
            "need": {"forget:ok": 500, "all:del": 300, "types:del": 50, "save:del": 100, "all:ok": 200, "dlv": 500, "save:ok": 1000}},
    "P18": {"gen": {"kmix": {"tla": "KeyStoreGen", "num": (60, 500), "depth": (24, 40), "consts": {"NS": 4}},
                    "kfault": {"tla": "KeyStoreGen", "num": (50, 400), "depth": (20, 30), "consts": {"NS": 3}}},
            "need": {"get:ok": 1000, "set:ok": 1000, "kdel:ok": 300, "get:del": 300, "set:used": 50, "set:exists": 100, "set:invalid": 30, "kdel:oth": 20, "set:oth": 20},
            "models": [{"tla": "KeyCache", "cfg": "KeyCache"}, {"tla": "KeyCache", "cfg": "KeyCacheDeep", "thorough": True}] +
                      [{"tla": "KeyCache", "cfg": "KeyCache-" + b, "expect": e, "workers": 1} for b, e in
                       (("strictcache", "a call fails for no reason"), ("firstdelete", "Invariant Inv is violated"), ("forget", "Invariant Inv is violated"),
                        ("cachefirst", "Invariant Inv is violated"), ("overwrite", "Invariant Inv is violated"))]},
    "P19": {"models": models("Snapshot", ("lastfirst", "countfirst", "again", "keep", "trust"), deep={"Saves": "7", "Kills": "3"}),
            "gen": {m: {"tla": "ProjectionGen", "num": (60, 500), "depth": (14, 24)} for m in ("pmix", "pdel")},
            "need": {"stats:ok": 1000, "peek:ok": 500, "peek:err": 50, "start:ok": 400, "start:said": 100, "snap:ok": 200, "snap:oth": 20, "save:": 3000}},
    "P20": {"need": {"read:ok": 1000, "read:err": 10000, "write:ok": 300, "write:err": 500, "ser:ok": 200, "ser:err": 5000}},
    "P21": {"gen": {m: {"tla": "CqrsGen", "num": (60, 500), "depth": (16, 30), "consts": {"NS": 4}} for m in ("cmix", "cfault")},
            "need": {"ret:ok": 1000, "load:true": 1000, "load:false": 20, "ssave:err": 50, "ssave:ok": 1000}},
    "P22": {"gen": {m: {"tla": "ChatGen", "num": (60, 500), "depth": (24, 40), "consts": {"NS": 2, "NT": 3}} for m in ("chat", "chatrush")},
            "need": {"ret:1": 1000, "ret:0": 300, "ssave:UserWasBannedFromRoom": 100, "ssave:UserWasWarned": 200, "calm:ok": 1000}},
    "P23": {"models": models("PageWalk", ("offset", "full", "shownlast", "recompute", "oneback")),
            "gen": {m: {"tla": "WebUIGen", "num": (60, 500), "depth": (24, 40)} for m in ("ui", "uirush")},
            "need": {"pend:ok": 1000, "pend:fail:err": 20, "page two": 300, "link": 500, "types": 50, "wrec": 200, "wsum": 50}},
    "P24": {"gen": {"gok": {"tla": "EventCodeGen", "num": (120, 600), "depth": (34, 60)}, "gbad": {"tla": "EventCodeGen", "num": (50, 250), "depth": (16, 30)}},
            "need": {"decl:ok": 100, "enc:ok": 200, "enc:oth": 30, "enc:del": 20, "dec:ok": 100, "load:ok": 50, "handle:ok": 50}},
    "P25": {"server": {"-server": "rangedb"}, "models": models("Server", ("fatal", "nowait", "storefirst", "early", "nocatchup", "ahead", "shared"), deep={"Rpc": "{g1, g2}", "Lives": "4"}),
            "need": {"save:ok": 800, "save:seq": 100, "del:ok": 80, "killed": 80, "interrupted:0": 100, "reopen:ok": 200, "totals:ok": 300, "dlv": 5000, "second:refused": 30}},
    "P26": {"server": {"-server": "rangedb", "-server-grpcsub": "grpc-event-subscriber", "-server-wssub": "ws-event-subscriber"},
            "models": models("Follower", ("last", "forget", "skip", "reset", "live"), deep={"Saves": "6", "Breaks": "3"}),
            "need": {"dlv": 5000, "cut:true": 30, "killed": 40, "interrupted": 40, "reopen:ok": 80, "save:ok": 400}},
    "P06": {"gen": {"mix": {"num": (60, 500)}}, "need": {"all:ok": 500, "del:ok": 30}},
}
NOT_APPLICABLE = {}
