"""Per property: the divergences and monitor alarms that decide it, and what is explored for it.

`focus' are regular expressions on "label|tag".  The label is the call at which the real
code and the specification differ (step.<message>[.old][.foreign|.learner][.noop], tick,
rdy, adv, acc, new, ...); the tag says what differs.  `models' are the bounded instances
of spec/Cluster.tla that are checked exhaustively and whose transitions are replayed in
the real code; `profiles' shape the random cluster executions.
"""

ANY = r".*\|"
CRASH = [ANY + r"(crash\..*|hang|spec\.reject)"]
MON = lambda *t: [ANY + r"mon\.(%s)" % "|".join(t)]


def tags(*t):
    return [ANY + "(%s)" % "|".join(t)]


def at(label, *t):
    return [r"(%s)\|(%s)" % (label, "|".join(t) if t else ".*")]


STATE = r"(term\.(hi|lo)|vote|lead|role.*|commit\.(hi|lo)|applied\.(hi|lo)|log|unstable|usnap|cfg|prs\..*|votes|xfer|pci\..*|usize|ro|rs)"
MSGS = lambda *t: [ANY + r"msg[+-](%s)" % "|".join(t)]

ELECT = "camp:4,tick:24,cut:2,crash:1.5,prop:5"
CONF = "propcc:7,prop:4,camp:1"
READ = "read:9,camp:2,crash:1"
XFER = "xfer:5,propcc:3,prop:8"
SNAP = "snap:7,compact:9,prop:12,crash:1.5,cut:1.5,dpf:0.05"
FLOW = "small:1,prop:16,batch:2,unreach:2,drop:5,cut:1.5"
CRSH = "crash:3,restart:8,stage:20,ready:10,camp:1.5"
DUPS = "dup:9,drop:3,camp:2,cut:2,forge:3,propcc:3"
QUOR = "cq:1,tick:26,cut:2.5,round:4"
PREV = "pv:1,camp:5,tick:26,cut:2.5"
SMALL = "small:1,stage:20,ready:8,prop:14,batch:2"
FINAL = "final:1,cut:2,crash:1.5"

PROPS = {
    "C01": dict(
        focus=CRASH + MON("twoleaders", "doublevote") + tags(r"votes", r"role.*", r"lead")
        + MSGS(r"MsgVote.*") + at(r"(camp|tick|step\.Msg(Pre)?VoteResp.*|step\.MsgTimeoutNow.*|step\.Msg(Pre)?Vote.*)", STATE)
        + at(r"quorum\..*"),
        models=["elect", "joint"], profiles=[ELECT, ELECT + ",propcc:5", PREV], solo="m.vote:3,m.voteresp:3,s.camp:3", comp="quorum quorumall"),
    "C02": dict(
        focus=CRASH + MON("doublevote", "revote", "termback", "forgot", "undurable.vote", "undurable.term")
        + tags(r"term\..*", r"vote", r"rd\.hs", r"rd\.sync\.lo", r"st\.hs") + MSGS(r"Msg(Pre)?Vote.*")
        + at(r"new", r"term\..*|vote|st\..*|rd\..*"),
        models=["crash", "elect"], profiles=[CRSH, ELECT, ELECT + ",crash:3,stage:20"], solo="m.vote:4,m.prevote:2,s.crash:4,s.camp:2"),
    "C03": dict(
        focus=CRASH + MON("incomplete") + at(r"step\.Msg(Pre)?Vote(\..*)?") + tags(r"vote") + MSGS(r"Msg(Pre)?Vote(Resp)?.*")
        + at(r"log\..*", "uptodate|lastterm|last|term"),
        models=["elect", "prevote"], profiles=[ELECT + ",prop:14", PREV + ",prop:14", CRSH], solo="m.vote:6,m.prevote:5", comp="log"),
    "C04": dict(
        focus=CRASH + MON("logmatch", "leaderlog", "truncated", "chosen") + tags("log", r"st\.log") + MSGS(r"MsgApp(Resp)?(\.rej)?")
        + at(r"step\.MsgApp(\..*)?", STATE) + at(r"log\..*"),
        models=["elect", "flow"], profiles=[ELECT + ",prop:16,cut:3", FLOW, CRSH + ",prop:14"], solo="m.app:3", comp="log"),
    "C05": dict(
        focus=CRASH + MON("chosen", "incomplete", "truncated", "commitback", "commitquorum", "committerm", "forgot", "applywrong",
                          "undurable.log")
        + tags(r"commit\.(hi|lo)", "log", r"st\.log") + MSGS("MsgHeartbeat", "MsgApp", "MsgSnap") + at(r"new", r"commit.*|log|st\..*")
        + at(r"log\..*", r"commit.*|log|panic|match"),
        models=["elect", "snap"], profiles=[ELECT + ",prop:14,cut:3", CRSH + ",prop:12", SNAP, CONF], solo="m.app:2,m.appresp:2,s.crash:2", comp="log"),
    "C06": dict(
        focus=CRASH + MON("applyorder", "applywrong", "applyuncommitted", "applysnap", "appliedback", "applied", "digest")
        + tags(r"applied\..*", r"rd\.ce", r"rd\.sn") + at(r"adv", r"applied.*|unstable|usnap") + at(r"log\..*", r"next.*|applied.*"),
        models=["ready", "snap"], profiles=[SMALL, SNAP, CRSH + ",small:1"], solo="s.stage:2,m.app:2,small:1", comp="log"),
    "C07": dict(
        focus=CRASH + MON("committerm", "commitquorum", "chosen") + tags(r"commit\.(hi|lo)", r"prs\.m\..*") + MSGS("MsgApp", "MsgHeartbeat")
        + at(r"acc", r"commit.*|msg.*") + at(r"quorum\..*", r".*committed.*")
        + at(r"log\..*", r"commit.*|term"),
        models=["elect", "learner"], profiles=[ELECT + ",prop:14", CONF + ",prop:10", CRSH + ",prop:14"], solo="m.appresp:3,s.propcc:2", comp="quorum quorumall log"),
    "C08": dict(
        focus=CRASH + MON("undurable.*") + tags(r"rd\.(en|hs|sync\..*|sn)", "unstable", r"st\..*") + at("adv", r"unstable|usnap|hasready")
        + at(r"log\..*", r"unstable|usnap|pendingsnap|log|panic") + at(r"store\..*"),
        models=["crash", "ready"], profiles=[CRSH, SMALL, SNAP], solo="s.stage:3,m.app:2,s.crash:2", comp="log store"),
    "C09": dict(
        focus=CRASH + MON("forgot", "config") + tags(r"nofatal\..*") + at(r"new") + at("log.new.*") + at("restore.*"),
        san="restore reads progress change", models=["crash", "snap"], profiles=[CRSH, CRSH + ",snap:6,compact:8", CRSH + ",propcc:6", DUPS], solo="s.crash:5,s.snap:2,s.compact:2", comp="restore log"),
    "C10": dict(
        focus=CRASH + tags(r"rd\..*", "hasready", "status", "msgorder", "unstable") + at("rdy") + at("adv")
        + at(r"log\..*", r"next.*|unstable|usnap|pendingsnap"),
        models=["ready", "flow"], profiles=[SMALL, SMALL + ",crash:2", SNAP, READ], solo="s.stage:2,small:1", comp="log"),
    "C11": dict(
        focus=CRASH + at(r"quorum\..*") + MON("commitquorum") + at(r"acc|adv|step\.MsgAppResp.*", r"commit\..*")
        + at(r"step\.Msg(Pre)?VoteResp.*|camp|tick", r"role.*"),
        models=["joint"], profiles=[CONF, CONF + ",prop:10"], solo="m.appresp:2,s.propcc:3", comp="quorum quorumall"),
    "C12": dict(
        focus=CRASH + MON("cfginv", "config") + tags("cfg", r"prs\.dom", r"prs\.ln", r"nofatal\.acc", r"ret\.cs", "learner")
        + at("acc") + at(r"change\..*"),
        models=["conf", "joint"], profiles=[CONF, CONF + ",batch:2"], solo="s.propcc:5,s.ready:2", comp="change ccconv"),
    "C13": dict(
        focus=CRASH + MON("config", "cfginv") + tags(r"ret\.cs", r"nofatal\.new", r"st\.snap") + at(r"new|step\.MsgSnap.*", r"cfg|prs\..*|learner")
        + at("acc", r"cfg|ret.*|prs\.dom|prs\.ln|learner") + at(r"restore\..*")
        + at(r"change\.conv"),
        models=["conf", "snap"], profiles=[CONF + ",snap:6,compact:8", CRSH + ",propcc:7,snap:6", SNAP + ",propcc:5"], solo="m.snap:3,s.propcc:3,s.crash:2", comp="restore ccconv"),
    "C14": dict(
        focus=CRASH + MON("config") + tags(r"pci\..*") + at(r"propcc|step\.MsgProp.*|prop", r"log|ret.*|msg.*")
        + at("adv", r"log|pci.*|prs.*|usize|unstable|commit.*") + at("acc", r"cfg|ret\.cs|prs\.dom")
        + at(r"camp|tick|step\.MsgVoteResp.*|step\.MsgTimeoutNow.*", r"pci.*|role.*|term.*")
        + at(r"change\..*"),
        models=["conf", "joint"], profiles=[CONF + ",batch:3", CONF, CONF + ",camp:3,crash:1.5"], solo="s.propcc:6,m.prop:3,s.camp:2", comp="ccconv change"),
    "C15": dict(
        focus=CRASH + MON("learnercampaign", "commitquorum", "twoleaders") + tags("learner", r"prs\.ln") + at(r".*\.learner.*|.*\.foreign.*")
        + at("acc", r"commit.*|role.*|learner|lead|xfer|msg.*|prs\..*") + at(r"camp|tick|step\.MsgTimeoutNow.*", r"role.*|term.*|vote|msg.*")
        + at("xfer", "xfer|msg.*") + at(r"step\.MsgTransferLeader.*", r"xfer|msg.*") + at(r"quorum\..*")
        + at(r"step\.Msg(Pre)?VoteResp.*", r"role.*|votes|lead") + at(r"step\.MsgAppResp.*|adv", r"commit\.hi")
        + at(r"tick|step\.MsgReadIndex.*|step\.MsgHeartbeatResp.*|ridx", r"role\.L.|rs|ro") + at(r"change\..*"),
        models=["learner", "joint"], profiles=[CONF, CONF + ",camp:4,xfer:4", CONF + ",cut:2,tick:26", SNAP + ",propcc:5"], solo="m.tnow:3,m.xfer:3,s.camp:3,s.propcc:2", comp="quorum quorumall change"),
    "C16": dict(
        focus=CRASH + MON("staleread") + tags("ro", "rs", r"rd\.rs") + MSGS(r"MsgReadIndex(Resp)?") + at("ridx")
        + at(r"step\.MsgReadIndex.*") + at(r"step\.MsgHeartbeatResp.*", r"ro|rs|msg.*ReadIndex.*") + at(r"tick|ridx", r"msg.*Heartbeat")
        + at(r"reads\..*"),
        models=["read", "readconf"], profiles=[READ, READ + ",propcc:4", READ + ",cut:2,single:0.4", READ + ",tick:26"], solo="s.read:5,m.ridx:4,m.hbresp:2", comp="reads"),
    "C17": dict(
        focus=CRASH + MSGS(r"MsgPreVote(Resp)?.*") + at(r"step\.MsgPreVote.*") + at(r"step\.MsgVoteResp\.old.*") + at(r"step\.MsgVote(\..*)?", r"term.*|vote|role.*|msg.*|ee|lead")
        + at(r"(camp|tick)", r"term.*|vote|role.*|lead|msg.*Vote.*|votes") + tags(r"role\.P.|role\..P"),
        models=["prevote"], profiles=[PREV, PREV + ",cq:1", PREV + ",propcc:4", PREV + ",crash:2"], solo="pv:1,m.prevote:3,m.prevoteresp:3,s.tick:2"),
    "C18": dict(
        focus=CRASH + tags(r"prs\.ra", "ee") + at("tick") + at(r"step\.Msg(Pre)?Vote(\..*)?")
        + at(r"step\.Msg(App|Heartbeat|AppResp)\.old.*") + tags(r"role\.L.", r"role\..L")
        + at(r"quorum\.tracker"),
        models=["quorum", "prevote"], profiles=[QUOR, QUOR + ",xfer:3", QUOR + ",propcc:4", QUOR + ",camp:4"], solo="cq:1,m.vote:3,m.prevote:2,s.tick:2", comp="quorum"),
    "C19": dict(
        focus=CRASH + tags("xfer") + MSGS("MsgTimeoutNow", "MsgTransferLeader") + at(r"xfer|step\.Msg(TransferLeader|TimeoutNow).*")
        + at(r"prop|propcc", r"ret.*|log") + at(r"step\.MsgProp.*", r"ret.*|log") + at("step.MsgVote.*", r"vote|term.*|msg.*"),
        models=["xfer"], profiles=[XFER, XFER + ",cq:1", XFER + ",cut:2", XFER + ",small:1"], solo="s.xfer:5,m.xfer:4,m.tnow:4,s.prop:2"),
    "C20": dict(
        focus=CRASH + tags("ee", r"rto.*") + at("tick|tickq") + MSGS("MsgHeartbeat")
        + at(r"util\.random"),
        models=["quorum", "elect"], profiles=[QUOR, PREV, "tick:30,tickq:3", ELECT], solo="s.tick:3,s.tickq:3", comp="util"),
    "C21": dict(
        focus=CRASH + tags(r"prs\.(m\..*|n|s|ps|sn|dom)") + MSGS(r"MsgAppResp.*") + at(r"unreach|snapst|step\.MsgAppResp.*")
        + at(r"progress\..*"),
        models=["flow", "snap"], profiles=[FLOW, SNAP, CRSH + ",prop:14", FLOW + ",dup:6", CONF], solo="m.appresp:4,s.answer:2", comp="progress"),
    "C22": dict(
        focus=CRASH + MON("inflights") + tags(r"prs\.(if|sn|n|s)", "usize", r"ret\.prop.*", "msgorder", "noconv", "noprogress") + MSGS("MsgApp")
        + at(r"step\.MsgHeartbeatResp.*", r"prs.*|msg.*") + at(r"progress\..*|inflights\..*")
        + at(r"util\.limit"),
        models=["flow"], profiles=[FLOW, FLOW + ",final:1", FLOW + ",cut:2", FLOW + ",propcc:3"], solo="s.prop:3,s.answer:2,small:1", comp="progress inflights util"),
    "C23": dict(
        focus=CRASH + MON("applysnap", "config") + tags("usnap", r"prs\.(s|ps)", r"rd\.sn", r"st\.snap") + MSGS("MsgSnap")
        + at(r"step\.MsgSnap.*|snapst") + tags(r"prs\.n") + MSGS("MsgApp") + at("adv", "usnap") + at(r"pst", r"st\..*|log")
        + at(r"store\..*", r"ret.*|snapshot|ss|initial|handedout") + at(r"log\..*", r"usnap|pendingsnap|snapshot"),
        models=["snap"], profiles=[SNAP, SNAP + ",cq:0.6,unreach:2", SNAP + ",propcc:4", SNAP + ",postpone:3", SNAP + ",final:1,crash:3"], solo="m.snap:5,s.compact:3,s.snap:3,m.appresp:2", comp="store log"),
    "C24": dict(
        focus=CRASH + MON("digest", "chosen") + tags("noconv", "noprogress", r"prs\.(sn|n|s)", r"commit\.lo") + MSGS(r"Msg(App|AppResp|Heartbeat|Snap|Vote|PreVote)(\.rej)?")
        + at("tick", "ee|role.*"),
        models=["flow", "prevote"], profiles=[FINAL, FINAL + ",snap:6,compact:8", FINAL + ",propcc:4", FINAL + ",small:1", FINAL + ",cq:1,pv:1"], solo="s.answer:2"),
    "C25": dict(
        focus=CRASH + tags("usize", r"ret\.prop.*") + MSGS("MsgProp") + at(r"prop|propcc|step\.MsgProp.*")
        + at("adv", "usize") + at("camp|tick|step.*", "usize") + at(r"util\.status"),
        models=["ready", "xfer"], profiles=[SMALL, XFER, CONF + ",small:1", SMALL + ",cut:1.5"], solo="s.prop:4,m.prop:3,small:1", comp="util"),
    "C26": dict(
        focus=CRASH + tags("log", "unstable", "usnap") + MSGS("MsgApp") + at(r"log\..*") + at("adv", "unstable|usnap|log") + at("rdy", r"rd\.(en|ce)")
        + at(r"util\.limit"),
        san="log", models=["crash", "ready"], profiles=[CRSH + ",prop:16", SMALL, SNAP], solo="m.app:3,s.stage:2,s.compact:2", comp="log util"),
    "C27": dict(
        focus=CRASH + tags(r"st\..*", r"snap\.mutated", r"ret\.(snapc|compact)") + at(r"store\..*") + at("pst|snapc|compact"),
        san="store inflights quorum", models=["snap"], profiles=[SNAP, SNAP + ",propcc:4", CRSH + ",snap:6,compact:8"], solo="s.snap:4,s.compact:4,m.snap:2", comp="store"),
    "C28": dict(
        focus=CRASH + MON("termback", "revote", "truncated", "commitback") + tags(r"ret\.step")
        + at(r"step.*(\.old|\.foreign|\.noop).*") + at(r"step.*", r"term.*|vote|lead|log|commit.*|prs\.m.*|prs\.n|role.*")
        + at(r"util\.type"),
        models=["flow", "elect"], profiles=[DUPS, DUPS + ",snap:6,compact:8", DUPS + ",pv:1,cq:1", DUPS + ",xfer:3"], solo="m.appresp:2,m.hbresp:2", comp="util"),
    "C29": dict(
        focus=CRASH + tags(r"ret\.boot") + at(r"boot") + at(r"new") + at(r"config\..*"),
        models=["ready"], profiles=["boot:1", "boot:1,crash:3", "boot:1,single:0.4"], solo="s.crash:3", comp="config"),
    "C30": dict(
        focus=CRASH + MON("message") + MSGS(r".*"),
        models=["flow", "snap"], profiles=["", READ + ",propcc:3", SNAP + ",cut:2", DUPS + ",pv:1,cq:1", XFER], solo="m.app:2,m.ridx:2,m.prop:2,m.xfer:2"),
    "C31": dict(
        focus=CRASH + tags("ro", "rs", r"rd\.rs") + MSGS(r"MsgReadIndex(Resp)?") + at("ridx")
        + at(r"step\.MsgReadIndex.*") + at(r"step\.MsgHeartbeatResp.*", r"ro|rs|msg.*ReadIndex.*") + at(r"config\..*", "accepted|validate"),
        models=["lease"], profiles=[READ + ",cq:1,lease:1", READ + ",cq:1,lease:1,propcc:4", READ + ",cq:1,lease:1,cut:2,single:0.3",
                                    READ + ",cq:1,lease:1,snap:6,compact:8"],
        solo="cq:1,lease:1,s.read:5,m.ridx:5,m.appresp:2", comp="config"),
    "C32": dict(
        focus=CRASH + tags("status", r"rd\.(peek|mutated|ms)", "hasready", r"snap\.mutated") + at(r".*", "handedout")
        + at(r"inflights\.clone|progress\..*", ".*clone.*|.*copy.*")
        + at(r"util\.status"),
        models=["ready"], profiles=["", CONF, SNAP, SMALL + ",crash:2", XFER], solo="s.stage:2,s.xfer:2,s.snap:2", comp="store inflights log util"),
    "C33": dict(
        focus=CRASH + MON("leftover") + tags("votes", "xfer", "usize", "lead", "ee", r"role.*")
        + at(r"camp|tick|step\..*", r"prs\.(m\.hi|m\.lo|s|sn|ps|if|ra|n)|ro|rs|pci.*|log") + at(r"tick|step\..*", r"rto\.draw"),
        models=["elect", "xfer"], profiles=[ELECT + ",prop:10", XFER + ",camp:3", READ + ",cut:2", QUOR + ",prop:8", PREV], solo="s.camp:4,m.voteresp:3,m.vote:2,s.xfer:2,s.read:2"),
    "C34": dict(
        focus=CRASH + at(r"store\.(shared|append|applysnap|createsnap|compact|seths)") + at("die"),
        models=["snap"], profiles=[SNAP, "", CRSH, CONF], solo="s.snap:2,s.compact:2,m.snap:2", comp="store", threads=True),
    "C35": dict(
        focus=CRASH + at(r"stop\..*") + at(r".*", "panic|accepted|refused"),
        models=["xfer"], profiles=["", CONF, SNAP, CRSH], solo="s.crash:3", comp="stop store log inflights config restore"),
}
