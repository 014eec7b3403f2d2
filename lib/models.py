"""Bounded instances of spec/Cluster.tla: each explores some features exhaustively."""

BASE = dict(
    Ids="{1, 2, 3}", Voters0="{1, 2, 3}", Learners0="{}", Outgoing0="{}", AutoLeave0="FALSE",
    PreVote="FALSE", CheckQuorum_="FALSE", Lease="FALSE", MaxMsgSize="1000000000", MaxInflight="4",
    MaxComm="1000000000", MaxTerm="3", MaxIndex="3", MaxNet="3", NTimeout="2", NCrash="0", NProp="0",
    NConf="0", NRead="0", NXfer="0", NSnap="0", NDup="0", NReport="0", NBeat="0", Changes="{}",
    Atomic="TRUE")

ADD4 = "[tr |-> 0, ch |-> <<[y |-> 0, n |-> 4]>>]"
REM3 = "[tr |-> 0, ch |-> <<[y |-> 1, n |-> 3]>>]"
REM1 = "[tr |-> 0, ch |-> <<[y |-> 1, n |-> 1]>>]"
LRN3 = "[tr |-> 0, ch |-> <<[y |-> 3, n |-> 3]>>]"
ADD3 = "[tr |-> 0, ch |-> <<[y |-> 0, n |-> 3]>>]"
SWAP = "[tr |-> 0, ch |-> <<[y |-> 0, n |-> 3], [y |-> 1, n |-> 2]>>]"
SWAPX = "[tr |-> 2, ch |-> <<[y |-> 0, n |-> 3], [y |-> 3, n |-> 2]>>]"
LEAVE = "[tr |-> 0, ch |-> <<>>]"


def m(quick, thorough=None):
    q = dict(BASE, **{k: str(v) for k, v in quick.items()})
    t = dict(q, **{k: str(v) for k, v in (thorough or {}).items()})
    return {"quick": q, "thorough": t}


MODELS = {
    # elections, replication, lost leaders
    "elect": m(dict(NTimeout=2, MaxNet=2), dict(NTimeout=3, NProp=1, NCrash=1, MaxNet=4, MaxTerm=4)),
    # crashes between taking part in a call and making it durable
    "crash": m(dict(NTimeout=2, NCrash=1, Atomic="FALSE", MaxNet=2, MaxTerm=2),
               dict(NTimeout=2, NCrash=1, NProp=1, MaxNet=3, MaxTerm=3)),
    # pre-vote and leases
    "prevote": m(dict(PreVote="TRUE", CheckQuorum_="TRUE", NTimeout=2, MaxNet=2, MaxTerm=2),
                 dict(NTimeout=3, NCrash=1, MaxNet=4)),
    # reconfiguration, simple and joint
    "conf": m(dict(Voters0="{1, 2}", NTimeout=1, NConf=1, NProp=1, MaxNet=4, MaxIndex=5,
                   Changes="{%s}" % ", ".join([ADD3, SWAP, SWAPX, LEAVE])),
              dict(NTimeout=2, NConf=2, MaxNet=3, MaxIndex=5,
                   Changes="{%s}" % ", ".join([ADD3, REM1, SWAP, SWAPX, LEAVE]))),
    # starting inside a joint configuration with a learner
    "joint": m(dict(Voters0="{1, 2}", Outgoing0="{1, 3}", AutoLeave0="TRUE", NTimeout=1, NProp=1, MaxNet=3, MaxIndex=5),
               dict(NTimeout=2, NProp=1, MaxNet=3, MaxIndex=5)),
    # learners
    "learner": m(dict(Voters0="{1, 2}", Learners0="{3}", NTimeout=2, NProp=1, MaxNet=3),
                 dict(NTimeout=3, NCrash=1, MaxNet=4, NConf=1, MaxIndex=4, Changes="{%s}" % ADD3)),
    # snapshots and compaction
    "snap": m(dict(Voters0="{1, 2}", Learners0="{3}", NTimeout=1, NProp=1, NSnap=1, NReport=1, MaxNet=2, NBeat=1),
              dict(NTimeout=2, NProp=2, NSnap=2, NReport=1, NCrash=1, MaxNet=3, MaxIndex=4)),
    # linearizable reads
    "read": m(dict(NTimeout=2, NRead=1, MaxNet=2), dict(NTimeout=3, NRead=2, NProp=1, MaxNet=4, MaxTerm=4)),
    # reads at a leader that is removed
    "readconf": m(dict(Ids="{1, 2}", Voters0="{1, 2}", NTimeout=2, NRead=1, NConf=1, NProp=1, MaxNet=2, MaxIndex=4,
                       Changes="{%s}" % REM1),
                  dict(NTimeout=3, NRead=2, NProp=2, MaxIndex=6, MaxNet=3)),
    # reads on a lease: the leader answers at once, from what it has committed
    "lease": m(dict(Lease="TRUE", CheckQuorum_="TRUE", Ids="{1, 2, 3}", NTimeout=2, NRead=1, MaxNet=2, MaxTerm=2),
               dict(NTimeout=3, NRead=2, NProp=1, MaxNet=3, MaxTerm=3)),
    # leadership transfer
    "xfer": m(dict(NTimeout=1, NXfer=1, MaxNet=2), dict(NTimeout=2, NXfer=2, NProp=2, MaxNet=4)),
    # check quorum
    "quorum": m(dict(CheckQuorum_="TRUE", NTimeout=2, MaxNet=2, MaxTerm=2, NBeat=1),
                dict(NTimeout=3, MaxNet=4, NBeat=2, MaxTerm=4)),
    # flow control: one message in flight, one entry per message
    "flow": m(dict(Ids="{1, 2}", Voters0="{1, 2}", MaxInflight=1, MaxMsgSize=0, NTimeout=1, NProp=2, NReport=1, NDup=1,
                   NBeat=1, MaxIndex=5, MaxNet=3),
              dict(Ids="{1, 2, 3}", Voters0="{1, 2, 3}", MaxInflight=2, NTimeout=1, NProp=3, NReport=1, NDup=1, MaxNet=4)),
    # limits on what is handed to the application, Ready taken at any time
    "ready": m(dict(Ids="{1, 2}", Voters0="{1, 2}", MaxComm=0, NTimeout=1, NProp=2, NCrash=1, Atomic="FALSE", MaxIndex=4,
                    MaxNet=2),
               dict(NTimeout=2, NProp=3, NCrash=2, MaxIndex=5, MaxNet=3, NDup=1)),
}

INVARIANTS = ("NoBad OneLeader OneVote LogMatching Agreement OnlyVotersLead Truthful Window SameConfig "
              "OnePending TransferTarget")


def cfg(name, tier, spec="Spec", extra=()):
    c = MODELS[name][tier]
    r = ["SPECIFICATION " + spec, "CONSTANTS"]
    # the set of changes holds records, which a configuration file cannot express
    r += ["  %s = %s" % (k, v) for k, v in c.items() if k != "Changes"]
    r += ["  Changes <- MCChanges", "VIEW StateView", "CONSTRAINT Bounded", "INVARIANTS " + INVARIANTS]
    return "\n".join(r + list(extra)) + "\n"


def module(name, tier, base="Cluster", body=""):
    return ("---- MODULE MC ----\nEXTENDS %s\nMCChanges == %s\n%s====\n" % (base, MODELS[name][tier]["Changes"], body))


def write(directory, name, tier, **kw):
    base = kw.pop("base", "Cluster")
    body = kw.pop("body", "")
    open(directory + "/MC.tla", "w").write(module(name, tier, base, body))
    open(directory + "/MC.cfg", "w").write(cfg(name, tier, **kw))
