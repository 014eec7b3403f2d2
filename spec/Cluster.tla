------------------------------- MODULE Cluster -------------------------------
(***************************************************************************)
(* A whole cluster: nodes as in RaftNode, a network that delays, reorders, *)
(* duplicates and loses messages, an application that handles Readys, and  *)
(* crashes with a restart from what is durable.  Time is abstracted: a     *)
(* timeout, a heartbeat or the end of a leader lease can happen at any     *)
(* moment.  The constants select the features and bound the exploration;   *)
(* see the MC_*.cfg files.                                                 *)
(***************************************************************************)
EXTENDS RaftNode

CONSTANTS Ids,            \* all node ids that may ever exist
          Voters0, Learners0, Outgoing0, AutoLeave0,   \* initial configuration
          PreVote, CheckQuorum_, Lease, MaxMsgSize, MaxInflight, MaxComm,
          MaxTerm, MaxIndex, MaxNet,
          NTimeout, NCrash, NProp, NConf, NRead, NXfer, NSnap, NDup, NReport, NBeat,
          Changes,        \* the configuration changes that may be proposed
          Atomic          \* TRUE: a Ready is handled at once after every call

VARIABLES nodes, net, b, hist, led, grants, chosen, reads, bad
vars == <<nodes, net, b, hist, led, grants, chosen, reads, bad>>
\* the record of the actions taken does not distinguish states
StateView == <<nodes, net, b, led, grants, chosen, reads, bad>>

NodeCf == [et |-> 10, ht |-> 1, maxmsg |-> MaxMsgSize, maxcomm |-> MaxComm, maxunc |-> NoLimit,
           infl |-> MaxInflight, cq |-> CheckQuorum_, pv |-> PreVote, lease |-> Lease, dpf |-> FALSE]

CS0 == [v |-> SortedIds(Voters0), vo |-> SortedIds(Outgoing0), l |-> SortedIds(Learners0),
        ln |-> <<>>, al |-> AutoLeave0]
Snap0 == [i |-> 1, t |-> 1, d |-> "s", c |-> CS0]
Storage0 == [sb |-> 1, sbt |-> 1, sl |-> <<>>, ss |-> Snap0, hs |-> [tm |-> 1, vt |-> 0, cm |-> 1]]
NoStorage == [sb |-> 0, sbt |-> 0, sl |-> <<>>, ss |-> NoSnap, hs |-> NoHS]
Members0 == Voters0 \cup Learners0 \cup Outgoing0

\* timers are abstracted to: heard from the leader recently (0) or not (et)
Norm(n) == [n EXCEPT !.rt = 0, !.he = 0, !.rc = "ok", !.xb = <<>>,
                     !.ee = IF CheckQuorum_ /\ @ = 0 THEN 0 ELSE n.cf.et]
Storage(n) == [sb |-> n.sb, sbt |-> n.sbt, sl |-> n.sl, ss |-> n.ss, hs |-> n.hs]

Budget0 == [timeout |-> NTimeout, crash |-> NCrash, prop |-> NProp, conf |-> NConf, read |-> NRead,
            xfer |-> NXfer, snap |-> NSnap, dup |-> NDup, report |-> NReport, beat |-> NBeat]

Init ==
  /\ nodes = [i \in Ids |-> Norm(NewNode(i, NodeCf, IF i \in Members0 THEN Storage0 ELSE NoStorage, 0))]
  /\ net = {} /\ b = Budget0 /\ hist = <<>>
  /\ led = {} /\ grants = {} /\ reads = <<>> /\ bad = {}
  /\ chosen = <<>>

(****************************** ghost variables ****************************)
Key(e) == <<e.t, e.y, e.d, e.c>>
\* entries that became durable as committed at o
DurableCommits(n, o) == {i \in (n.hs.cm + 1)..o.hs.cm : i > o.ba /\ i <= LastIndex(o)}
ChosenAdd(n, o) ==
  LET new == DurableCommits(n, o) \ DOMAIN chosen
  IN [i \in DOMAIN chosen \cup new |->
        IF i \in DOMAIN chosen THEN chosen[i] ELSE [k |-> Key(EntAt(o, i)), ct |-> o.tm]]
MaxChosen == IF DOMAIN chosen = {} THEN 1 ELSE Max(DOMAIN chosen)

HoldersOf(o, i, t) ==
  {id \in Ids : IF id = o.id THEN LastIndex(o) >= i
                ELSE LET n == nodes[id]
                     IN i <= n.sb \/ (i <= StLast(n) /\ n.sl[i - n.sb].t = t)}
OnQuorum(o, i) ==
  LET h == HoldersOf(o, i, TermAt(o, i))
      Q(C) == C = {} \/ 2 * Cardinality(C \cap h) > Cardinality(C)
  IN Q(o.cg.inc) /\ Q(o.cg.out)

\* what must not happen in the step of a node from n to o
StepBad(n, o) ==
  (IF o.ft THEN {"fatal"} ELSE {})
  \cup (IF o.tm < n.tm THEN {"termback"} ELSE {})
  \cup (IF o.tm = n.tm /\ n.vt # 0 /\ o.vt # n.vt THEN {"revote"} ELSE {})
  \cup (IF o.cm < n.cm THEN {"commitback"} ELSE {})
  \cup (IF o.ap > o.cm THEN {"applied"} ELSE {})
  \cup (IF o.rl = "L" /\ n.rl = "L" /\ o.cm > n.cm /\ ~(TermAt(o, o.cm) = o.tm /\ OnQuorum(o, o.cm))
        THEN {"commit"} ELSE {})
  \cup (IF n.rl = "F" /\ o.rl # "F" /\ (n.id \notin VotersOf(n.cg) \/ n.il) THEN {"learnercampaign"} ELSE {})
  \cup (IF n.rl = "L" /\ o.rl = "L" /\ n.tm = o.tm
           /\ (LastIndex(o) < LastIndex(n)
               \/ \E i \in MaxOf(n.ba, o.ba) + 1..LastIndex(n) : TermAt(n, i) # TermAt(o, i))
        THEN {"leaderlog"} ELSE {})
  \cup (IF \E i \in MaxOf(n.ba, o.ba) + 1..MinOf(n.cm, LastIndex(n)) :
              i > LastIndex(o) \/ TermAt(o, i) # TermAt(n, i) THEN {"truncated"} ELSE {})
  \cup (IF o.rl = "L" /\ n.rl # "L" /\ \E i \in DOMAIN chosen :
              chosen[i].ct < o.tm /\ i > o.ba /\ (i > LastIndex(o) \/ TermAt(o, i) # chosen[i].k[1])
        THEN {"incomplete"} ELSE {})
  \cup (IF \E k \in Len(n.ms) + 1..Len(o.ms) : MsgWrong(o, o.ms[k]) THEN {"message"} ELSE {})
  \cup (IF Leftover(n, o) THEN {"leftover"} ELSE {})
  \cup (IF PreVote /\ n.rl \in {"F", "P"} /\ o.rl = "P" /\ (o.tm # n.tm \/ o.vt # n.vt) THEN {"prevote"} ELSE {})

\* On a lease a read says what was committed at the node that answered, nothing newer and
\* nothing that is not committed.
ReadBad(o) ==
  IF Lease THEN (IF \E k \in 1..Len(o.rs) : o.rs[k].i > MaxOf(MaxChosen, o.cm) THEN {"futureread"} ELSE {})
  ELSE IF \E k \in 1..Len(o.rs) : o.rs[k].c \in DOMAIN reads /\ reads[o.rs[k].c] > o.rs[k].i
  THEN {"staleread"} ELSE {}

(***************************** handling a Ready ****************************)
MustBeDurable(m) == m.y \notin {"MsgPreVote", "MsgPreVoteResp", "MsgProp", "MsgReadIndex", "MsgTransferLeader"}
SendBad(n, ms) ==
  LET One(m) ==
        (IF MustBeDurable(m) /\ m.tm > n.hs.tm THEN {"undurable"} ELSE {})
        \cup (IF m.y = "MsgVoteResp" /\ ~m.rj /\ n.hs.tm = m.tm /\ n.hs.vt # m.to THEN {"undurable"} ELSE {})
        \cup (IF m.y = "MsgAppResp" /\ ~m.rj /\ m.ix > StLast(n) THEN {"undurable"} ELSE {})
  IN UNION {One(ms[k]) : k \in 1..Len(ms)}

ApplyBad(n, rd) ==
  LET ce == rd.ce
      from == MaxOf(n.ap, rd.sn.i)
  IN IF ce = <<>> THEN {}
     ELSE (IF ce[1].i # from + 1 \/ \E k \in 2..Len(ce) : ce[k].i # ce[k - 1].i + 1 THEN {"applyorder"} ELSE {})
          \cup (IF \E k \in 1..Len(ce) : ce[k].i > n.cm THEN {"applyuncommitted"} ELSE {})

ApplyEntries(n, ce) ==
  FoldLeft(LAMBDA a, e : IF e.y = 0 \/ a.ft THEN a ELSE OpApplyConf(a, e.c), n, ce)

\* one Ready: [n, out, bad]
HandleOne(n) ==
  LET r1 == OpReady(n)
      r2 == OpPersist(r1)
      r3 == ApplyEntries(r2, r1.rd.ce)
      r4 == IF r3.ft THEN r3 ELSE OpAdvance(r3)
  IN [n |-> r4, out |-> r1.rd.ms, p |-> r2,
      bad |-> SendBad(r2, r1.rd.ms) \cup ApplyBad(n, r1.rd)
              \cup StepBad(n, r2) \cup StepBad(r2, r3) \cup StepBad(r3, r4)
              \cup (IF ~CfgInvariant(r4.cg, r4.pr) THEN {"cfginv"} ELSE {})
              \cup ReadBad([n EXCEPT !.rs = r1.rd.rs])]

RECURSIVE HandleAll(_, _)
HandleAll(acc, k) ==
  IF acc.n.ft \/ k = 0 \/ ~HasReady(acc.n) THEN acc
  ELSE LET h == HandleOne(acc.n)
       IN HandleAll([n |-> h.n, out |-> acc.out \o h.out, p |-> h.p, bad |-> acc.bad \cup h.bad], k - 1)

Grants(ms) ==
  {<<m.tm, m.fr, m.to>> : m \in {x \in RangeOf(ms) : x.y = "MsgVoteResp" /\ ~x.rj}}
  \cup {<<m.tm, m.fr, m.fr>> : m \in {x \in RangeOf(ms) : x.y = "MsgVote"}}

(********************************** steps **********************************)
\* node i moves from n to o, having consumed and produced messages
Finish(i, o0, netBase, extraBad, act) ==
  LET o == o0
      h == IF Atomic /\ ~o.ft THEN HandleAll([n |-> o, out |-> <<>>, p |-> nodes[i], bad |-> {}], 3)
           ELSE [n |-> o, out |-> <<>>, p |-> nodes[i], bad |-> {}]
  IN /\ nodes' = [nodes EXCEPT ![i] = Norm(h.n)]
     /\ net' = netBase \cup {m \in RangeOf(h.out) : m.to \in Ids}
     /\ chosen' = ChosenAdd(nodes[i], h.n)
     /\ led' = IF o.rl = "L" THEN led \cup {<<o.tm, i>>}
               ELSE IF h.n.rl = "L" THEN led \cup {<<h.n.tm, i>>} ELSE led
     /\ grants' = grants \cup Grants(h.out)
     /\ bad' = bad \cup extraBad \cup h.bad \cup StepBad(nodes[i], o) \cup ReadBad(o)
     /\ hist' = Append(hist, act)

Spend(k) == b[k] > 0 /\ b' = [b EXCEPT ![k] = @ - 1]
Keep == UNCHANGED <<b, reads>>

Timeout(i) ==
  /\ nodes[i].rl # "L" /\ Promotable(nodes[i]) /\ nodes[i].tm < MaxTerm
  /\ CheckQuorum_ => nodes[i].ee > 0
  /\ Spend("timeout") /\ UNCHANGED reads
  /\ Finish(i, OpCampaign(Begin(nodes[i])), net, {}, [a |-> "camp", n |-> i])

Fits(m) == m.y \notin {"MsgVote", "MsgPreVote", "MsgTimeoutNow"} \/ m.tm <= MaxTerm

Deliver(m) ==
  /\ Keep
  /\ Finish(m.to, OpStep(Begin(nodes[m.to]), m), net \ {m}, {}, [a |-> "deliver", m |-> m])

Duplicate(m) ==
  /\ Spend("dup") /\ UNCHANGED reads
  /\ Finish(m.to, OpStep(Begin(nodes[m.to]), m), net, {}, [a |-> "dup", m |-> m])

\* losing a message matters only because it makes room for others
Lose(m) ==
  /\ Cardinality(net) >= MaxNet
  /\ net' = net \ {m} /\ hist' = Append(hist, [a |-> "lose", m |-> m])
  /\ UNCHANGED <<nodes, b, led, grants, chosen, reads, bad>>

Propose(i) ==
  /\ nodes[i].rl = "L" /\ LastIndex(nodes[i]) < MaxIndex
  /\ Spend("prop") /\ UNCHANGED reads
  /\ LET d == "p" \o ToString(b.prop)
         e == Ent(0, 0, 0, d, 2, 4, EmptyCC)
     IN Finish(i, OpPropose(Begin(nodes[i]), e), net, {}, [a |-> "prop", n |-> i, d |-> d])

ProposeChange(i, cc) ==
  /\ nodes[i].rl = "L" /\ LastIndex(nodes[i]) < MaxIndex
  /\ Spend("conf") /\ UNCHANGED reads
  /\ Finish(i, OpProposeConf(Begin(nodes[i]), Ent(0, 0, 2, "", 4, 8, cc)), net, {},
            [a |-> "conf", n |-> i, cc |-> cc])

Beat(i) ==
  /\ nodes[i].rl = "L"
  /\ Spend("beat") /\ UNCHANGED reads
  /\ Finish(i, Step(Begin(nodes[i]), Local("MsgBeat", i)), net, {}, [a |-> "beat", n |-> i])

CheckQ(i) ==
  /\ CheckQuorum_ /\ nodes[i].rl = "L"
  /\ Keep
  /\ Finish(i, [Step(Begin(nodes[i]), Local("MsgCheckQuorum", i)) EXCEPT !.xf = Nil], net, {},
            [a |-> "check", n |-> i])

\* the leader gives up a transfer after an election timeout
GiveUp(i) ==
  /\ ~CheckQuorum_ /\ nodes[i].rl = "L" /\ nodes[i].xf # Nil
  /\ Keep
  /\ Finish(i, [Begin(nodes[i]) EXCEPT !.xf = Nil], net, {}, [a |-> "check", n |-> i])

LeaseEnds(i) ==
  /\ CheckQuorum_ /\ nodes[i].rl # "L" /\ nodes[i].ee = 0
  /\ nodes' = [nodes EXCEPT ![i].ee = nodes[i].cf.et]
  /\ hist' = Append(hist, [a |-> "lease", n |-> i])
  /\ UNCHANGED <<net, b, led, grants, chosen, reads, bad>>

Read(i) ==
  /\ nodes[i].rl \in {"L", "F"}
  /\ Spend("read")
  /\ LET c == "r" \o ToString(b.read)
     IN /\ reads' = With(reads, c, MaxChosen)
        /\ Finish(i, OpReadIndex(Begin(nodes[i]), Ent(0, 0, 0, c, 2, 0, EmptyCC)), net, {},
                  [a |-> "read", n |-> i, c |-> c])

Transfer(i, to) ==
  /\ nodes[i].rl = "L"
  /\ Spend("xfer") /\ UNCHANGED reads
  /\ Finish(i, OpTransfer(Begin(nodes[i]), to), net, {}, [a |-> "xfer", n |-> i, to |-> to])

Handle(i) ==
  /\ ~Atomic /\ HasReady(nodes[i])
  /\ Keep
  /\ LET h == HandleOne(Begin(nodes[i]))
     IN /\ nodes' = [nodes EXCEPT ![i] = Norm(h.n)]
        /\ net' = net \cup {m \in RangeOf(h.out) : m.to \in Ids}
        /\ chosen' = ChosenAdd(nodes[i], h.n)
        /\ led' = IF h.n.rl = "L" THEN led \cup {<<h.n.tm, i>>} ELSE led
        /\ grants' = grants \cup Grants(h.out)
        /\ bad' = bad \cup h.bad
        /\ hist' = Append(hist, [a |-> "handle", n |-> i])

\* a node loses everything that is not durable and starts again
Crash(i) ==
  /\ Spend("crash") /\ UNCHANGED reads
  /\ LET o == NewNode(i, NodeCf, Storage(nodes[i]), 0)
         n == nodes[i]
     IN /\ nodes' = [nodes EXCEPT ![i] = Norm(o)]
        /\ bad' = bad \cup (IF o.ft THEN {"fatal"} ELSE {})
                  \cup (IF o.tm # n.hs.tm \/ o.vt # n.hs.vt \/ o.lg # n.sl THEN {"forgot"} ELSE {})
        /\ hist' = Append(hist, [a |-> "crash", n |-> i])
        /\ UNCHANGED <<net, led, grants, chosen>>

\* the application takes a snapshot of what it applied and cuts the log
Snapshot(i) ==
  /\ nodes[i].ap > nodes[i].ss.i /\ nodes[i].rd = NoRd /\ nodes[i].us.i = 0
  /\ nodes[i].ap <= StLast(nodes[i]) /\ nodes[i].hs.cm >= nodes[i].ap
  /\ Spend("snap") /\ UNCHANGED reads
  /\ LET n1 == OpSnapshot(Begin(nodes[i]), nodes[i].ap, CS(nodes[i].cg), "s")
         n2 == OpCompact(n1, nodes[i].ap)
     IN /\ nodes' = [nodes EXCEPT ![i] = Norm(n2)]
        /\ bad' = bad \cup StepBad(nodes[i], n2)
        /\ hist' = Append(hist, [a |-> "snap", n |-> i])
        /\ UNCHANGED <<net, led, grants, chosen>>

Report(i, to, kind) ==
  /\ nodes[i].rl = "L" /\ to \in DOMAIN nodes[i].pr /\ to # i
  /\ Spend("report") /\ UNCHANGED reads
  /\ Finish(i, IF kind = "unreach" THEN OpUnreachable(Begin(nodes[i]), to)
               ELSE OpSnapStatus(Begin(nodes[i]), to, kind = "fail"), net, {},
            [a |-> kind, n |-> i, to |-> to])

Next ==
  \/ \E i \in Ids : \/ Timeout(i) \/ Propose(i) \/ Beat(i) \/ CheckQ(i) \/ GiveUp(i) \/ LeaseEnds(i)
                    \/ Read(i) \/ Handle(i) \/ Crash(i) \/ Snapshot(i)
                    \/ \E cc \in Changes : ProposeChange(i, cc)
                    \/ \E to \in Ids : \/ Transfer(i, to)
                                       \/ \E k \in {"unreach", "fail", "finish"} : Report(i, to, k)
  \/ \E m \in net : Deliver(m) \/ Duplicate(m) \/ Lose(m)

Spec == Init /\ [][Next]_vars

(******************************* the bounds ********************************)
Bounded ==
  /\ Cardinality(net) <= MaxNet
  /\ \A i \in Ids : nodes[i].tm <= MaxTerm /\ LastIndex(nodes[i]) <= MaxIndex + 1 /\ Len(nodes[i].ms) <= 8

(******************************** invariants *******************************)
NoBad == bad = {}
\* C01
OneLeader == \A x, y \in led : x[1] = y[1] => x = y
\* C02
OneVote == \A x, y \in grants : x[1] = y[1] /\ x[2] = y[2] => x[3] = y[3]
\* C04
LogMatching ==
  \A i, j \in Ids : i < j =>
    LET n == nodes[i]
        o == nodes[j]
        lo == MaxOf(n.ba, o.ba)
        hi == MinOf(LastIndex(n), LastIndex(o))
        same == {k \in lo + 1..hi : TermAt(n, k) = TermAt(o, k)}
    IN same # {} => \A k \in lo + 1..Max(same) : EntAt(n, k) = EntAt(o, k)
\* C05, C06
Agreement ==
  \A i \in Ids : \A k \in nodes[i].ba + 1..MinOf(nodes[i].hs.cm, LastIndex(nodes[i])) :
     k \in DOMAIN chosen => chosen[k].k = Key(EntAt(nodes[i], k))
\* C15
OnlyVotersLead == \A i \in Ids : nodes[i].rl \in {"C", "P"} => i \in VotersOf(nodes[i].cg)
\* C21: what a leader believes about a member is durable there (for the leader of the highest term)
Truthful ==
  \A i \in Ids : nodes[i].rl = "L" =>
    \A j \in DOMAIN nodes[i].pr \cap Ids :
      /\ nodes[i].pr[j].n > nodes[i].pr[j].m
      /\ j # i /\ nodes[j].tm = nodes[i].tm => nodes[i].pr[j].m <= StLast(nodes[j])
      /\ nodes[i].pr[j].m <= LastIndex(nodes[i])
\* C22
Window == \A i \in Ids : \A j \in DOMAIN nodes[i].pr : Len(nodes[i].pr[j].if) <= MaxInflight
\* C14: configurations of nodes that applied the same prefix agree (one-change-at-a-time)
SameConfig ==
  \A i, j \in Ids : nodes[i].ap = nodes[j].ap /\ nodes[i].ap > 0 => CS(nodes[i].cg) = CS(nodes[j].cg)
OnePending ==
  \A i \in Ids : nodes[i].rl = "L" =>
     Cardinality({k \in nodes[i].ap + 1..LastIndex(nodes[i]) : k > nodes[i].ba /\ EntAt(nodes[i], k).y # 0}) <= 1
\* C19
TransferTarget ==
  \A i \in Ids : nodes[i].xf # Nil => nodes[i].rl = "L" /\ nodes[i].xf # i
=============================================================================
