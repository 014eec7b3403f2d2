------------------------------ MODULE RaftNode ------------------------------
(***************************************************************************)
(* One raft node as a state machine: a record `n' and one operator per     *)
(* public call (Tick, Step, Propose, Ready, Advance, ...).  The operators  *)
(* follow the critical sections of src/raft.cc, src/rawnode.cc, src/log.cc *)
(* one to one; they are used both by the exhaustive cluster model          *)
(* (Cluster.tla) and by the validation of recorded executions (Trace.tla). *)
(*                                                                         *)
(* Fields of n                                                             *)
(*  id            own id            cf   configuration of the node         *)
(*  tm vt         term, vote        ld rl  leader, role F/C/L/P            *)
(*  il            is learner        cm ap  commit / applied index          *)
(*  ba bt lg      log: base index, base term, entries after the base       *)
(*  un            number of entries not yet handed to stable storage       *)
(*  us            pending (unstable) snapshot; i = 0 means none            *)
(*  cg pr vo      configuration, progress per member, votes received       *)
(*  xf pc uz      transfer target, pending-conf index, uncommitted size    *)
(*  ee he rt      elapsed ticks (election, heartbeat), randomized timeout  *)
(*  ro rs         pending ReadIndex queue, finished read states            *)
(*  pri           ReadIndex requests postponed until a commit in this term *)
(*  ms            outgoing messages not yet handed out                     *)
(*  psf phd rd    soft/hard state reported last, Ready handed out or NoRd  *)
(*  sb sbt sl ss hs   stable storage: log base, base term, entries,        *)
(*                snapshot, hard state                                     *)
(*  su            stable storage reports its snapshot as unavailable for now *)
(*  xb            encoded sizes of new entries, where they were observed     *)
(*  rc            result of the call: ok / dropped / local / nopeer / err  *)
(*  ft            the call must not return (panic)                         *)
(***************************************************************************)
EXTENDS ConfChange, SequencesExt

Nil == 0
AnyTimeout == -1     \* a randomized timeout freshly drawn from [et, 2*et-1]

EmptyCC == [tr |-> 0, ch |-> <<>>]
\* entry: i index, t term, y 0 normal /1 conf change /2 conf change v2, d data,
\*        z payload size, b encoded size, c conf change (EmptyCC for normal)
Ent(i, t, y, d, z, b, c) ==
  [i |-> i, t |-> t, y |-> y, d |-> d, z |-> z, b |-> b, c |-> c]

NoSnap == [i |-> 0, t |-> 0, d |-> "", c |-> EmptyCS]
NoHS == [tm |-> 0, vt |-> 0, cm |-> 0]
NoRd == [none |-> TRUE]

Msg(y, to) == [y |-> y, to |-> to, fr |-> 0, tm |-> 0, lt |-> 0, ix |-> 0, cm |-> 0,
               rj |-> FALSE, rh |-> 0, cx |-> "", en |-> <<>>, sn |-> <<>>]

(*********************************** log ***********************************)
LastIndex(n)  == n.ba + Len(n.lg)
FirstIndex(n) == n.ba + 1
Uoff(n) == LastIndex(n) + 1 - n.un
TermAt(n, i) ==
  IF i < n.ba \/ i > LastIndex(n) THEN 0
  ELSE IF i = n.ba THEN n.bt ELSE n.lg[i - n.ba].t
LastTerm(n) == TermAt(n, LastIndex(n))
EntAt(n, i) == n.lg[i - n.ba]
Sub(n, lo, hi) == SubSeq(n.lg, lo - n.ba, hi - n.ba)     \* lo..hi inclusive

RECURSIVE KeepCount(_, _, _, _)
KeepCount(es, k, sz, max) ==
  IF k = Len(es) THEN k
  ELSE LET s == sz + es[k + 1].b
       IN IF k > 0 /\ s > max THEN k ELSE KeepCount(es, k + 1, s, max)
LimitSize(es, max) ==
  IF max >= NoLimit THEN es ELSE SubSeq(es, 1, KeepCount(es, 0, 0, max))

MatchTerm(n, i, t) == TermAt(n, i) = t
UpToDate(n, i, t) == t > LastTerm(n) \/ (t = LastTerm(n) /\ i >= LastIndex(n))

Fatal(n) == [n EXCEPT !.ft = TRUE]

CommitTo(n, i) ==
  IF n.cm >= i THEN n
  ELSE IF LastIndex(n) < i THEN Fatal(n) ELSE [n EXCEPT !.cm = i]

RECURSIVE ConflictByTerm(_, _, _)
ConflictByTerm(n, i, t) ==
  IF TermAt(n, i) <= t THEN i ELSE ConflictByTerm(n, i - 1, t)
FindConflictByTerm(n, i, t) == IF i > LastIndex(n) THEN i ELSE ConflictByTerm(n, i, t)

\* index of the first entry of es that is not in the log, 0 if all are
FindConflict(n, es) ==
  LET bad == {k \in 1..Len(es) : ~MatchTerm(n, es[k].i, es[k].t)}
  IN IF bad = {} THEN 0 ELSE es[CHOOSE k \in bad : \A j \in bad : k <= j].i

\* Truncate at the first new index and append.
LogAppend(n, es) ==
  IF Len(es) = 0 THEN n
  ELSE LET after == es[1].i - 1
           off  == Uoff(n)
           off2 == IF after + 1 <= off /\ after + 1 # off + n.un THEN after + 1 ELSE off
           lg2  == SubSeq(n.lg, 1, after - n.ba) \o es
       IN IF after < n.cm \/ after > LastIndex(n) THEN Fatal(n)
          ELSE [n EXCEPT !.lg = lg2, !.un = n.ba + Len(lg2) + 1 - off2]

(********************************* sending *********************************)
VoteTypes == {"MsgVote", "MsgVoteResp", "MsgPreVote", "MsgPreVoteResp"}

Send(n, m) ==
  LET m1 == IF m.fr = 0 THEN [m EXCEPT !.fr = n.id] ELSE m
  IN IF n.ft THEN n
     ELSE IF m.y \in VoteTypes
     THEN IF m.tm = 0 THEN Fatal(n) ELSE [n EXCEPT !.ms = Append(@, m1)]
     ELSE IF m.tm # 0 THEN Fatal(n)
     ELSE [n EXCEPT !.ms = Append(@, IF m.y \in {"MsgProp", "MsgReadIndex"} THEN m1
                                     ELSE [m1 EXCEPT !.tm = n.tm])]

Paused(n, pr) ==
  \/ pr.s = "P" /\ pr.sn
  \/ pr.s = "R" /\ Len(pr.if) = n.cf.infl
  \/ pr.s = "S"

\* Send entries (or, if the log no longer has them, a snapshot) to `to'.
MaybeSendAppend(n, to, ifEmpty) ==
  IF n.ft THEN n
  ELSE IF to \notin DOMAIN n.pr THEN Fatal(n)
  ELSE
  LET pr == n.pr[to]
      gone == pr.n <= LastIndex(n) /\ pr.n < FirstIndex(n)
      es == IF gone \/ pr.n > LastIndex(n) THEN <<>>
            ELSE LimitSize(Sub(n, pr.n, LastIndex(n)), n.cf.maxmsg)
      snap == IF n.us.i # 0 THEN n.us ELSE n.ss
      app == [Msg("MsgApp", to) EXCEPT !.ix = pr.n - 1, !.lt = TermAt(n, pr.n - 1),
                                       !.en = es, !.cm = n.cm]
      lastSent == es[Len(es)].i
  IN IF Paused(n, pr) \/ (es = <<>> /\ ~ifEmpty) THEN n
     ELSE IF gone
     THEN IF ~pr.ra THEN n
          ELSE IF n.us.i = 0 /\ n.su THEN n
          ELSE IF snap.i = 0 THEN Fatal(n)
          ELSE Send([n EXCEPT !.pr[to] = [@ EXCEPT !.s = "S", !.ps = snap.i, !.sn = FALSE,
                                                   !.if = <<>>]],
                    [Msg("MsgSnap", to) EXCEPT !.sn = <<snap>>])
     ELSE IF es = <<>> THEN Send(n, app)
     ELSE IF pr.s = "R"
     THEN Send([n EXCEPT !.pr[to] = [@ EXCEPT !.n = lastSent + 1, !.if = Append(@, lastSent)]], app)
     ELSE Send([n EXCEPT !.pr[to].sn = TRUE], app)

SendAppend(n, to) == MaybeSendAppend(n, to, TRUE)

BcastAppend(n) ==
  FoldLeft(LAMBDA a, id : SendAppend(a, id), n, SortedIds(DOMAIN n.pr \ {n.id}))

SendHeartbeat(n, to, ctx) ==
  Send(n, [Msg("MsgHeartbeat", to) EXCEPT !.cm = MinOf(n.pr[to].m, n.cm), !.cx = ctx])
BcastHeartbeat(n, ctx) ==
  FoldLeft(LAMBDA a, id : SendHeartbeat(a, id, ctx), n, SortedIds(DOMAIN n.pr \ {n.id}))

(*********************************** commit ********************************)
Acked(n) == [id \in DOMAIN n.pr |-> n.pr[id].m]
CommitIndexOf(n) == JointCommitted(n.cg.inc, n.cg.out, Acked(n))
CanCommit(n) == LET i == CommitIndexOf(n) IN i > n.cm /\ TermAt(n, i) = n.tm
MaybeCommit(n) == IF CanCommit(n) THEN CommitTo(n, CommitIndexOf(n)) ELSE n

PrUpdate(pr, i) ==
  [pr EXCEPT !.m = MaxOf(@, i), !.sn = IF pr.m < i THEN FALSE ELSE @, !.n = MaxOf(@, i + 1)]

PayloadOf(es) == FoldLeft(LAMBDA a, e : a + e.z, 0, es)

\* encoded size of a new entry: observed if the caller supplied it (n.xb)
SizeAt(n, i, formula) == IF i \in DOMAIN n.xb THEN n.xb[i] ELSE formula

Refuses(n, es) ==
  LET s == PayloadOf(es) IN n.uz > 0 /\ s > 0 /\ n.uz + s > n.cf.maxunc

\* es already carry index and term
AppendEntries(n, es) ==
  IF n.id \notin DOMAIN n.pr THEN Fatal(n)
  ELSE LET n1 == LogAppend([n EXCEPT !.uz = @ + PayloadOf(es)], es)
       IN IF n1.ft THEN n1
          ELSE MaybeCommit([n1 EXCEPT !.pr[n.id] = PrUpdate(@, LastIndex(n1))])

NewEntry(n, k, y, d, z, b, c) ==
  LET i == LastIndex(n) + k IN Ent(i, n.tm, y, d, z, SizeAt(n, i, b), c)

ReduceUncommitted(n, es) ==
  IF n.uz = 0 THEN n
  ELSE LET s == PayloadOf(es) IN [n EXCEPT !.uz = IF s > @ THEN 0 ELSE @ - s]

(******************************* role changes ******************************)
Reset(n, term) ==
  [n EXCEPT !.tm = term, !.vt = IF n.tm # term THEN Nil ELSE @,
            !.ld = Nil, !.ee = 0, !.he = 0, !.rt = AnyTimeout, !.xf = Nil, !.vo = <<>>,
            !.pr = [id \in DOMAIN n.pr |->
                      [NewProgress(LastIndex(n) + 1, n.pr[id].ln, FALSE)
                         EXCEPT !.m = IF id = n.id THEN LastIndex(n) ELSE 0]],
            !.pc = 0, !.uz = 0, !.ro = <<>>]

BecomeFollower(n, term, lead) ==
  IF n.ft THEN n ELSE [Reset(n, term) EXCEPT !.ld = lead, !.rl = "F"]

BecomeCandidate(n) ==
  IF n.rl = "L" THEN Fatal(n)
  ELSE [Reset(n, n.tm + 1) EXCEPT !.vt = n.id, !.rl = "C"]

BecomePreCandidate(n) ==
  IF n.rl = "L" THEN Fatal(n) ELSE [n EXCEPT !.vo = <<>>, !.ld = Nil, !.rl = "P"]

BecomeLeader(n) ==
  IF n.rl = "F" \/ n.id \notin DOMAIN n.pr THEN Fatal(n)
  ELSE LET n1 == Reset(n, n.tm)
           n2 == [n1 EXCEPT !.ld = n.id, !.rl = "L",
                            !.pr[n.id] = [@ EXCEPT !.s = "R", !.ps = 0, !.sn = FALSE,
                                                   !.if = <<>>, !.n = n1.pr[n.id].m + 1],
                            !.pc = LastIndex(n1)]
       IN AppendEntries(n2, <<NewEntry(n2, 1, 0, "", 0, 4, EmptyCC)>>)

Promotable(n) == n.id \in DOMAIN n.pr /\ ~n.pr[n.id].ln /\ n.us.i = 0

RecordVote(n, id, v) == IF id \in DOMAIN n.vo THEN n ELSE [n EXCEPT !.vo = With(@, id, v)]
Tally(n) == JointVote(n.cg.inc, n.cg.out, n.vo)

\* kind: "pre" (pre-vote phase), "elect" (real election), "xfer" (leader transfer)
RECURSIVE Campaign(_, _)
Campaign(n, kind) ==
  LET n1 == IF kind = "pre" THEN BecomePreCandidate(n) ELSE BecomeCandidate(n)
      term == IF kind = "pre" THEN n1.tm + 1 ELSE n1.tm
      n2 == RecordVote(n1, n.id, TRUE)
      req(id) == [Msg(IF kind = "pre" THEN "MsgPreVote" ELSE "MsgVote", id)
                    EXCEPT !.tm = term, !.ix = LastIndex(n2), !.lt = LastTerm(n2),
                           !.cx = IF kind = "xfer" THEN "CampaignTransfer" ELSE ""]
  IN IF n1.ft THEN n1
     ELSE IF Tally(n2) = "won"
     THEN IF kind = "pre" THEN Campaign(n2, "elect") ELSE BecomeLeader(n2)
     ELSE FoldLeft(LAMBDA a, id : Send(a, req(id)), n2, SortedIds(VotersOf(n2.cg) \ {n.id}))

UnappliedConf(n) == {i \in (n.ap + 1)..n.cm : i > n.ba /\ EntAt(n, i).y # 0}

Hup(n, kind) ==
  IF n.rl = "L" \/ ~Promotable(n) THEN n
  ELSE IF n.ap < n.ba THEN Fatal(n)
  ELSE IF UnappliedConf(n) # {} THEN n
  ELSE Campaign(n, kind)

(***************************** reconfiguration *****************************)
SwitchToConfig(n, cfg, prs) ==
  LET n1 == [n EXCEPT !.cg = cfg, !.pr = prs, !.il = n.id \in DOMAIN prs /\ prs[n.id].ln]
      gone == n.id \notin DOMAIN prs \/ n1.il
      n2 == IF CanCommit(n1) THEN BcastAppend(MaybeCommit(n1))
            ELSE FoldLeft(LAMBDA a, id : MaybeSendAppend(a, id, FALSE), n1,
                          SortedIds(DOMAIN prs))
  IN IF (gone /\ n.rl = "L") \/ n.rl # "L" \/ cfg.inc = {} THEN n1
     ELSE IF n2.xf # 0 /\ n2.xf \notin VotersOf(cfg) THEN [n2 EXCEPT !.xf = Nil] ELSE n2

ApplyConfChange(n, cc) ==
  LET r == ApplyCC(n.cg, n.pr, cc, LastIndex(n))
  IN IF ~r.ok THEN Fatal(n) ELSE SwitchToConfig(n, r.cfg, r.prs)

(******************************** ReadIndex ********************************)
\* ro: sequence of [c ctx, f requester (0 = local), i read index, a set of ids that acked]
ReadResponse(n, from, ctx, ents, i) ==
  IF from = 0 \/ from = n.id THEN [n EXCEPT !.rs = Append(@, [i |-> i, c |-> ctx])]
  ELSE Send(n, [Msg("MsgReadIndexResp", from) EXCEPT !.ix = i, !.en = ents])

CtxOf(m) == IF Len(m.en) = 0 THEN "" ELSE m.en[1].d

StartRead(n, m) ==
  IF n.cf.lease THEN ReadResponse(n, m.fr, CtxOf(m), m.en, n.cm)
  ELSE LET ctx == CtxOf(m)
           known == \E k \in 1..Len(n.ro) : n.ro[k].c = ctx
           ro1 == IF known THEN n.ro
                  ELSE Append(n.ro, [c |-> ctx, f |-> m.fr, i |-> n.cm, a |-> {}, en |-> m.en])
           ro2 == [k \in 1..Len(ro1) |->
                     IF ro1[k].c = ctx THEN [ro1[k] EXCEPT !.a = @ \cup {n.id}] ELSE ro1[k]]
       IN BcastHeartbeat([n EXCEPT !.ro = ro2], ctx)

CommittedInTerm(n) == TermAt(n, n.cm) = n.tm
SingleVoter(n) == Cardinality(n.cg.inc) = 1 /\ n.cg.out = {}

ReleasePendingReads(n) ==
  IF ~CommittedInTerm(n) THEN n
  ELSE FoldLeft(LAMBDA a, m : StartRead(a, m), [n EXCEPT !.pri = <<>>], n.pri)

\* A leader that is itself the only voter may answer at once.  (A leader that is not
\* part of the configuration any more has to ask the quorum.)
SoleVoter(n) == SingleVoter(n) /\ n.cg.inc = {n.id}

(******************************** the leader *******************************)
RECURSIVE FilterConf(_, _, _)
\* Decide entry k of a proposal: conf changes may be replaced by an empty entry.
FilterConf(n, es, k) ==
  IF k > Len(es) THEN [n |-> n, es |-> es]
  ELSE IF es[k].y = 0 THEN FilterConf(n, es, k + 1)
  ELSE LET pending == n.pc > n.ap
           leave == Len(es[k].c.ch) = 0
           refused == pending \/ (Joint(n.cg) /\ ~leave) \/ (~Joint(n.cg) /\ leave)
       IN IF refused
          THEN FilterConf(n, [es EXCEPT ![k] = Ent(0, 0, 0, "", 0, 2, EmptyCC)], k + 1)
          ELSE FilterConf([n EXCEPT !.pc = LastIndex(n) + k], es, k + 1)

LeaderProp(n, m) ==
  IF Len(m.en) = 0 THEN Fatal(n)
  ELSE IF n.id \notin DOMAIN n.pr \/ n.xf # Nil THEN [n EXCEPT !.rc = "dropped"]
  ELSE LET f == FilterConf(n, m.en, 1)
           es == [k \in 1..Len(f.es) |->
                    NewEntry(n, k, f.es[k].y, f.es[k].d, f.es[k].z, f.es[k].b + 4, f.es[k].c)]
       IN IF Refuses(f.n, es) THEN [f.n EXCEPT !.rc = "dropped"]
          ELSE BcastAppend(AppendEntries(f.n, es))

LeaderReadIndex(n, m) ==
  IF SoleVoter(n) THEN ReadResponse(n, m.fr, CtxOf(m), m.en, n.cm)
  ELSE IF ~CommittedInTerm(n) THEN [n EXCEPT !.pri = Append(@, m)]
  ELSE StartRead(n, m)

QuorumActive(n) ==
  JointVote(n.cg.inc, n.cg.out,
            [id \in {x \in DOMAIN n.pr : ~n.pr[x].ln} |-> n.pr[id].ra]) = "won"

CheckQuorum(n) ==
  LET n1 == IF n.id \in DOMAIN n.pr THEN [n EXCEPT !.pr[n.id].ra = TRUE] ELSE n
      n2 == IF QuorumActive(n1) THEN n1 ELSE BecomeFollower(n1, n1.tm, Nil)
  IN [n2 EXCEPT !.pr = [id \in DOMAIN n2.pr |-> IF id = n.id THEN n2.pr[id]
                                                ELSE [n2.pr[id] EXCEPT !.ra = FALSE]]]

ToProbe(pr) ==
  [pr EXCEPT !.s = "P", !.sn = FALSE, !.ps = 0, !.if = <<>>,
             !.n = IF pr.s = "S" THEN MaxOf(pr.m + 1, pr.ps + 1) ELSE pr.m + 1]
ToReplicate(pr) ==
  [pr EXCEPT !.s = "R", !.sn = FALSE, !.ps = 0, !.if = <<>>, !.n = pr.m + 1]
FreeLE(q, i) == SelectSeq(q, LAMBDA x : x > i)

AppRejected(n, m) ==
  LET id == m.fr
      pr == n.pr[id]
      hint == IF m.lt > 0 THEN FindConflictByTerm(n, m.rh, m.lt) ELSE m.rh
  IN IF pr.s = "R"
     THEN IF m.ix <= pr.m THEN n
          ELSE SendAppend([n EXCEPT !.pr[id] = ToProbe(pr)], id)
     ELSE IF pr.n - 1 # m.ix THEN n
     ELSE SendAppend([n EXCEPT !.pr[id].n = MaxOf(MinOf(m.ix, hint + 1), pr.m + 1),
                               !.pr[id].sn = FALSE], id)

RECURSIVE SendMore(_, _)
SendMore(n, id) ==
  LET n1 == MaybeSendAppend(n, id, FALSE)
  IN IF n1.ft \/ Len(n1.ms) = Len(n.ms) THEN n1 ELSE SendMore(n1, id)

AppAccepted(n, m) ==
  LET id == m.fr
      pr == n.pr[id]
      paused == Paused(n, pr)
      up == PrUpdate(pr, m.ix)
      pr2 == IF up.s = "P" THEN ToReplicate(up)
             ELSE IF up.s = "S" THEN IF up.m >= up.ps THEN ToReplicate(ToProbe(up)) ELSE up
             ELSE [up EXCEPT !.if = FreeLE(@, m.ix)]
      n1 == [n EXCEPT !.pr[id] = pr2]
      n2 == IF CanCommit(n1) THEN BcastAppend(ReleasePendingReads(MaybeCommit(n1)))
            ELSE IF paused THEN SendAppend(n1, id) ELSE n1
      n3 == SendMore(n2, id)
  IN IF m.ix <= pr.m THEN [n EXCEPT !.pr[id] = up]     \* nothing new acknowledged
     ELSE IF id = n3.xf /\ n3.pr[id].m = LastIndex(n3)
     THEN Send(n3, Msg("MsgTimeoutNow", id)) ELSE n3

HeartbeatResp(n, m) ==
  LET id == m.fr
      pr == [n.pr[id] EXCEPT !.ra = TRUE, !.sn = FALSE]
      pr2 == IF pr.s = "R" /\ Len(pr.if) = n.cf.infl THEN [pr EXCEPT !.if = FreeLE(@, @[1])] ELSE pr
      n1 == [n EXCEPT !.pr[id] = pr2]
      n2 == IF pr2.m < LastIndex(n1) THEN SendAppend(n1, id) ELSE n1
      ks == {k \in 1..Len(n2.ro) : n2.ro[k].c = m.cx}
      k == CHOOSE x \in ks : TRUE
      acks == n2.ro[k].a \cup {id}
      n3 == [n2 EXCEPT !.ro[k].a = acks]
      won == JointVote(n.cg.inc, n.cg.out, [x \in acks |-> TRUE]) = "won"
      done == SubSeq(n3.ro, 1, k)
  IN IF n.cf.lease \/ m.cx = "" THEN n2
     ELSE IF ks = {}   \* unknown context: an empty ack set can only win an empty config
     THEN n2
     ELSE IF ~won THEN n3
     ELSE FoldLeft(LAMBDA a, r : ReadResponse(a, r.f, r.c, r.en, r.i),
                   [n3 EXCEPT !.ro = SubSeq(@, k + 1, Len(@))], done)

SnapStatus(n, m) ==
  LET pr == n.pr[m.fr]
      pr2 == ToProbe(IF m.rj THEN [pr EXCEPT !.ps = 0] ELSE pr)
  IN IF pr.s # "S" THEN n ELSE [n EXCEPT !.pr[m.fr] = [pr2 EXCEPT !.sn = TRUE]]

TransferLeader(n, m) ==
  LET to == m.fr
      n1 == [n EXCEPT !.xf = Nil]
      n2 == [n1 EXCEPT !.ee = 0, !.xf = to]
  IN IF n.pr[to].ln \/ n.xf = to THEN n
     ELSE IF to = n.id THEN n1
     ELSE IF n.pr[to].m = LastIndex(n) THEN Send(n2, Msg("MsgTimeoutNow", to))
     ELSE SendAppend(n2, to)

LastCtx(n) == IF Len(n.ro) = 0 THEN "" ELSE n.ro[Len(n.ro)].c

StepLeader(n, m) ==
  CASE m.y = "MsgBeat" -> BcastHeartbeat(n, LastCtx(n))
    [] m.y = "MsgCheckQuorum" -> CheckQuorum(n)
    [] m.y = "MsgProp" -> LeaderProp(n, m)
    [] m.y = "MsgReadIndex" -> LeaderReadIndex(n, m)
    [] m.y \notin {"MsgBeat", "MsgCheckQuorum", "MsgProp", "MsgReadIndex"}
         /\ m.fr \notin DOMAIN n.pr -> n
    [] m.y = "MsgAppResp" /\ m.fr \in DOMAIN n.pr ->
         LET n1 == [n EXCEPT !.pr[m.fr].ra = TRUE]
         IN IF m.rj THEN AppRejected(n1, m) ELSE AppAccepted(n1, m)
    [] m.y = "MsgHeartbeatResp" /\ m.fr \in DOMAIN n.pr -> HeartbeatResp(n, m)
    [] m.y = "MsgSnapStatus" /\ m.fr \in DOMAIN n.pr -> SnapStatus(n, m)
    [] m.y = "MsgUnreachable" /\ m.fr \in DOMAIN n.pr ->
         IF n.pr[m.fr].s = "R" THEN [n EXCEPT !.pr[m.fr] = ToProbe(@)] ELSE n
    [] m.y = "MsgTransferLeader" /\ m.fr \in DOMAIN n.pr -> TransferLeader(n, m)
    [] OTHER -> n

(************************** appends and snapshots **************************)
HandleAppend(n, m) ==
  LET resp == Msg("MsgAppResp", m.fr)
      last == m.ix + Len(m.en)
      ci == FindConflict(n, m.en)
      n1 == IF ci = 0 THEN n
            ELSE IF ci <= n.cm THEN Fatal(n)
            ELSE LogAppend(n, SubSeq(m.en, ci - m.ix, Len(m.en)))
      n2 == IF n1.ft THEN n1 ELSE CommitTo(n1, MinOf(m.cm, last))
      h == FindConflictByTerm(n, MinOf(m.ix, LastIndex(n)), m.lt)
  IN IF n.ft THEN n
     ELSE IF m.ix < n.cm THEN Send(n, [resp EXCEPT !.ix = n.cm])
     ELSE IF MatchTerm(n, m.ix, m.lt) THEN Send(n2, [resp EXCEPT !.ix = last])
     ELSE Send(n, [resp EXCEPT !.ix = m.ix, !.rj = TRUE, !.rh = h, !.lt = TermAt(n, h)])

HandleHeartbeat(n, m) ==
  Send(CommitTo(n, m.cm), [Msg("MsgHeartbeatResp", m.fr) EXCEPT !.cx = m.cx])

HandleSnapshot(n, m) ==
  LET s == IF m.sn = <<>> THEN NoSnap ELSE m.sn[1]
      sc == CfgOf(s.c)
      resp == Msg("MsgAppResp", m.fr)
      ignored(x) == Send(x, [resp EXCEPT !.ix = x.cm])
      n1 == [n EXCEPT !.cm = s.i, !.ba = s.i, !.bt = s.t, !.lg = <<>>, !.un = 0, !.us = s,
                      !.vo = <<>>]
      prs == RestoredPrs(s.c, s.i)
      n2 == SwitchToConfig(n1, sc, prs)
      n3 == [n2 EXCEPT !.pr[n.id] = PrUpdate(@, @.n - 1)]
  IN IF n.ft THEN n
     ELSE IF s.i <= n.cm \/ n.id \notin MembersOf(sc) THEN ignored(n)
     ELSE IF MatchTerm(n, s.i, s.t) THEN LET x == CommitTo(n, s.i) IN ignored(x)
     ELSE IF ~RestoreOK(s.c) THEN Fatal(n)
     ELSE Send(n3, [resp EXCEPT !.ix = LastIndex(n3)])

FromLeader(n, m) ==
  IF m.y = "MsgApp" THEN HandleAppend(n, m)
  ELSE IF m.y = "MsgHeartbeat" THEN HandleHeartbeat(n, m) ELSE HandleSnapshot(n, m)

LeaderMsgs == {"MsgApp", "MsgHeartbeat", "MsgSnap"}

StepCandidate(n, m) ==
  LET mine == IF n.rl = "P" THEN "MsgPreVoteResp" ELSE "MsgVoteResp"
      n1 == RecordVote(n, m.fr, ~m.rj)
      res == Tally(n1)
  IN IF m.y = "MsgProp" THEN [n EXCEPT !.rc = "dropped"]
     ELSE IF m.y \in LeaderMsgs THEN FromLeader(BecomeFollower(n, m.tm, m.fr), m)
     ELSE IF m.y = mine
     THEN IF res = "won"
          THEN IF n.rl = "P" THEN Campaign(n1, "elect") ELSE BcastAppend(BecomeLeader(n1))
          ELSE IF res = "lost" THEN BecomeFollower(n1, n1.tm, Nil) ELSE n1
     ELSE n

StepFollower(n, m) ==
  CASE m.y = "MsgProp" ->
         IF n.ld = Nil \/ n.cf.dpf THEN [n EXCEPT !.rc = "dropped"]
         ELSE Send(n, [m EXCEPT !.to = n.ld])
    [] m.y \in LeaderMsgs -> FromLeader([n EXCEPT !.ee = 0, !.ld = m.fr], m)
    [] m.y \in {"MsgTransferLeader", "MsgReadIndex"} ->
         IF n.ld = Nil THEN n ELSE Send(n, [m EXCEPT !.to = n.ld])
    [] m.y = "MsgTimeoutNow" -> Hup(n, "xfer")
    [] m.y = "MsgReadIndexResp" ->
         IF Len(m.en) # 1 THEN n ELSE [n EXCEPT !.rs = Append(@, [i |-> m.ix, c |-> m.en[1].d])]
    [] OTHER -> n

(********************************** Step ***********************************)
CanVote(n, m) ==
  \/ n.vt = m.fr
  \/ n.vt = Nil /\ n.ld = Nil
  \/ m.y = "MsgPreVote" /\ m.tm > n.tm

HandleVote(n, m) ==
  LET resp == Msg(IF m.y = "MsgVote" THEN "MsgVoteResp" ELSE "MsgPreVoteResp", m.fr)
      n1 == Send(n, [resp EXCEPT !.tm = m.tm])
  IN IF n.ft THEN n
     ELSE IF CanVote(n, m) /\ UpToDate(n, m.ix, m.lt)
     THEN IF m.y = "MsgVote" THEN [n1 EXCEPT !.ee = 0, !.vt = m.fr] ELSE n1
     ELSE Send(n, [resp EXCEPT !.tm = n.tm, !.rj = TRUE])

InLease(n) == n.cf.cq /\ n.ld # Nil /\ n.ee < n.cf.et

Dispatch(n, m) ==
  IF n.ft THEN n
  ELSE IF m.y = "MsgHup" THEN Hup(n, IF n.cf.pv THEN "pre" ELSE "elect")
  ELSE IF m.y \in {"MsgVote", "MsgPreVote"} THEN HandleVote(n, m)
  ELSE IF n.rl = "L" THEN StepLeader(n, m)
  ELSE IF n.rl = "F" THEN StepFollower(n, m)
  ELSE StepCandidate(n, m)

Step(n, m) ==
  IF m.tm = 0 THEN Dispatch(n, m)
  ELSE IF m.tm > n.tm
  THEN IF m.y \in {"MsgVote", "MsgPreVote"} /\ m.cx # "CampaignTransfer" /\ InLease(n) THEN n
       ELSE IF m.y = "MsgPreVote" \/ (m.y = "MsgPreVoteResp" /\ ~m.rj) THEN Dispatch(n, m)
       ELSE Dispatch(BecomeFollower(n, m.tm, IF m.y \in LeaderMsgs THEN m.fr ELSE Nil), m)
  ELSE IF m.tm < n.tm
  THEN IF (n.cf.cq \/ n.cf.pv) /\ m.y \in {"MsgHeartbeat", "MsgApp"}
       THEN Send(n, Msg("MsgAppResp", m.fr))
       ELSE IF m.y = "MsgPreVote"
       THEN Send(n, [Msg("MsgPreVoteResp", m.fr) EXCEPT !.tm = n.tm, !.rj = TRUE])
       ELSE n
  ELSE Dispatch(n, m)

(***************************** public operations ***************************)
Begin(n) == [n EXCEPT !.rc = "ok", !.ft = FALSE]

LocalTypes == {"MsgHup", "MsgBeat", "MsgUnreachable", "MsgSnapStatus", "MsgCheckQuorum"}
RespTypes == {"MsgAppResp", "MsgVoteResp", "MsgHeartbeatResp", "MsgPreVoteResp"}

\* What a message says must be so: m was emitted by the call that led to n.
Forwarded == {"MsgProp", "MsgReadIndex", "MsgTransferLeader"}
MsgWrong(n, m) ==
  \/ m.to = Nil \/ m.to = n.id \/ m.y \in LocalTypes
  \/ m.y \notin Forwarded /\ m.fr # n.id
  \/ m.y \in Forwarded /\ m.to # n.ld
  \/ m.y \in {"MsgProp", "MsgReadIndex"} /\ m.tm # 0
  \/ m.y = "MsgPreVote" /\ m.tm # n.tm + 1
  \/ m.y = "MsgPreVoteResp" /\ (IF m.rj THEN m.tm # n.tm ELSE m.tm < n.tm)
  \/ m.y \notin {"MsgProp", "MsgReadIndex", "MsgPreVote", "MsgPreVoteResp"} /\ m.tm # n.tm
  \/ m.y \in {"MsgVote", "MsgPreVote"} /\ (m.ix # LastIndex(n) \/ m.lt # LastTerm(n))
  \/ m.y = "MsgApp" /\ (\/ m.cm > n.cm
                        \/ m.ix >= n.ba /\ m.lt # TermAt(n, m.ix)
                        \/ m.ix + Len(m.en) > LastIndex(n)
                        \/ \E k \in 1..Len(m.en) : m.ix + k > n.ba /\ m.en[k] # EntAt(n, m.ix + k))
  \/ m.y = "MsgHeartbeat" /\ (m.cm > n.cm \/ (m.to \in DOMAIN n.pr /\ m.cm > n.pr[m.to].m))
  \/ m.y = "MsgAppResp" /\ (IF m.rj THEN m.rh > LastIndex(n) \/ (m.rh >= n.ba /\ m.lt # TermAt(n, m.rh))
                            ELSE m.ix > LastIndex(n))
  \/ m.y = "MsgSnap" /\ (Len(m.sn) # 1 \/ m.sn[1] \notin {n.us, n.ss} \/ m.sn[1].i = 0)

\* A change of role or term from n to o leaves nothing of the old role behind.
Leftover(n, o) ==
  (n.rl # o.rl \/ n.tm # o.tm)
  /\ \/ o.rl # "L" /\ (o.xf # Nil \/ o.uz # 0 \/ o.ro # <<>>)
     \/ o.rl = "F" /\ o.vo # <<>>
     \/ o.rl \in {"C", "P"} /\ (o.ld # Nil \/ ~(o.id \in DOMAIN o.vo /\ o.vo[o.id]))
     \/ o.rl = "C" /\ o.vt # o.id
     \/ o.rl = "P" /\ (o.tm # n.tm \/ o.vt # n.vt)
     \/ o.rl = "L" /\ (\/ o.ld # o.id \/ o.xf # Nil
                      \/ LastIndex(o) <= LastIndex(n)
                      \/ LET e == EntAt(o, LastIndex(n) + 1) IN e.t # o.tm \/ e.y # 0 \/ e.d # ""
                      \/ \E id \in DOMAIN o.pr \ {o.id} : o.pr[id].m # 0 \/ o.pr[id].s = "R" \/ o.pr[id].ra)

OpStep(n, m) ==
  IF m.y \in LocalTypes THEN [n EXCEPT !.rc = "local"]
  ELSE IF m.fr \in DOMAIN n.pr \/ m.y \notin RespTypes THEN Step(n, m)
  ELSE [n EXCEPT !.rc = "nopeer"]

Local(y, from) == [Msg(y, 0) EXCEPT !.fr = from]

OpTick(n) ==
  IF n.rl = "L"
  THEN LET n1 == [n EXCEPT !.he = @ + 1, !.ee = @ + 1]
           due == n1.ee >= n.cf.et
           n2 == IF ~due THEN n1
                 ELSE IF n.cf.cq THEN Step([n1 EXCEPT !.ee = 0], Local("MsgCheckQuorum", n.id))
                 ELSE [n1 EXCEPT !.ee = 0]
           n3 == IF due /\ n2.rl = "L" THEN [n2 EXCEPT !.xf = Nil] ELSE n2
       IN IF n3.rl # "L" \/ n3.ft THEN n3
          ELSE IF n3.he >= n.cf.ht THEN Step([n3 EXCEPT !.he = 0], Local("MsgBeat", n.id))
          ELSE n3
  ELSE LET n1 == [n EXCEPT !.ee = @ + 1]
           n2 == Step([n1 EXCEPT !.ee = 0], Local("MsgHup", n.id))
       IN IF Promotable(n1) /\ n1.ee >= n1.rt THEN [n2 EXCEPT !.rc = "ok"] ELSE n1

OpTickQuiesced(n) == [n EXCEPT !.ee = @ + 1]
OpCampaign(n) == Step(n, Local("MsgHup", 0))
\* e: the proposed entry without index and term
OpPropose(n, e) == Step(n, [Local("MsgProp", n.id) EXCEPT !.en = <<e>>])
OpProposeConf(n, e) == Step(n, [Local("MsgProp", 0) EXCEPT !.en = <<e>>])
OpReadIndex(n, e) == Step(n, [Local("MsgReadIndex", 0) EXCEPT !.en = <<e>>])
Silent(n) == [n EXCEPT !.rc = "ok"]
OpUnreachable(n, id) == Silent(Step(n, Local("MsgUnreachable", id)))
OpSnapStatus(n, id, rej) == Silent(Step(n, [Local("MsgSnapStatus", id) EXCEPT !.rj = rej]))
OpTransfer(n, id) == Silent(Step(n, Local("MsgTransferLeader", id)))
OpApplyConf(n, cc) == ApplyConfChange(n, cc)

(****************************** Ready / Advance ****************************)
UnstableEnts(n) == SubSeq(n.lg, Len(n.lg) - n.un + 1, Len(n.lg))
NextEnts(n) ==
  LET off == MaxOf(n.ap + 1, FirstIndex(n))
  IN IF n.cm + 1 > off THEN LimitSize(Sub(n, off, n.cm), n.cf.maxcomm) ELSE <<>>

HardState(n) == [tm |-> n.tm, vt |-> n.vt, cm |-> n.cm]
SoftState(n) == [ld |-> n.ld, rl |-> n.rl]

ReadyOf(n) ==
  [en |-> UnstableEnts(n), ce |-> NextEnts(n), ms |-> n.ms,
   sf |-> IF SoftState(n) = n.psf THEN <<>> ELSE <<SoftState(n)>>,
   hs |-> IF HardState(n) = n.phd THEN NoHS ELSE HardState(n),
   sn |-> n.us, rs |-> n.rs,
   sy |-> n.un # 0 \/ n.vt # n.phd.vt \/ n.tm # n.phd.tm]

HasReady(n) ==
  \/ SoftState(n) # n.psf
  \/ HardState(n) # NoHS /\ HardState(n) # n.phd
  \/ n.us.i # 0
  \/ n.ms # <<>> \/ n.un # 0 \/ n.rs # <<>>
  \/ n.cm + 1 > MaxOf(n.ap + 1, FirstIndex(n))

OpReady(n) ==
  [n EXCEPT !.rd = ReadyOf(n), !.psf = SoftState(n), !.rs = <<>>, !.ms = <<>>]

AutoLeaveEntry(n) == NewEntry(n, 1, 2, "", 0, 6, EmptyCC)

OpAdvance(n) ==
  LET rd == n.rd
      n1 == [n EXCEPT !.phd = IF rd.hs = NoHS THEN @ ELSE rd.hs, !.rd = NoRd]
      n2 == ReduceUncommitted(n1, rd.ce)
      new == IF Len(rd.ce) > 0 THEN rd.ce[Len(rd.ce)].i ELSE rd.sn.i
      old == n.ap
      n3 == IF new = 0 THEN n2
            ELSE IF n2.cm < new \/ new < n2.ap THEN Fatal(n2) ELSE [n2 EXCEPT !.ap = new]
      leave == new > 0 /\ n3.cg.al /\ old <= n3.pc /\ new >= n3.pc /\ n3.rl = "L"
      n4 == IF ~leave THEN n3
            ELSE LET x == AppendEntries(n3, <<AutoLeaveEntry(n3)>>)
                 IN [x EXCEPT !.pc = LastIndex(x)]
      le == rd.en[Len(rd.en)]
      n5 == IF Len(rd.en) > 0 /\ le.i >= Uoff(n4) /\ le.i <= LastIndex(n4) /\ TermAt(n4, le.i) = le.t
            THEN [n4 EXCEPT !.un = LastIndex(n4) - le.i] ELSE n4
      n6 == IF rd.sn.i # 0 /\ n5.us.i = rd.sn.i THEN [n5 EXCEPT !.us = NoSnap] ELSE n5
  IN IF n3.ft THEN n3 ELSE IF n4.ft THEN n4 ELSE n6

(*************************** storage and life cycle ************************)
StLast(n) == n.sb + Len(n.sl)
StAppend(n, es) ==
  IF Len(es) = 0 THEN n
  ELSE LET last == es[1].i + Len(es) - 1
           es2 == IF es[1].i <= n.sb THEN SubSeq(es, n.sb - es[1].i + 2, Len(es)) ELSE es
       IN IF last <= n.sb THEN n
          ELSE IF es2[1].i > StLast(n) + 1 THEN Fatal(n)
          ELSE [n EXCEPT !.sl = SubSeq(@, 1, es2[1].i - 1 - n.sb) \o es2]
StSnapshot(n, s) ==
  IF n.ss.i >= s.i THEN n
  ELSE [n EXCEPT !.ss = s, !.sb = s.i, !.sbt = s.t, !.sl = <<>>]

\* The application makes the Ready it holds durable (snapshot, entries, hard state).
OpPersist(n) ==
  LET rd == n.rd
      n1 == IF rd.sn.i # 0 THEN StSnapshot(n, rd.sn) ELSE n
      n2 == StAppend(n1, rd.en)
  IN IF rd.hs = NoHS THEN n2 ELSE [n2 EXCEPT !.hs = rd.hs]

\* The application snapshots its state at index i and discards the log up to k.
OpSnapshot(n, i, cs, d) ==
  IF i <= n.ss.i THEN [n EXCEPT !.rc = "err"]
  ELSE IF i > StLast(n) THEN Fatal(n)
  ELSE [n EXCEPT !.ss = [i |-> i, t |-> IF i = n.sb THEN n.sbt ELSE n.sl[i - n.sb].t,
                         d |-> d, c |-> cs]]
OpCompact(n, k) ==
  IF k <= n.sb THEN [n EXCEPT !.rc = "err"]
  ELSE IF k > StLast(n) THEN Fatal(n)
  ELSE LET x == [n EXCEPT !.sb = k, !.sbt = n.sl[k - n.sb].t,
                          !.sl = SubSeq(@, k - n.sb + 1, Len(@))]
       IN IF n.us.i # 0 THEN x
          ELSE [x EXCEPT !.ba = k, !.bt = TermAt(n, k), !.lg = SubSeq(n.lg, k - n.ba + 1, Len(n.lg))]

\* Limits of 0 mean: no limit for uncommitted entries, the message limit for committed ones.
EffCf(cf) == [cf EXCEPT !.maxunc = IF @ = 0 THEN NoLimit ELSE @,
                        !.maxcomm = IF @ = 0 THEN cf.maxmsg ELSE @]

\* A node created over storage st = [sb, sbt, sl, ss, hs].
NewNode(id, cf, st, applied) ==
  LET last == st.sb + Len(st.sl)
      base == [id |-> id, cf |-> EffCf(cf), tm |-> 0, vt |-> 0, ld |-> 0, rl |-> "F", il |-> FALSE,
               cm |-> st.sb, ap |-> st.sb, ba |-> st.sb, bt |-> st.sbt, lg |-> st.sl, un |-> 0,
               us |-> NoSnap, cg |-> EmptyCfg, pr |-> <<>>, vo |-> <<>>, xf |-> 0, pc |-> 0,
               uz |-> 0, ee |-> 0, he |-> 0, rt |-> AnyTimeout, ro |-> <<>>, rs |-> <<>>,
               pri |-> <<>>, ms |-> <<>>, psf |-> [ld |-> 0, rl |-> "F"], phd |-> NoHS, rd |-> NoRd,
               sb |-> st.sb, sbt |-> st.sbt, sl |-> st.sl, ss |-> st.ss, hs |-> st.hs,
               rc |-> "ok", ft |-> FALSE, xb |-> <<>>, su |-> FALSE]
      n1 == [base EXCEPT !.cg = CfgOf(st.ss.c), !.pr = RestoredPrs(st.ss.c, last),
                         !.il = id \in RangeOf(st.ss.c.l)]
      n2 == IF st.hs = NoHS THEN n1
            ELSE IF st.hs.cm < n1.cm \/ st.hs.cm > last THEN Fatal(n1)
            ELSE [n1 EXCEPT !.cm = st.hs.cm, !.tm = st.hs.tm, !.vt = st.hs.vt]
      n3 == IF n2.ft \/ applied = 0 THEN n2
            ELSE IF n2.cm < applied \/ applied < n2.ap THEN Fatal(n2)
            ELSE [n2 EXCEPT !.ap = applied]
      n4 == BecomeFollower(n3, n3.tm, Nil)
  IN IF ~RestoreOK(st.ss.c) THEN Fatal(base)
     ELSE IF n3.ft THEN n3 ELSE [n4 EXCEPT !.psf = SoftState(n4), !.phd = HardState(n4)]

\* es: one add-voter entry per initial member, at term 1 and indexes 1..Len(es)
OpBootstrap(n, es) ==
  LET n1 == BecomeFollower([n EXCEPT !.phd = NoHS], 1, Nil)
      n2 == LogAppend(n1, es)
      n3 == [n2 EXCEPT !.cm = Len(es)]
  IN IF Len(es) = 0 \/ StLast(n) # 0 THEN [n EXCEPT !.rc = "err"]
     ELSE IF n2.ft THEN n2
     ELSE FoldLeft(LAMBDA a, e : IF a.ft THEN a
                                 ELSE ApplyConfChange(a, [tr |-> 0, ch |-> e.c.ch]), n3, es)
=============================================================================
