----------------------------- MODULE ConfChange -----------------------------
(***************************************************************************)
(* Membership: quorum arithmetic (majority and joint), the configuration   *)
(* transitions simple / enter-joint / leave-joint, and the reconstruction  *)
(* of a configuration from a persisted ConfState.                          *)
(* Anchors: src/quorum/*, src/confchange/*, src/tracker/tracker.cc,        *)
(* src/raftpb/confchange.cc.                                               *)
(*                                                                         *)
(* cfg  = [inc, out, lr, ln : SUBSET Nat, al : BOOLEAN]                    *)
(* prs  = function from member id to a replication-progress record         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

NoLimit == 1000000000            \* stands for 2^64-1 (TLC integers are 32 bit)

MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
RangeOf(s) == {s[k] : k \in DOMAIN s}

(********************************* quorums *********************************)
QSize(C) == (Cardinality(C) \div 2) + 1

\* votes: function from a subset of ids to BOOLEAN
MajVote(C, votes) ==
  IF C = {} THEN "won"
  ELSE LET yes  == Cardinality({v \in C : v \in DOMAIN votes /\ votes[v]})
           miss == Cardinality({v \in C : v \notin DOMAIN votes})
       IN IF yes >= QSize(C) THEN "won"
          ELSE IF yes + miss >= QSize(C) THEN "pending" ELSE "lost"

JointVote(I, O, votes) ==
  LET a == MajVote(I, votes)
      b == MajVote(O, votes)
  IN IF a = b THEN a ELSE IF a = "lost" \/ b = "lost" THEN "lost" ELSE "pending"

\* acked: function from a subset of ids to the index they acknowledged
MajCommitted(C, acked) ==
  IF C = {} THEN NoLimit
  ELSE LET A(v)  == IF v \in DOMAIN acked THEN acked[v] ELSE 0
           cand  == {0} \cup {A(v) : v \in C}
           good  == {x \in cand : Cardinality({v \in C : A(v) >= x}) >= QSize(C)}
       IN CHOOSE x \in good : \A y \in good : y <= x

JointCommitted(I, O, acked) == MinOf(MajCommitted(I, acked), MajCommitted(O, acked))

(***************************** configurations ******************************)
EmptyCfg == [inc |-> {}, out |-> {}, lr |-> {}, ln |-> {}, al |-> FALSE]
Joint(cfg) == cfg.out # {}
VotersOf(cfg) == cfg.inc \cup cfg.out
MembersOf(cfg) == cfg.inc \cup cfg.out \cup cfg.lr

NewProgress(next, learner, active) ==
  [m |-> 0, n |-> next, s |-> "P", ps |-> 0, ra |-> active, sn |-> FALSE,
   ln |-> learner, if |-> <<>>]

Without(f, id) == [k \in DOMAIN f \ {id} |-> f[k]]
With(f, id, v) == [k \in DOMAIN f \cup {id} |-> IF k = id THEN v ELSE f[k]]

\* The invariants every configuration has to satisfy.
CfgInvariant(cfg, prs) ==
  /\ VotersOf(cfg) \subseteq DOMAIN prs
  /\ cfg.lr \subseteq DOMAIN prs
  /\ cfg.ln \subseteq DOMAIN prs
  /\ \A id \in cfg.ln : id \in cfg.out /\ ~prs[id].ln
  /\ \A id \in cfg.lr : id \notin cfg.out /\ id \notin cfg.inc /\ prs[id].ln
  /\ ~Joint(cfg) => cfg.ln = {} /\ ~cfg.al

Res(ok, cfg, prs) == [ok |-> ok, cfg |-> cfg, prs |-> prs]
Bad == Res(FALSE, EmptyCfg, <<>>)
Checked(cfg, prs) == IF CfgInvariant(cfg, prs) THEN Res(TRUE, cfg, prs) ELSE Bad

InitPr(r, id, learner, last) ==
  [r EXCEPT !.cfg.inc = IF learner THEN @ ELSE @ \cup {id},
            !.cfg.lr  = IF learner THEN @ \cup {id} ELSE @,
            !.prs = With(@, id, NewProgress(last, learner, TRUE))]

MakeVoter(r, id, last) ==
  IF id \notin DOMAIN r.prs THEN InitPr(r, id, FALSE, last)
  ELSE [r EXCEPT !.prs[id].ln = FALSE,
                 !.cfg.lr = @ \ {id}, !.cfg.ln = @ \ {id},
                 !.cfg.inc = @ \cup {id}]

RemoveId(r, id) ==
  IF id \notin DOMAIN r.prs THEN r
  ELSE [r EXCEPT !.cfg.inc = @ \ {id}, !.cfg.lr = @ \ {id}, !.cfg.ln = @ \ {id},
                 !.prs = IF id \in r.cfg.out THEN @ ELSE Without(@, id)]

MakeLearner(r, id, last) ==
  IF id \notin DOMAIN r.prs THEN InitPr(r, id, TRUE, last)
  ELSE IF r.prs[id].ln THEN r
  ELSE LET pr == r.prs[id]
           r1 == RemoveId(r, id)
           r2 == [r1 EXCEPT !.prs = With(@, id, pr)]
       IN IF id \in r2.cfg.out
          THEN [r2 EXCEPT !.cfg.ln = @ \cup {id}]
          ELSE [r2 EXCEPT !.prs[id].ln = TRUE, !.cfg.lr = @ \cup {id}]

\* One change: y = 0 add voter, 1 remove, 2 update (no-op), 3 add learner.
ApplyOne(r, c, last) ==
  IF c.n = 0 \/ c.y = 2 THEN r
  ELSE IF c.y = 0 THEN MakeVoter(r, c.n, last)
  ELSE IF c.y = 3 THEN MakeLearner(r, c.n, last)
  ELSE RemoveId(r, c.n)

RECURSIVE ApplyAll(_, _, _, _)
ApplyAll(r, ccs, k, last) ==
  IF k > Len(ccs) THEN r ELSE ApplyAll(ApplyOne(r, ccs[k], last), ccs, k + 1, last)

SymDifference(A, B) == (A \ B) \cup (B \ A)

Simple(cfg, prs, ccs, last) ==
  IF ~CfgInvariant(cfg, prs) \/ Joint(cfg) THEN Bad
  ELSE LET r == ApplyAll(Res(TRUE, cfg, prs), ccs, 1, last)
       IN IF r.cfg.inc = {} \/ Cardinality(SymDifference(cfg.inc, r.cfg.inc)) > 1
          THEN Bad ELSE Checked(r.cfg, r.prs)

EnterJoint(cfg, prs, auto, ccs, last) ==
  IF ~CfgInvariant(cfg, prs) \/ Joint(cfg) \/ cfg.inc = {} THEN Bad
  ELSE LET r == ApplyAll(Res(TRUE, [cfg EXCEPT !.out = cfg.inc], prs), ccs, 1, last)
       IN IF r.cfg.inc = {} THEN Bad
          ELSE Checked([r.cfg EXCEPT !.al = auto], r.prs)

LeaveJoint(cfg, prs) ==
  IF ~CfgInvariant(cfg, prs) \/ ~Joint(cfg) THEN Bad
  ELSE LET lr2  == cfg.lr \cup cfg.ln
           keep == {id \in DOMAIN prs : id \notin cfg.out \/ id \in cfg.inc \/ id \in lr2}
           prs2 == [id \in keep |-> IF id \in cfg.ln THEN [prs[id] EXCEPT !.ln = TRUE]
                                    ELSE prs[id]]
       IN Checked([cfg EXCEPT !.lr = lr2, !.ln = {}, !.out = {}, !.al = FALSE], prs2)

\* cc = [tr |-> 0 auto / 1 joint implicit / 2 joint explicit, ch |-> seq of changes]
IsLeave(cc) == cc.tr = 0 /\ Len(cc.ch) = 0
UsesJoint(cc) == cc.tr # 0 \/ Len(cc.ch) > 1
AutoLeaves(cc) == cc.tr # 2

\* What applying a committed configuration change does.
ApplyCC(cfg, prs, cc, last) ==
  IF IsLeave(cc) THEN LeaveJoint(cfg, prs)
  ELSE IF UsesJoint(cc) THEN EnterJoint(cfg, prs, AutoLeaves(cc), cc.ch, last)
  ELSE Simple(cfg, prs, cc.ch, last)

(******************************** ConfState ********************************)
\* cs = [v, vo, l, ln : ascending sequences of ids, al : BOOLEAN]
SortedIds(S) == SetToSortSeq(S, <)
CS(cfg) == [v |-> SortedIds(cfg.inc), vo |-> SortedIds(cfg.out), l |-> SortedIds(cfg.lr),
            ln |-> SortedIds(cfg.ln), al |-> cfg.al]
EmptyCS == [v |-> <<>>, vo |-> <<>>, l |-> <<>>, ln |-> <<>>, al |-> FALSE]

\* The configuration a ConfState denotes, started from nothing (declarative:
\* not the sequence of changes the implementation replays to get there).
CfgOf(cs) == [inc |-> RangeOf(cs.v), out |-> RangeOf(cs.vo), lr |-> RangeOf(cs.l),
              ln |-> RangeOf(cs.ln), al |-> cs.al]
RestoreOKCfg(c) ==
  /\ c.out # {} => c.inc # {}
  /\ (c.inc = {}) => (c.lr = {})
  /\ c.lr \cap (c.inc \cup c.out) = {}
  /\ c.ln \subseteq (c.out \ c.inc)
  /\ c.out = {} => (~c.al /\ c.ln = {})
RestoreOK(cs) == RestoreOKCfg(CfgOf(cs))
RestoredPrs(cs, last) ==
  LET c == CfgOf(cs)
  IN [id \in MembersOf(c) |-> NewProgress(last, id \in c.lr, TRUE)]
=============================================================================
