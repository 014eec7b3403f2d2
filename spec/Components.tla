----------------------------- MODULE Components -----------------------------
(***************************************************************************)
(* The components of the library one by one: a recorded line carries the   *)
(* state before an operation, its arguments, its result, the state after   *)
(* it, and answers to queries on that state.  CompTags(e) is the set of    *)
(* things in which the line differs from what the specification says.      *)
(* Everything is defined with the operators of ConfChange and RaftNode.    *)
(***************************************************************************)
EXTENDS RaftNode

Df(cond, tag) == IF cond THEN {} ELSE {tag}       \* cond has to hold
Opt(e, f, default) == IF f \in DOMAIN e THEN e[f] ELSE default
Panicked(e) == "x" \in DOMAIN e

FunOf(j) == [id \in {j[k].id : k \in 1..Len(j)} |-> (j[CHOOSE k \in 1..Len(j) : j[k].id = id]).v]
CfgJ(j) == [inc |-> RangeOf(j.inc), out |-> RangeOf(j.out), lr |-> RangeOf(j.lr),
            ln |-> RangeOf(j.ln), al |-> j.al]
PrJ(p) == [m |-> p.m, n |-> p.n, s |-> p.s, ps |-> p.ps, ra |-> p.ra, sn |-> p.sn, ln |-> p.ln, if |-> p.if]
PrsJ(j) == [id \in {j[k].id : k \in 1..Len(j)} |-> PrJ(j[CHOOSE k \in 1..Len(j) : j[k].id = id])]

(********************************* quorums *********************************)
QuorumTags(e) ==
  LET I == RangeOf(e.inc)
      O == RangeOf(e.out)
      a == FunOf(e.ack)
      v == FunOf(e.v)
  IN Df(e.mc = MajCommitted(I, a), "committed.major") \cup Df(e.jc = JointCommitted(I, O, a), "committed.joint")
     \cup Df(e.mv = MajVote(I, v), "vote.major") \cup Df(e.jv = JointVote(I, O, v), "vote.joint")
     \cup Df(RangeOf(e.ids) = I \cup O, "ids")

TrackerTags(e) ==
  LET cg == CfgJ(e.cg)
      pr == PrsJ(e.pr)
      v  == FunOf(e.v)
      ack == [id \in DOMAIN pr |-> pr[id].m]
      act == [id \in {x \in DOMAIN pr : ~pr[x].ln} |-> pr[id].ra]
      asked == {id \in DOMAIN pr : ~pr[id].ln /\ id \in DOMAIN v}
  IN Df(e.cm = JointCommitted(cg.inc, cg.out, ack), "committed.tracker")
     \cup Df(e.qa = (JointVote(cg.inc, cg.out, act) = "won"), "active")
     \cup Df(e.gr = Cardinality({id \in asked : v[id]}) /\ e.rj = Cardinality({id \in asked : ~v[id]}), "tally")
     \cup Df(e.res = JointVote(cg.inc, cg.out, v), "vote.tracker")
     \cup Df(e.one = (Cardinality(cg.inc) = 1 /\ cg.out = {}), "singleton")
     \cup Df(e.vn = SortedIds(VotersOf(cg)), "voters") \cup Df(e.ln = SortedIds(cg.lr), "learners")
     \cup Df(e.vis = SortedIds(DOMAIN pr), "visit") \cup Df(e.cs = CS(cg), "confstate") \cup Df(e.same, "changed")

(************************** configuration changes **************************)
ChangeTags(e, r) ==
  Df(e.same, "mutated") \cup
  IF ~r.ok THEN Df(e.rc # "ok", "accepted")
  ELSE IF e.rc # "ok" THEN {"refused"}
  ELSE Df(CfgJ(e.cg2) = r.cfg, "cfg") \cup Df(PrsJ(e.pr2) = r.prs, "prs")
       \cup Df(CfgInvariant(CfgJ(e.cg2), PrsJ(e.pr2)), "invariant") \cup Df(e.own, "shared")

RestoreTags(e) ==
  IF ~RestoreOK(e.c) THEN Df(e.rc # "ok", "accepted")
  ELSE IF e.rc # "ok" THEN {"refused"}
  ELSE Df(CfgJ(e.cg2) = CfgOf(e.c), "cfg") \cup Df(PrsJ(e.pr2) = RestoredPrs(e.c, e.last), "prs")
       \cup Df(e.cs2 = e.c, "roundtrip") \cup Df(e.eq, "equal")

\* a change as it is proposed, encoded and read back
ConvTags(e) ==
  Df(e.ok, "encode") \cup Df(e.ty = (IF e.v1 THEN 1 ELSE 2), "type")
  \cup Df(e.dec = e.cc /\ e.dx = e.ctx, "decode") \cup Df(e.as = e.cc /\ e.ax = e.ctx, "asv2")
  \cup Df(e.one = e.v1, "asv1") \cup Df(e.uj = UsesJoint(e.cc), "joint")
  \cup Df(e.uj => e.al = AutoLeaves(e.cc), "autoleave") \cup Df(e.lv = IsLeave(e.cc), "leave") \cup Df(e.str, "string")

(*********************************** log ***********************************)
StoreFields == {"sb", "sbt", "ss", "hs", "sl"}
LogFields == {"ba", "bt", "lg", "un", "us", "cm", "ap"}
\* just enough of a node for the log operators
LogNode(s, mx) ==
  [id |-> 1, tm |-> 0, ba |-> Opt(s, "ba", s.sb), bt |-> Opt(s, "bt", s.sbt), lg |-> Opt(s, "lg", s.sl),
   un |-> Opt(s, "un", 0), us |-> Opt(s, "us", NoSnap), cm |-> Opt(s, "cm", s.sb), ap |-> Opt(s, "ap", s.sb),
   sb |-> s.sb, sbt |-> s.sbt, ss |-> s.ss, hs |-> s.hs, sl |-> s.sl, ft |-> FALSE, rc |-> "ok",
   cf |-> [maxcomm |-> mx]]

MaybeAppend(n, ix, lt, cm, en) ==
  LET last == ix + Len(en)
      ci == FindConflict(n, en)
      n1 == IF ci = 0 THEN n
            ELSE IF ci <= n.cm THEN Fatal(n)
            ELSE LogAppend(n, SubSeq(en, ci - ix, Len(en)))
  IN IF ~MatchTerm(n, ix, lt) THEN [n |-> n, r |-> 0, yes |-> FALSE]
     ELSE IF n1.ft THEN [n |-> n1, r |-> 0, yes |-> TRUE]
     ELSE [n |-> CommitTo(n1, MinOf(cm, last)), r |-> last, yes |-> TRUE]

StableTo(n, i, t) ==
  IF i >= Uoff(n) /\ i <= LastIndex(n) /\ TermAt(n, i) = t THEN [n EXCEPT !.un = LastIndex(n) - i] ELSE n

AppliedTo(n, i) ==
  IF i = 0 THEN n ELSE IF n.cm < i \/ i < n.ap THEN Fatal(n) ELSE [n EXCEPT !.ap = i]

PersistLog(n) ==
  StAppend(IF n.us.i # 0 THEN StSnapshot(n, n.us) ELSE n, UnstableEnts(n))

LogAfter(e, n) ==
  CASE e.op = "log.new" -> n
    [] e.op = "log.append" -> LogAppend(n, e.en)
    [] e.op = "log.mappend" -> MaybeAppend(n, e.ix, e.lt, e.cm, e.en).n
    [] e.op = "log.committo" -> CommitTo(n, e.i)
    [] e.op = "log.maybecommit" -> IF e.i > n.cm /\ TermAt(n, e.i) = e.t THEN CommitTo(n, e.i) ELSE n
    [] e.op = "log.appliedto" -> AppliedTo(n, e.i)
    [] e.op = "log.persist" -> PersistLog(n)
    [] e.op = "log.stableto" -> StableTo(n, e.i, e.t)
    [] e.op = "log.stablesnapto" -> IF n.us.i = e.i THEN [n EXCEPT !.us = NoSnap] ELSE n
    [] e.op = "log.advance" -> LET x == StableTo(n, e.i, e.t) IN IF x.us.i = e.si THEN [x EXCEPT !.us = NoSnap] ELSE x
    [] e.op = "log.restore" -> [n EXCEPT !.cm = e.sn.i, !.ba = e.sn.i, !.bt = e.sn.t, !.lg = <<>>, !.un = 0, !.us = e.sn]
    [] e.op = "log.compact" -> OpCompact(n, e.i)

\* answers to queries on a log
LogQuery(n, q) ==
  CASE q.k = "idx" -> Df(q.f = FirstIndex(n), "first") \cup Df(q.l = LastIndex(n), "last") \cup Df(q.lt = LastTerm(n), "lastterm")
    [] q.k = "term" -> Df(q.r = TermAt(n, q.i) /\ q.c = "ok", "term")
    [] q.k = "slice" ->
         IF q.lo < FirstIndex(n) /\ q.lo < q.hi THEN Df(q.c = "compacted", "slice")
         ELSE IF q.lo = q.hi THEN Df(q.r = <<>>, "slice")
         ELSE Df(q.c = "ok" /\ q.r = LimitSize(Sub(n, q.lo, q.hi - 1), q.mx), "slice")
    [] q.k = "ents" ->
         IF q.i > LastIndex(n) THEN Df(q.c = "ok" /\ q.r = <<>>, "entries")
         ELSE Df(q.c = "ok" /\ q.r = LimitSize(Sub(n, q.i, LastIndex(n)), q.mx), "entries")
    [] q.k = "match" -> Df(q.r = MatchTerm(n, q.i, q.t), "match")
    [] q.k = "utd" -> Df(q.r = UpToDate(n, q.i, q.t), "uptodate")
    [] q.k = "fct" -> Df(q.r = FindConflictByTerm(n, q.i, q.t), "conflictbyterm")
    [] q.k = "fc" -> Df(q.r = FindConflict(n, q.en), "conflict")
    [] q.k = "next" -> Df(q.r = NextEnts(n), "next") \cup Df(q.h = (NextEnts(n) # <<>>), "next.has")
    [] q.k = "held" -> Df(q.r = q.w, "handedout")
    [] q.k = "unst" -> Df(q.r = UnstableEnts(n), "unstable")
    [] q.k = "snap" -> Df(q.h = (n.us.i # 0), "pendingsnap") \cup Df(q.r = (IF n.us.i # 0 THEN n.us ELSE n.ss), "snapshot")

LogTags2(e) ==
  LET n == LogNode(e.s, e.mx)
      x == LogAfter(e, n)
  IN IF x.ft \/ Panicked(e) THEN Df(x.ft = Panicked(e), "panic")
     ELSE LET o == LogNode(e.o, e.mx)
          IN UNION {Df(x[f] = o[f], IF f = "cm" THEN "commit" ELSE IF f = "ap" THEN "applied" ELSE IF f = "un" THEN "unstable"
                                     ELSE IF f = "us" THEN "usnap" ELSE IF f \in StoreFields THEN "store" ELSE "log")
                    : f \in LogFields \cup StoreFields}
             \cup UNION {LogQuery(o, e.q[k]) : k \in 1..Len(e.q)}
             \cup (CASE e.op = "log.append" -> Df(e.r = LastIndex(x), "append.ret")
                     [] e.op = "log.mappend" ->
                          LET m == MaybeAppend(n, e.ix, e.lt, e.cm, e.en)
                          IN Df(e.yes = m.yes /\ e.r = m.r, "append.ret")
                     [] e.op = "log.maybecommit" -> Df(e.yes = (x # n), "commit.ret")
                     [] OTHER -> {})

(********************************* storage *********************************)
StoreAfter(e, n) ==
  CASE e.op = "store.append" -> StAppend(n, e.en)
    [] e.op = "store.applysnap" -> IF n.ss.i >= e.sn.i THEN [n EXCEPT !.rc = "outofdate"] ELSE StSnapshot(n, e.sn)
    [] e.op = "store.createsnap" ->
         LET x == OpSnapshot(n, e.i, IF e.nc THEN n.ss.c ELSE e.cs, e.d)
         IN IF x.rc = "err" THEN [x EXCEPT !.rc = "outofdate"] ELSE x
    [] e.op = "store.compact" ->
         IF e.i <= n.sb THEN [n EXCEPT !.rc = "compacted"]
         ELSE IF e.i > StLast(n) THEN Fatal(n)
         ELSE [n EXCEPT !.sb = e.i, !.sbt = n.sl[e.i - n.sb].t, !.sl = SubSeq(@, e.i - n.sb + 1, Len(@))]
    [] e.op = "store.seths" -> [n EXCEPT !.hs = e.hs]

StTerm(n, i) == IF i = n.sb THEN n.sbt ELSE n.sl[i - n.sb].t
StoreQuery(n, q) ==
  CASE q.k = "idx" -> Df(q.f = n.sb + 1, "first") \cup Df(q.l = StLast(n), "last")
    [] q.k = "term" -> IF q.i < n.sb THEN Df(q.c = "compacted", "term")
                       ELSE IF q.i > StLast(n) THEN Df(q.c = "unavailable", "term")
                       ELSE Df(q.c = "ok" /\ q.r = StTerm(n, q.i), "term")
    [] q.k = "ents" -> IF q.lo <= n.sb THEN Df(q.c = "compacted", "entries")
                       ELSE Df(q.c = "ok" /\ q.r = LimitSize(SubSeq(n.sl, q.lo - n.sb, q.hi - 1 - n.sb), q.mx), "entries")
    [] q.k = "init" -> Df(q.c = "ok" /\ q.hs = n.hs /\ q.cs = n.ss.c, "initial")
    [] q.k = "snap" -> Df(q.c = "ok" /\ q.r = n.ss, "snapshot")

StoreTags(e) ==
  LET n == LogNode(e.s, NoLimit)
      x == StoreAfter(e, n)
  IN IF x.ft \/ Panicked(e) THEN Df(x.ft = Panicked(e), "panic")
     ELSE LET o == LogNode(e.o, NoLimit)
          IN UNION {Df(x[f] = o[f], f) : f \in StoreFields}
             \cup Df(e.rc = x.rc, "ret") \cup Df(e.im, "handedout")
             \cup UNION {StoreQuery(o, e.q[k]) : k \in 1..Len(e.q)}
             \cup (IF e.op = "store.createsnap" /\ x.rc = "ok" THEN Df(e.r = x.ss, "ret.snap") ELSE {})

(************************ storage used by several threads *******************)
\* e.h: the storage after 0, 1, 2, ... writes; e.w: the writes; e.rd: what each reader read, with
\* the first and last state it may have seen.  Every read is an answer in one of those states,
\* and no reader ever goes back.
Answers(n, q) ==
  CASE q.k = "first" -> q.r = n.sb + 1
    [] q.k = "last" -> q.r = StLast(n)
    [] q.k = "term" -> StoreQuery(n, q) = {}
    [] q.k = "snap" -> q.c = "ok" /\ q.r = n.ss
    [] q.k = "ents" -> IF q.f <= n.sb THEN q.c = "compacted"
                       ELSE IF q.t > StLast(n) + 1 THEN q.c = "fatal"
                       ELSE IF n.sl = <<>> THEN q.c = "unavailable"
                       ELSE q.c = "ok" /\ q.r = LimitSize(SubSeq(n.sl, q.f - n.sb, q.t - 1 - n.sb), q.mx)
RECURSIVE Orderly(_, _, _, _)
Orderly(ns, rd, k, from) ==
  IF k > Len(rd) THEN {}
  ELSE LET q == rd[k]
           all == {j \in q.lo..q.hi : Answers(ns[j + 1], q)}
           js == {j \in all : j >= from}
       IN IF all = {} THEN {"torn." \o q.k}
          ELSE IF js = {} THEN {"backwards"}
          ELSE Df(Opt(q, "im", TRUE), "handedout")
               \cup Orderly(ns, rd, k + 1, CHOOSE j \in js : \A i \in js : j <= i)
SharedTags(e) ==
  IF Panicked(e) THEN {"panic"}
  ELSE LET ns == [k \in 1..Len(e.h) |-> LogNode(e.h[k], NoLimit)]
       IN UNION {LET x == StoreAfter(e.w[k], ns[k]) IN Df(\A f \in StoreFields : x[f] = ns[k + 1][f], "write") : k \in 1..Len(e.w)}
          \cup (LET o == LogNode(e.o, NoLimit) IN Df(\A f \in StoreFields : o[f] = ns[Len(ns)][f], "lost"))
          \cup UNION {Orderly(ns, e.rd[r], 1, 0) : r \in 1..Len(e.rd)}

(***************************** what stops a node ****************************)
StopLogOut(e, last, cm, ap) == Df(e.o = [last |-> last, cm |-> cm, ap |-> ap], "state")
StopTags(e) ==
  LET stops ==
        CASE e.op = "stop.slice" -> e.lo > e.hi \/ (e.lo > e.b /\ e.hi > e.last + 1)
          [] e.op = "stop.append" -> e.i - 1 < e.cm
          [] e.op = "stop.mappend" ->
               LET first == MinOf(e.bad, MaxOf(e.last - e.i, 0) + 1) IN first <= e.k /\ e.i + first <= e.cm
          [] e.op = "stop.commit" -> e.i > e.last
          [] e.op = "stop.applied" -> e.i # 0 /\ (e.i < e.ap \/ e.i > e.cm)
          [] e.op = "stop.start" ->
               LET cm == IF e.none THEN e.b ELSE e.hs.cm
               IN ~RestoreOK(e.c) \/ cm < e.b \/ cm > e.last \/ (e.ap # 0 /\ (e.ap < e.b \/ e.ap > cm))
          [] e.op = "stop.role" -> (e.from = "L" /\ e.to \in {"P", "C"}) \/ (e.from = "F" /\ e.to = "L")
          [] e.op = "stop.prop" -> e.role = "L" /\ e.what \in {"none", "garbage"}
          [] e.op = "stop.restore" -> e.me /\ ~RestoreOK(e.c)
          [] e.op = "stop.stappend" -> e.i > e.last + 1
          [] e.op \in {"stop.stsnap", "stop.stcompact"} -> e.i > e.last
          [] e.op = "stop.stents" -> e.i > e.last + 1
          [] e.op = "stop.logger" -> FALSE
  IN IF stops THEN Df(Panicked(e), "carriedon")
     ELSE IF Panicked(e) THEN {"stopped"}
     ELSE CASE e.op = "stop.slice" -> IF e.lo <= e.b THEN Df(e.c = "compacted", "slice") ELSE Df(e.c = "ok" /\ e.r = e.hi - e.lo, "slice")
            [] e.op = "stop.append" -> StopLogOut(e, e.i + e.k - 1, e.cm, e.ap)
            [] e.op = "stop.mappend" ->
                 LET new == e.bad <= e.k \/ e.i + e.k > e.last
                 IN Df(e.ok /\ e.r = e.i + e.k, "ret") \cup StopLogOut(e, IF new THEN e.i + e.k ELSE e.last, e.cm, e.ap)
            [] e.op = "stop.commit" -> StopLogOut(e, e.last, MaxOf(e.cm, e.i), e.ap)
            [] e.op = "stop.applied" -> StopLogOut(e, e.last, e.cm, IF e.i = 0 THEN e.ap ELSE e.i)
            [] e.op = "stop.start" ->
                 Df(e.tm = e.hs.tm /\ e.cm = (IF e.none THEN e.b ELSE e.hs.cm) /\ e.oap = (IF e.ap = 0 THEN e.b ELSE e.ap), "state")
            [] e.op = "stop.role" -> Df(e.is = e.to, "role")
            [] e.op = "stop.prop" -> Df(e.rc = (IF e.role = "L" THEN "ok" ELSE "dropped"), "ret")
            [] e.op = "stop.restore" -> Df(e.last = (IF e.me THEN e.i ELSE 3), "state")
            [] e.op \in {"stop.stsnap", "stop.stcompact"} -> Df(e.olast = e.last, "state")
            [] e.op = "stop.stappend" -> Df(e.olast = e.i, "state")
            [] e.op = "stop.stents" -> IF e.last = e.i - 1 /\ e.c = "unavailable" THEN {} ELSE Df(e.c = "ok", "ret")
            [] e.op = "stop.logger" -> Df(e.shown = (e.msg >= e.lv), "shown") \cup Df(e.died = (e.msg = 4), "died")

(********************************* progress ********************************)
PrNode(sz) == [cf |-> [infl |-> sz]]
Decr(pr, rj, hint) ==
  IF pr.s = "R"
  THEN IF rj <= pr.m THEN [p |-> pr, yes |-> FALSE] ELSE [p |-> [pr EXCEPT !.n = pr.m + 1], yes |-> TRUE]
  ELSE IF pr.n - 1 # rj THEN [p |-> pr, yes |-> FALSE]
  ELSE [p |-> [pr EXCEPT !.n = MaxOf(MinOf(rj, hint + 1), pr.m + 1), !.sn = FALSE], yes |-> TRUE]

ProgressAfter(e, p) ==
  CASE e.op = "progress.probe" -> [p |-> ToProbe(p), yes |-> TRUE]
    [] e.op = "progress.replicate" -> [p |-> ToReplicate(p), yes |-> TRUE]
    [] e.op = "progress.snapshot" -> [p |-> [p EXCEPT !.s = "S", !.sn = FALSE, !.ps = e.i, !.if = <<>>], yes |-> TRUE]
    [] e.op = "progress.update" -> [p |-> PrUpdate(p, e.i), yes |-> p.m < e.i]
    [] e.op = "progress.optimistic" -> [p |-> [p EXCEPT !.n = e.i + 1], yes |-> TRUE]
    [] e.op = "progress.decr" -> Decr(p, e.i, e.h)
    [] e.op = "progress.acked" -> [p |-> [p EXCEPT !.sn = FALSE], yes |-> TRUE]
    [] e.op = "progress.sent" -> [p |-> [p EXCEPT !.sn = TRUE], yes |-> TRUE]
    [] e.op = "progress.add" -> [p |-> [p EXCEPT !.if = Append(@, e.i), !.n = e.i + 1], yes |-> TRUE]
    [] e.op = "progress.free" -> [p |-> [p EXCEPT !.if = FreeLE(@, e.i)], yes |-> TRUE]

ProgressTags(e) ==
  IF Panicked(e) THEN {"panic"}
  ELSE LET x == ProgressAfter(e, PrJ(e.s))
           o == PrJ(e.o)
       IN UNION {Df(x.p[f] = o[f], f) : f \in {"m", "n", "s", "ps", "ra", "sn", "ln", "if"}}
          \cup Df(e.yes = x.yes, "ret") \cup Df(e.pa = Paused(PrNode(e.sz), x.p), "paused") \cup Df(e.own, "clone")

InflightsTags(e) ==
  LET full == Len(e.s) = e.sz
      x == CASE e.op = "inflights.add" -> Append(e.s, e.i)
             [] e.op = "inflights.freele" -> FreeLE(e.s, e.i)
             [] e.op = "inflights.freefirst" -> IF Len(e.s) = 0 THEN <<>> ELSE Tail(e.s)
             [] e.op = "inflights.reset" -> <<>>
             [] e.op = "inflights.clone" -> e.s
  IN IF e.op = "inflights.add" /\ full THEN Df(Panicked(e), "panic")
     ELSE IF Panicked(e) THEN {"panic"}
     ELSE Df(e.o = x, "window") \cup Df(e.full = (Len(x) = e.sz), "full") \cup Df(e.cnt = Len(x), "count") \cup Df(Opt(e, "own", TRUE), "clone")

(*********************************** reads *********************************)
ReadsTags(e) ==
  LET q == [k \in 1..Len(e.s.q) |-> [e.s.q[k] EXCEPT !.a = RangeOf(@)]]
      at == {k \in 1..Len(q) : q[k].c = e.c}
      k == CHOOSE x \in at : TRUE
      o == [j \in 1..Len(e.o.q) |-> [e.o.q[j] EXCEPT !.a = RangeOf(@)]]
      x == CASE e.op = "reads.add" -> IF at # {} THEN q ELSE Append(q, [c |-> e.c, f |-> e.f, i |-> e.i, a |-> {}])
             [] e.op = "reads.ack" -> IF at = {} THEN q ELSE [q EXCEPT ![k].a = @ \cup {e.id}]
             [] e.op = "reads.advance" -> IF at = {} THEN q ELSE SubSeq(q, k + 1, Len(q))
  IN IF Panicked(e) THEN {"panic"}
     ELSE Df(o = x, "queue") \cup Df(e.o.pn = Len(x), "pending")
          \cup Df(e.lc = (IF Len(x) = 0 THEN "" ELSE x[Len(x)].c), "last")
          \cup (IF e.op = "reads.ack" THEN Df(RangeOf(e.r) = (IF at = {} THEN {} ELSE x[k].a), "acks")
                ELSE IF e.op = "reads.advance"
                THEN Df(e.r = (IF at = {} THEN <<>> ELSE [j \in 1..k |-> [c |-> q[j].c, i |-> q[j].i]]), "released")
                ELSE {})

(********************************* settings ********************************)
ValidSettings(e) ==
  /\ e.id # 0 /\ e.ht > 0 /\ e.et > e.ht /\ e.st /\ e.infl > 0 /\ (e.lease => e.cq)
ConfigTags(e) ==
  IF e.op = "config.new"
  THEN IF ~ValidSettings(e) THEN Df(Panicked(e), "accepted")
       ELSE IF Panicked(e) THEN {"refused"}
       ELSE Df(e.made /\ e.tm = 0 /\ e.rt >= e.et /\ e.rt <= 2 * e.et - 1, "made")
  ELSE IF Panicked(e) THEN {"panic"}
  ELSE Df((e.rc = "ok") = ValidSettings(e), "validate")
       \cup (IF e.rc # "ok" THEN {}
             ELSE Df(e.emsg = e.maxmsg, "limit.msg")
                  \cup Df(e.ecomm = (IF e.maxcomm = 0 THEN e.maxmsg ELSE e.maxcomm), "limit.committed")
                  \cup Df(e.eunc = (IF e.maxunc = 0 THEN NoLimit ELSE e.maxunc), "limit.uncommitted"))

UtilTags(e) ==
  CASE e.op = "util.type" -> Df(e.loc = (e.y \in LocalTypes), "local")
                             \cup Df(e.rsp = (e.y \in RespTypes \cup {"MsgUnreachable"}), "response")
    [] e.op = "util.limit" -> Df(e.r = LimitSize(e.en, e.mx), "limit")
    [] e.op = "util.status" ->
         LET v == CASE e.how = "ok" -> [ok |-> TRUE, s |-> "OK"]
                    [] e.how = "error" -> [ok |-> FALSE, s |-> e.tx]
                    [] e.how = "number" -> [ok |-> FALSE, s |-> "n " \o ToString(e.nm)]
                    [] OTHER -> e.was[e.b]
         IN Df(e.now = [e.was EXCEPT ![e.a] = v], "status")
    [] e.op = "util.random" -> Df(e.in /\ e.kinds >= 4, "random")

CompTags(e) ==
  IF Panicked(e) /\ e.x # "fatal" THEN {"crash." \o e.op}
  ELSE CASE e.op = "quorum.q" -> IF Panicked(e) THEN {"panic"} ELSE QuorumTags(e)
         [] e.op = "quorum.tracker" -> IF Panicked(e) THEN {"panic"} ELSE TrackerTags(e)
         [] e.op \in {"change.simple", "change.enter", "change.leave"} ->
              IF Panicked(e) THEN {"panic"}
              ELSE LET cg == CfgJ(e.cg)
                       pr == PrsJ(e.pr)
                   IN ChangeTags(e, IF e.op = "change.simple" THEN Simple(cg, pr, e.ch, e.last)
                                    ELSE IF e.op = "change.enter" THEN EnterJoint(cg, pr, e.al, e.ch, e.last)
                                    ELSE LeaveJoint(cg, pr))
         [] e.op = "change.conv" -> IF Panicked(e) THEN {"panic"} ELSE ConvTags(e)
         [] e.op = "restore.cs" -> IF Panicked(e) THEN {"panic"} ELSE RestoreTags(e)
         [] e.op \in {"log.new", "log.append", "log.mappend", "log.committo", "log.maybecommit", "log.appliedto", "log.persist",
                      "log.stableto", "log.advance", "log.stablesnapto", "log.restore", "log.compact"} -> LogTags2(e)
         [] e.op \in {"store.append", "store.applysnap", "store.createsnap", "store.compact", "store.seths"} -> StoreTags(e)
         [] e.op = "store.shared" -> SharedTags(e)
         [] e.op \in {"stop.slice", "stop.append", "stop.mappend", "stop.commit", "stop.applied", "stop.start", "stop.role", "stop.prop",
                      "stop.restore", "stop.stappend", "stop.stsnap", "stop.stcompact", "stop.stents", "stop.logger"} -> StopTags(e)
         [] e.op \in {"inflights.add", "inflights.freele", "inflights.freefirst", "inflights.reset", "inflights.clone"} -> InflightsTags(e)
         [] e.op \in {"reads.add", "reads.ack", "reads.advance"} -> ReadsTags(e)
         [] e.op \in {"config.validate", "config.new"} -> ConfigTags(e)
         [] e.op \in {"util.type", "util.limit", "util.random", "util.status"} -> IF Panicked(e) THEN {"panic"} ELSE UtilTags(e)
         [] OTHER -> ProgressTags(e)
=============================================================================
