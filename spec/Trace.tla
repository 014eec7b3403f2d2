------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance of recorded executions of the real library with RaftNode.   *)
(* A trace is a sequence of JSON lines, one per public call, each with its *)
(* arguments and everything of the node's state that it changed.  For each *)
(* line the specification is evaluated on the state observed before the    *)
(* call; its result has to equal the state observed after it.  Where the   *)
(* two differ, the line gets `tags' saying what differs (they are printed, *)
(* and a property is violated if one of its tags occurs), and validation   *)
(* goes on from the observed state.  Independently of that, ghost state    *)
(* (leaders per term, votes cast, entries chosen, ...) monitors the        *)
(* cluster-wide properties on the observed states themselves.              *)
(***************************************************************************)
EXTENDS Components, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
NumLines == Len(Lines)

VARIABLES l, nodes, gh
vars == <<l, nodes, gh>>
View == l

G0 == [solo |-> FALSE, up |-> {}, leaders |-> <<>>, grants |-> <<>>, chosen |-> <<>>,
       em |-> <<>>, cfgat |-> <<>>, dig |-> <<>>, reads |-> <<>>, mxc |-> 0, app |-> <<>>,
       rts |-> <<>>, rtv |-> <<>>, nb |-> 0, first |-> 1, cnt |-> 0]

Has(e, f) == f \in DOMAIN e
Get(e, f, default) == IF f \in DOMAIN e THEN e[f] ELSE default

(************************ from JSON to specification values ****************)
CgOf(j) == [inc |-> RangeOf(j.inc), out |-> RangeOf(j.out), lr |-> RangeOf(j.lr),
            ln |-> RangeOf(j.ln), al |-> j.al]
PrOf(j) == [id \in {j[k].id : k \in 1..Len(j)} |->
              LET p == j[CHOOSE k \in 1..Len(j) : j[k].id = id]
              IN [m |-> p.m, n |-> p.n, s |-> p.s, ps |-> p.ps, ra |-> p.ra, sn |-> p.sn,
                  ln |-> p.ln, if |-> p.if]]
VoOf(j) == [id \in {j[k].id : k \in 1..Len(j)} |-> (j[CHOOSE k \in 1..Len(j) : j[k].id = id]).v]
RoOf(j) == [k \in 1..Len(j) |-> [c |-> j[k].c, f |-> j[k].f, i |-> j[k].i, a |-> RangeOf(j[k].a),
                                 en |-> j[k].en]]

\* the state observed after a call: the state before it and the recorded changes
Observed(n, d) ==
  LET D == DOMAIN d
      ba == IF "ba" \in D THEN d.ba ELSE n.ba
      sb == IF "sb" \in D THEN d.sb ELSE n.sb
  IN [n EXCEPT
      !.tm = IF "tm" \in D THEN d.tm ELSE @, !.vt = IF "vt" \in D THEN d.vt ELSE @,
      !.ld = IF "ld" \in D THEN d.ld ELSE @, !.rl = IF "rl" \in D THEN d.rl ELSE @,
      !.il = IF "il" \in D THEN d.il ELSE @, !.cm = IF "cm" \in D THEN d.cm ELSE @,
      !.ap = IF "ap" \in D THEN d.ap ELSE @, !.ba = ba,
      !.bt = IF "bt" \in D THEN d.bt ELSE @, !.un = IF "un" \in D THEN d.un ELSE @,
      !.us = IF "us" \in D THEN d.us ELSE @,
      !.cg = IF "cg" \in D THEN CgOf(d.cg) ELSE @,
      !.pr = IF "pr" \in D THEN PrOf(d.pr) ELSE @,
      !.vo = IF "vo" \in D THEN VoOf(d.vo) ELSE @,
      !.xf = IF "xf" \in D THEN d.xf ELSE @, !.pc = IF "pc" \in D THEN d.pc ELSE @,
      !.uz = IF "uz" \in D THEN d.uz ELSE @, !.ee = IF "ee" \in D THEN d.ee ELSE @,
      !.rt = IF "rt" \in D THEN d.rt ELSE @,
      !.ro = IF "ro" \in D THEN RoOf(d.ro) ELSE @,
      !.rs = IF "rs" \in D THEN d.rs ELSE @,
      !.sb = sb, !.sbt = IF "sbt" \in D THEN d.sbt ELSE @,
      !.ss = IF "ss" \in D THEN d.ss ELSE @, !.hs = IF "hs" \in D THEN d.hs ELSE @,
      !.lg = IF "lg" \in D THEN SubSeq(n.lg, ba + 1 - n.ba, d.lg.k - n.ba) \o d.lg.a ELSE @,
      !.sl = IF "sl" \in D THEN SubSeq(n.sl, sb + 1 - n.sb, d.sl.k - n.sb) \o d.sl.a ELSE @,
      !.ms = IF "mo" \in D THEN @ \o d.mo ELSE IF "ms" \in D THEN d.ms ELSE @]

\* encoded sizes of the entries that were added to the log
NewSizes(d) ==
  IF ~Has(d, "lg") \/ Len(d.lg.a) = 0 THEN <<>>
  ELSE [i \in {d.lg.a[k].i : k \in 1..Len(d.lg.a)} |->
          (d.lg.a[CHOOSE k \in 1..Len(d.lg.a) : d.lg.a[k].i = i]).b]

(********************************* the calls *******************************)
Before(e) ==
  IF e.e = "new" THEN Begin(NewNode(e.n, e.cf, e.st, e.ap)) ELSE nodes[e.n]

Expected(e, n) ==
  CASE e.e = "tick" -> OpTick(n)
    [] e.e = "step" -> OpStep(n, e.m)
    [] e.e = "rdy" -> OpReady(n)
    [] e.e = "pst" -> OpPersist(n)
    [] e.e = "adv" -> OpAdvance(n)
    [] e.e = "prop" -> OpPropose(n, e.en)
    [] e.e = "propcc" -> OpProposeConf(n, e.en)
    [] e.e = "ridx" -> OpReadIndex(n, e.en)
    [] e.e = "acc" -> OpApplyConf(n, e.cc)
    [] e.e = "camp" -> OpCampaign(n)
    [] e.e = "tickq" -> OpTickQuiesced(n)
    [] e.e = "unreach" -> OpUnreachable(n, e.to)
    [] e.e = "snapst" -> OpSnapStatus(n, e.to, e.rj)
    [] e.e = "xfer" -> OpTransfer(n, e.to)
    [] e.e = "boot" -> OpBootstrap(n, e.es)
    [] e.e = "snapc" -> OpSnapshot(n, e.i, IF e.nc THEN n.ss.c ELSE e.cs, e.dg)
    [] e.e = "compact" -> OpCompact(n, e.k)
    [] e.e = "new" -> NewNode(e.n, e.cf, e.st, e.ap)

(******************************* differences *******************************)
T(cond, tag) == IF cond THEN {tag} ELSE {}

Suffix(m) == IF m.rj THEN m.y \o ".rej" ELSE m.y
CountIn(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
ForDest(s, d) == SelectSeq(s, LAMBDA m : m.to = d)

\* Messages to different destinations have no order among each other.
MsgTags(exp, obs) ==
  IF exp = obs THEN {}
  ELSE LET ds == {exp[k].to : k \in 1..Len(exp)} \cup {obs[k].to : k \in 1..Len(obs)}
           One(d) ==
             LET a == ForDest(exp, d)
                 b == ForDest(obs, d)
             IN IF a = b THEN {}
                ELSE LET miss == {x \in RangeOf(a) : CountIn(a, x) > CountIn(b, x)}
                         more == {x \in RangeOf(b) : CountIn(b, x) > CountIn(a, x)}
                     IN IF miss = {} /\ more = {} THEN {"msgorder"}
                        ELSE {"msg-" \o Suffix(x) : x \in miss} \cup {"msg+" \o Suffix(x) : x \in more}
       IN UNION {One(d) : d \in ds}

PrTags(a, b) ==
  IF a = b THEN {}
  ELSE T(DOMAIN a # DOMAIN b, "prs.dom")
       \cup UNION {IF a[id] = b[id] THEN {}
                   ELSE T(b[id].m > a[id].m, "prs.m.hi") \cup T(b[id].m < a[id].m, "prs.m.lo")
                        \cup T(a[id].n # b[id].n, "prs.n") \cup T(a[id].s # b[id].s, "prs.s")
                        \cup T(a[id].ps # b[id].ps, "prs.ps") \cup T(a[id].ra # b[id].ra, "prs.ra")
                        \cup T(a[id].sn # b[id].sn, "prs.sn") \cup T(a[id].ln # b[id].ln, "prs.ln")
                        \cup T(a[id].if # b[id].if, "prs.if")
                   : id \in DOMAIN a \cap DOMAIN b}

RoleTags(a, b) ==
  IF a = b THEN {} ELSE {"role", "role." \o a \o b}

RtOK(exp, obs, cf) == IF exp = AnyTimeout THEN obs >= cf.et /\ obs <= 2 * cf.et - 1 ELSE exp = obs

DiffTags(x, o) ==
  LET y == [x EXCEPT !.rt = o.rt]
  IN T(~RtOK(x.rt, o.rt, o.cf), "rto") \cup
     IF y = o THEN {}
     ELSE T(x.tm < o.tm, "term.hi") \cup T(x.tm > o.tm, "term.lo") \cup T(x.vt # o.vt, "vote")
          \cup T(x.ld # o.ld, "lead") \cup RoleTags(x.rl, o.rl) \cup T(x.il # o.il, "learner")
          \cup T(o.cm > x.cm, "commit.hi") \cup T(o.cm < x.cm, "commit.lo")
          \cup T(x.ap < o.ap, "applied.hi") \cup T(x.ap > o.ap, "applied.lo")
          \cup T(<<x.ba, x.bt, x.lg>> # <<o.ba, o.bt, o.lg>>, "log")
          \cup T(x.un # o.un, "unstable") \cup T(x.us # o.us, "usnap") \cup T(x.cg # o.cg, "cfg")
          \cup PrTags(x.pr, o.pr) \cup T(x.vo # o.vo, "votes") \cup T(x.xf # o.xf, "xfer")
          \cup T(x.pc > o.pc, "pci.lo") \cup T(x.pc < o.pc, "pci.hi") \cup T(x.uz # o.uz, "usize")
          \cup T(x.ee # o.ee, "ee") \cup T(x.ro # o.ro, "ro") \cup T(x.rs # o.rs, "rs")
          \cup T(<<x.sb, x.sbt, x.sl>> # <<o.sb, o.sbt, o.sl>>, "st.log") \cup T(x.ss # o.ss, "st.snap")
          \cup T(x.hs # o.hs, "st.hs") \cup MsgTags(x.ms, o.ms)

RdTags(x, o) ==
  IF x = o THEN {}
  ELSE T(x.en # o.en, "rd.en") \cup T(x.ce # o.ce, "rd.ce") \cup T(x.sf # o.sf, "rd.sf")
       \cup T(x.hs # o.hs, "rd.hs") \cup T(x.sn # o.sn, "rd.sn") \cup T(x.rs # o.rs, "rd.rs")
       \cup T(x.sy /\ ~o.sy, "rd.sync.lo") \cup T(~x.sy /\ o.sy, "rd.sync.hi")

RetTags(e, x, o) ==
  CASE e.e \in {"step", "camp", "prop", "propcc", "boot", "compact"} ->
         T(e.rc # x.rc, "ret." \o e.e)
    [] e.e = "snapc" -> T(e.rc # x.rc, "ret.snapc") \cup T(~e.im, "snap.mutated")
                        \cup T(Has(e, "sr") /\ x.rc = "ok" /\ e.sr # x.ss, "ret.snapc")
    [] e.e = "acc" -> T(e.cs # CS(x.cg), "ret.cs")
    [] e.e = "rdy" -> T(~e.pk, "rd.peek") \cup T(~e.mq, "rd.ms")
    [] e.e = "adv" -> T(~e.ok, "rd.mutated")
    [] OTHER -> {}

(********************************* monitors ********************************)
\* Entries that became committed: they are committed for good and everywhere.
EntKey(e) == <<e.t, e.y, e.d, e.c>>
NewlyCommitted(n, o) == {i \in (n.cm + 1)..o.cm : i > o.ba /\ i <= LastIndex(o)}
\* A commit counts from the moment it can be seen outside the node: when the Ready
\* that carries it has been made durable.
NewlyDurable(n, o) == {i \in (n.hs.cm + 1)..o.hs.cm : i > o.ba /\ i <= LastIndex(o)}

CommitTags(o, new, chosen) ==
  UNION {IF i \in DOMAIN chosen THEN T(chosen[i].k # EntKey(EntAt(o, i)), "mon.chosen") ELSE {} : i \in new}

Choose(o, new, chosen) ==
  LET add == new \ DOMAIN chosen
  IN IF add = {} THEN chosen
     ELSE [i \in DOMAIN chosen \cup add |->
             IF i \in DOMAIN chosen THEN chosen[i] ELSE [k |-> EntKey(EntAt(o, i)), ct |-> o.tm]]

\* A new leader has every entry that was committed in an earlier term.
LeaderTags(e, n, o) ==
  LET t == o.tm
  IN T(t \in DOMAIN gh.leaders /\ gh.leaders[t] # o.id, "mon.twoleaders")
     \cup T(\E i \in DOMAIN gh.chosen : gh.chosen[i].ct < t /\ i > o.ba
               /\ (i > LastIndex(o) \/ TermAt(o, i) # gh.chosen[i].k[1]), "mon.incomplete")

\* Commit by the leader: the entry is on a quorum, and of the leader's term.
Holders(o, i, t) ==
  {id \in DOMAIN nodes : IF id = o.id THEN LastIndex(o) >= i
                         ELSE LET n == nodes[id]
                              IN i <= n.sb \/ (i <= StLast(n) /\ n.sl[i - n.sb].t = t)}
LeaderCommitTags(n, o) ==
  LET i == o.cm
      h == Holders(o, i, TermAt(o, i))
      Q(C) == C = {} \/ 2 * Cardinality(C \cap h) > Cardinality(C)
  IN T(TermAt(o, i) # o.tm, "mon.committerm") \cup T(~(Q(o.cg.inc) /\ Q(o.cg.out)), "mon.commitquorum")

\* Log matching: index and term determine an entry and its predecessor.
LogTags(n, o, news) ==
  UNION {LET k == <<i, TermAt(o, i)>>
             v == <<EntKey(EntAt(o, i)), TermAt(o, i - 1)>>
         IN T(k \in DOMAIN gh.em /\ gh.em[k] # v, "mon.logmatch") : i \in news}
LogAdd(o, news) ==
  LET ks == {<<i, TermAt(o, i)>> : i \in news} \ DOMAIN gh.em
  IN IF ks = {} THEN gh.em
     ELSE [k \in DOMAIN gh.em \cup ks |->
             IF k \in DOMAIN gh.em THEN gh.em[k] ELSE <<EntKey(EntAt(o, k[1])), TermAt(o, k[1] - 1)>>]
NewIdx(e, o) ==
  IF Has(e.d, "lg") THEN {i \in {e.d.lg.a[k].i : k \in 1..Len(e.d.lg.a)} : i > o.ba + 1 /\ i <= LastIndex(o)} ELSE {}

\* What is handed to the network must already be durable.
SendTags(n) ==
  LET one(m) ==
        T(m.y \notin {"MsgPreVote", "MsgPreVoteResp", "MsgProp", "MsgReadIndex", "MsgTransferLeader"}
            /\ m.tm > n.hs.tm, "mon.undurable.term")
        \cup T(m.y = "MsgVoteResp" /\ ~m.rj /\ n.hs.tm = m.tm /\ n.hs.vt # m.to, "mon.undurable.vote")
        \cup T(m.y = "MsgVote" /\ (n.hs.tm < m.tm \/ (n.hs.tm = m.tm /\ n.hs.vt # n.id)), "mon.undurable.vote")
        \cup T(m.y = "MsgAppResp" /\ ~m.rj /\ m.ix > StLast(n), "mon.undurable.log")
        \cup T(m.y = "MsgPreVoteResp" /\ m.rj /\ m.tm > n.hs.tm, "mon.undurable.term")
  IN UNION {one(n.rd.ms[k]) : k \in 1..Len(n.rd.ms)}
GrantsIn(n) ==
  {<<m.tm, m.fr, m.to>> : m \in {n.rd.ms[k] : k \in {j \in 1..Len(n.rd.ms) :
                                   n.rd.ms[j].y = "MsgVoteResp" /\ ~n.rd.ms[j].rj}}}
  \cup {<<m.tm, m.fr, m.fr>> : m \in {n.rd.ms[k] : k \in {j \in 1..Len(n.rd.ms) : n.rd.ms[j].y = "MsgVote"}}}
GrantTags(g) ==
  T(\E x \in g : LET k == <<x[1], x[2]>> IN
       \/ k \in DOMAIN gh.grants /\ gh.grants[k] # x[3]
       \/ \E y \in g : y[1] = x[1] /\ y[2] = x[2] /\ y[3] # x[3], "mon.doublevote")
AddGrants(g) ==
  FoldSet(LAMBDA x, f : With(f, <<x[1], x[2]>>, x[3]), gh.grants, g)

\* Read states: at least the index committed anywhere when the read was requested.
ReadTags(n, rs) ==
  IF n.cf.lease THEN {}
  ELSE T(\E k \in 1..Len(rs) : rs[k].c \in DOMAIN gh.reads /\ gh.reads[rs[k].c] > rs[k].i, "mon.staleread")

\* The application's view: entries come in order, without gaps, once, and are the chosen ones.
ApplyTags(n, rd) ==
  LET a == gh.app[n.id]
      ce == rd.ce
      from == IF rd.sn.i > a THEN rd.sn.i ELSE a
  IN IF ce = <<>> THEN T(rd.sn.i # 0 /\ rd.sn.i <= a, "mon.applysnap")
     ELSE T(ce[1].i # from + 1 \/ \E k \in 2..Len(ce) : ce[k].i # ce[k - 1].i + 1, "mon.applyorder")
          \cup T(\E k \in 1..Len(ce) : ce[k].i \in DOMAIN gh.chosen /\ gh.chosen[ce[k].i].k # EntKey(ce[k]), "mon.applywrong")
          \cup T(\E k \in 1..Len(ce) : ce[k].i > n.cm, "mon.applyuncommitted")

\* learners (as the node itself sees it) never start an election, nor do removed nodes
CampTags(n, o) ==
  T(n.rl = "F" /\ o.rl \in {"C", "P", "L"} /\ (n.id \notin VotersOf(n.cg) \/ n.il), "mon.learnercampaign")

\* A configuration is a function of the applied log.
\* What a message says is so.
TruthTags(e, n, o) ==
  T(e.e # "new" /\ Leftover(n, o), "mon.leftover")
  \cup
  IF e.e \in {"rdy", "new"} \/ Len(o.ms) <= Len(n.ms) THEN {}
  ELSE T(\E k \in Len(n.ms) + 1..Len(o.ms) : MsgWrong(o, o.ms[k]), "mon.message")

CfgTags(i, cs) == T(i \in DOMAIN gh.cfgat /\ gh.cfgat[i] # cs, "mon.config")

Monitor(e, n, o) ==
  LET led == o.rl = "L" /\ (n.rl # "L" \/ n.tm # o.tm)
      new == IF o.cm > n.cm THEN NewlyCommitted(n, o) ELSE {}
      li == NewIdx(e, o)
      dur == IF e.e = "pst" /\ o.hs.cm > n.hs.cm THEN NewlyDurable(n, o) ELSE {}
      g1 == [gh EXCEPT
               !.leaders = IF o.rl = "L" /\ o.tm \notin DOMAIN @ THEN With(@, o.tm, o.id) ELSE @,
               !.chosen = IF dur = {} THEN @ ELSE Choose(o, dur, @),
               !.em = IF li = {} THEN @ ELSE LogAdd(o, li),
               !.mxc = IF e.e = "pst" THEN MaxOf(@, o.hs.cm) ELSE @]
      tags == (IF new \cup dur = {} THEN {} ELSE CommitTags(o, new \cup dur, gh.chosen))
              \cup (IF led THEN LeaderTags(e, n, o) ELSE {})
              \cup T(o.rl = "L" /\ o.tm \in DOMAIN gh.leaders /\ gh.leaders[o.tm] # o.id, "mon.twoleaders")
              \cup (IF o.rl = "L" /\ n.rl = "L" /\ o.cm > n.cm THEN LeaderCommitTags(n, o) ELSE {})
              \cup (IF li = {} THEN {} ELSE LogTags(n, o, li))
              \cup CampTags(n, o)
              \cup T(o.tm < n.tm, "mon.termback") \cup T(o.cm < n.cm, "mon.commitback")
              \cup T(o.ap < n.ap, "mon.appliedback") \cup T(o.ap > o.cm, "mon.applied")
              \cup T(o.tm = n.tm /\ n.vt # 0 /\ o.vt # n.vt, "mon.revote")
              \cup T(n.rl = "L" /\ o.rl = "L" /\ n.tm = o.tm /\ ~(LastIndex(n) <= LastIndex(o)
                        /\ \A i \in MaxOf(n.ba, o.ba) + 1..LastIndex(n) : TermAt(n, i) = TermAt(o, i)), "mon.leaderlog")
              \cup T(\E i \in MaxOf(n.ba, o.ba) + 1..MinOf(n.cm, LastIndex(n)) :
                        i > LastIndex(o) \/ TermAt(o, i) # TermAt(n, i), "mon.truncated")
              \cup T(\E id \in DOMAIN o.pr : Len(o.pr[id].if) > o.cf.infl, "mon.inflights")
              \cup T(~CfgInvariant(o.cg, o.pr), "mon.cfginv")
  IN IF gh.solo THEN [g |-> gh, t |-> {}]
     ELSE CASE e.e = "rdy" ->
                 [g |-> g1, t |-> tags \cup ReadTags(n, e.rd.rs) \cup ApplyTags(n, e.rd)]
            [] e.e = "adv" ->
                 [g |-> [g1 EXCEPT !.app = With(@, n.id, e.ai),
                                   !.dig = IF e.ai \in DOMAIN @ THEN @ ELSE With(@, e.ai, e.dg)],
                  t |-> tags \cup T(e.ai \in DOMAIN gh.dig /\ gh.dig[e.ai] # e.dg, "mon.digest")]
            [] e.e = "acc" ->
                 [g |-> [g1 EXCEPT !.cfgat = IF e.i <= gh.nb \/ e.i \in DOMAIN @ THEN @ ELSE With(@, e.i, CS(o.cg))],
                  t |-> tags \cup CfgTags(e.i, CS(o.cg))]
            [] e.e = "ridx" ->
                 [g |-> [g1 EXCEPT !.reads = IF e.ck THEN With(@, e.en.d, gh.mxc)
                                             ELSE IF e.en.d \in DOMAIN @ THEN With(@, e.en.d, 0) ELSE @],
                  t |-> tags]
            [] e.e = "boot" -> [g |-> [g1 EXCEPT !.nb = MaxOf(@, Len(e.es))], t |-> tags]
            [] OTHER -> [g |-> g1, t |-> tags]

\* creation of a node: nothing durable may be forgotten
NewTags(e, o) ==
  T(o.tm < e.st.hs.tm \/ (o.tm = e.st.hs.tm /\ o.vt # e.st.hs.vt), "mon.forgot")
  \cup T(o.cm < e.st.hs.cm, "mon.forgot")
  \cup T(o.lg # e.st.sl \/ o.ba # e.st.sb, "mon.forgot")
  \cup T(e.st.ss.i \in DOMAIN gh.cfgat /\ CS(o.cg) # gh.cfgat[e.st.ss.i], "mon.config")

(******************************** one line *********************************)
Clean(n) == [n EXCEPT !.xb = <<>>]

\* the call did not return
Broken(e) ==
  LET n == Before(e)
      x == Expected(e, [Begin(n) EXCEPT !.xb = <<>>])
  IN [n |-> nodes, g |-> gh, s |-> l + 1,
      t |-> IF e.e = "die" THEN {"crash.die"}
            ELSE IF e.x = "hang" THEN {"crash." \o e.e, "hang"}
            ELSE IF x.ft THEN {} ELSE {"crash." \o e.e}]

\* Draws of the election timeout over a whole trace: for ticks, per change of role, how many there
\* were and how many left the value as it was (other calls show a draw, see "rr"); per setting how many there were and which values came out.
Redraw(f, e, n, o) ==
  IF e.e # "tick" THEN f
  ELSE LET k == n.rl \o o.rl
           v == Get(f, k, <<0, 0>>)
       IN With(f, k, <<v[1] + 1, IF o.rt = n.rt THEN v[2] + 1 ELSE v[2]>>)
Drawn(f, o) ==
  LET v == Get(f, o.cf.et, <<0, {}>>)
  IN With(f, o.cf.et, <<v[1] + 1, v[2] \cup {o.rt - o.cf.et}>>)
DrawTags ==
  T(\E k \in DOMAIN gh.rts : gh.rts[k][1] >= 25 /\ gh.rts[k][2] = gh.rts[k][1], "rto.const")
  \cup T(\E et \in DOMAIN gh.rtv : gh.rtv[et][1] >= 40 * et /\ Cardinality(gh.rtv[et][2]) < et, "rto.range")

Called(e) ==
  LET n  == Before(e)
      n1 == [Begin(n) EXCEPT !.xb = NewSizes(e.d)]
      x  == Expected(e, n1)
      o0 == Observed(IF e.e = "new" THEN [n EXCEPT !.lg = <<>>, !.sl = <<>>, !.ms = <<>>] ELSE n, e.d)
      o  == [o0 EXCEPT !.he = x.he, !.pri = x.pri, !.psf = x.psf, !.phd = x.phd,
                       !.rd = IF e.e = "rdy"
                              THEN [en |-> e.rd.en, ce |-> e.rd.ce, ms |-> n.ms, sf |-> e.rd.sf,
                                    hs |-> e.rd.hs, sn |-> e.rd.sn, rs |-> e.rd.rs, sy |-> e.rd.sy]
                              ELSE x.rd,
                       !.rc = x.rc, !.ft = FALSE, !.xb = n1.xb]
      o1 == [Clean(o) EXCEPT !.rt = IF Has(e, "nr") THEN e.nr ELSE @, !.rc = "ok"]
      diff == DiffTags([x EXCEPT !.rd = o.rd], o)
              \cup (IF e.e = "rdy" THEN RdTags(x.rd, o.rd) ELSE {})
              \cup RetTags(e, x, o)
              \cup T(e.hr # HasReady(o), "hasready")
              \cup T(Has(e, "sq"), "status")
              \cup T(Has(e, "rr") /\ e.rr # (x.rt = AnyTimeout), "rto.draw")
      mon == IF e.e = "new"
             THEN [g |-> [gh EXCEPT !.up = @ \cup {e.n}, !.app = With(@, e.n, MaxOf(e.ap, o.ap))],
                   t |-> IF gh.solo THEN {} ELSE NewTags(e, o)]
             ELSE Monitor(e, n, o)
      g2 == IF x.rt = AnyTimeout /\ o.cf.et >= 3 THEN [mon.g EXCEPT !.rts = Redraw(@, e, n, o), !.rtv = Drawn(@, o)]
            ELSE mon.g
  IN [n |-> With(nodes, e.n, o1), g |-> g2, s |-> l + 1,
      t |-> IF x.ft THEN {"nofatal." \o e.e} ELSE diff \cup mon.t \cup TruthTags(e, n, o)]

Handle(e) ==
  CASE e.e = "hdr" -> [n |-> <<>>, s |-> l + 1, t |-> {},
                       g |-> [G0 EXCEPT !.solo = e.solo, !.first = l, !.rts = gh.rts, !.rtv = gh.rtv]]
    [] e.e = "seed" -> [n |-> nodes, s |-> l + 1, t |-> {},
                        g |-> [gh EXCEPT !.dig = With(@, e.i, e.dg), !.cfgat = With(@, e.i, e.cs), !.mxc = e.i]]
    [] e.e = "su" -> [n |-> [nodes EXCEPT ![e.n].su = e.su], s |-> l + 1, t |-> {}, g |-> gh]
    [] e.e = "snd" -> LET n == nodes[e.n]
                          gr == GrantsIn(n)
                      IN IF gh.solo THEN [n |-> nodes, s |-> l + 1, g |-> gh, t |-> {}]
                         ELSE [n |-> nodes, s |-> l + 1,
                               g |-> IF gr = {} THEN gh ELSE [gh EXCEPT !.grants = AddGrants(gr)],
                               t |-> SendTags(n) \cup GrantTags(gr)]
    [] e.e = "down" -> [n |-> nodes, s |-> l + 1, t |-> {}, g |-> [gh EXCEPT !.up = @ \ {e.n}]]
    [] e.e = "info" -> [n |-> nodes, s |-> l + 1, t |-> {}, g |-> gh]
    [] e.e = "app" -> [n |-> nodes, s |-> l + 1, t |-> {}, g |-> [gh EXCEPT !.app = With(@, e.n, e.ai)]]
    [] e.e = "final" -> [n |-> nodes, s |-> l + 1, g |-> gh,
                         t |-> T(~e.cv, "noconv") \cup T(~e.cp, "noprogress")]
    [] e.e = "comp" -> [n |-> nodes, s |-> l + 1, t |-> CompTags(e), g |-> gh]
    [] e.e = "die" -> Broken(e)
    [] e.e = "end" -> [n |-> nodes, s |-> l + 1, g |-> gh,
                       t |-> DrawTags]
    [] OTHER -> IF Has(e, "x") THEN Broken(e) ELSE Called(e)

\* What kind of call it was: used to relate a difference to properties.
Label(e) ==
  IF e.e = "comp" THEN e.op
  ELSE IF e.e # "step" \/ e.n \notin DOMAIN nodes THEN e.e
  ELSE LET n == nodes[e.n]
           m == e.m
           n1 == Begin(n)
           x == OpStep(n1, m)
       IN "step." \o m.y
          \o (IF m.tm > 0 /\ m.tm < n.tm THEN ".old" ELSE "")
          \o (IF m.fr \notin DOMAIN n.pr THEN ".foreign" ELSE IF n.pr[m.fr].ln THEN ".learner" ELSE "")
          \o (IF x = [n1 EXCEPT !.rc = x.rc] THEN ".noop" ELSE "")

Report(e, tags) ==
  tags = {} \/ PrintT(<<"TAGS", l, gh.first, Label(e), tags>>)

Init == l = 1 /\ nodes = <<>> /\ gh = G0

Next ==
  /\ l <= NumLines
  /\ \E e \in {Lines[l]} : \E r \in {Handle(e)} :
       /\ nodes' = r.n /\ gh' = r.g /\ l' = r.s
       /\ Report(e, r.t)

Spec == Init /\ [][Next]_vars

\* every line has been consumed
Accepted == TLCGet("stats").diameter - 1 = NumLines
=============================================================================
