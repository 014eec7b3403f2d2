-------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* Writes out the transitions of Cluster while TLC explores it, so that    *)
(* they can be replayed in the real code: for every step, where it starts, *)
(* what is done, the step as one node sees it, and where it ends.          *)
(***************************************************************************)
EXTENDS Cluster, TLCExt

RECURSIVE Terms(_)
Terms(en) == IF en = <<>> THEN "" ELSE "." \o ToString(en[1].t) \o Terms(Tail(en))

\* what a message is called in a replay
MsgKey(m) ==
  m.y \o "/" \o ToString(m.fr) \o "/" \o ToString(m.to) \o "/" \o ToString(m.tm) \o "/" \o ToString(m.lt)
  \o "/" \o ToString(m.ix) \o "/" \o ToString(m.cm) \o "/" \o (IF m.rj THEN "1" ELSE "0") \o "/" \o ToString(m.rh)
  \o "/" \o (IF m.sn = <<>> THEN "0" ELSE ToString(m.sn[1].i)) \o "/" \o Terms(m.en) \o "/" \o m.cx

CCKey(cc) ==
  LET One(c) == "," \o ToString(c.y) \o "," \o ToString(c.n)
      F[k \in 0..Len(cc.ch)] == IF k = 0 THEN ToString(cc.tr) ELSE F[k - 1] \o One(cc.ch[k])
  IN F[Len(cc.ch)]

ActKey(a) ==
  a.a \o " " \o
  (IF "m" \in DOMAIN a THEN MsgKey(a.m)
   ELSE ToString(a.n) \o (IF "to" \in DOMAIN a THEN " " \o ToString(a.to)
                          ELSE IF "d" \in DOMAIN a THEN " " \o a.d
                          ELSE IF "c" \in DOMAIN a THEN " " \o a.c
                          ELSE IF "cc" \in DOMAIN a THEN " " \o CCKey(a.cc) ELSE ""))

Edge ==
  LET a == hist'[Len(hist')]
      i == IF "m" \in DOMAIN a THEN a.m.to ELSE a.n
      k == ActKey(a)
  IN PrintT("H|" \o ToString(TLCFP(StateView)) \o "|" \o ToString(TLCFP(<<nodes[i], k>>)) \o "|"
            \o ToString(TLCFP(StateView')) \o "|" \o k)

GInit == Init /\ PrintT("H0|" \o ToString(TLCFP(StateView)))
GSpec == GInit /\ [][Next]_vars
=============================================================================
