----------------------------- MODULE MacroTrace -----------------------------
(* C14.  A trace is one graph (t.pts, t.attr: attributes as indices into a     *)
(* table, t.edges with their attributes) and its macronizations.  An event:    *)
(*   e.pad, e.attr per micronode, e.home (vertex a micronode rounds to),        *)
(*   e.d (displacement, in thousandths of the displacement asked for),          *)
(*   e.edges between micronodes, e.keys / e.lists the dictionary,               *)
(*   e.perfect / e.wanted perfect points after and before                       *)
EXTENDS Macro, Json, IOUtils, SequencesExt
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}

Degree(t, v) == Cardinality({k \in DOMAIN t.edges : v \in {t.edges[k].u, t.edges[k].v}})
MacroBad(t, e) ==
  LET M == DOMAIN e.home
      E == DOMAIN e.edges
      \* original edges by their ends (simple graphs)
      orig == TLCEval([p \in {{t.edges[k].u, t.edges[k].v} : k \in DOMAIN t.edges} |->
                 CHOOSE k \in DOMAIN t.edges : {t.edges[k].u, t.edges[k].v} = p])
      ends(k) == {e.home[e.edges[k].a], e.home[e.edges[k].b]}
      joined == TLCEval({e.edges[k].a : k \in E} \cup {e.edges[k].b : k \in E})
      listed == TLCEval(UNION {ToSet(e.lists[j]) : j \in DOMAIN e.lists})
      total == FoldSet(LAMBDA j, acc : acc + Len(e.lists[j]), 0, DOMAIN e.lists)
      deg == TLCEval([v \in DOMAIN t.pts |-> Degree(t, v)])
      sizeOf(v) == Size(deg[v], e.pad)
      key == TLCEval([j \in DOMAIN e.keys |-> e.keys[j]])
      far(m, v, w, s) == Along(e.d[m], Minus(w, v), s)
  IN F("micronode-off-its-vertex", \A m \in M : e.home[m] \in DOMAIN t.pts)
     \cup F("edge-not-mirrored", /\ \A k \in E : ends(k) \in DOMAIN orig
                                 /\ {ends(k) : k \in E} = DOMAIN orig
                                 /\ Cardinality(E) = Cardinality(DOMAIN orig))
     \cup F("edge-attributes", \A k \in E : ends(k) \in DOMAIN orig =>
                                  e.edges[k].attr = t.edges[orig[ends(k)]].attr)
     \cup F("displacement", \A k \in E : ends(k) \in DOMAIN orig =>
              LET a == e.edges[k].a  b == e.edges[k].b
                  s == IF t.edges[orig[ends(k)]].periodic THEN -1 ELSE 1
                  pa == t.pts[e.home[a]]  pb == t.pts[e.home[b]]
              IN far(a, pa, pb, s) /\ far(b, pb, pa, s))
     \cup F("micronode-shared", Cardinality(joined) = 2 * Cardinality(E))
     \cup F("padding-joined", \A m \in M : m \in joined \/ e.pad)
     \cup F("attributes", \A m \in M : e.home[m] \in DOMAIN t.pts => e.attr[m] = t.attr[e.home[m]])
     \cup F("dictionary-not-exact", /\ listed = M
                                    /\ total = Cardinality(M)
                                    /\ Cardinality(ToSet(key)) = Len(key))
     \cup F("dictionary-home", \A j \in DOMAIN e.lists : \A m \in ToSet(e.lists[j]) :
                                  m \in M /\ e.home[m] = key[j])
     \cup F("macronode-size", /\ \A j \in DOMAIN e.lists : key[j] \in DOMAIN t.pts
                                      /\ Len(e.lists[j]) = sizeOf(key[j])
                              /\ ToSet(key) = DOMAIN t.pts)
     \cup F("perfect-points", ToSet(e.perfect) = {m \in M : e.home[m] \in ToSet(e.wanted)})
     \cup F("original-modified", e.same)
     \cup F("not-macronized-graph", e.flag)

EventBad(t, e) ==
  IF e.kind = "refuse" THEN F("not-refused", e.error # "")
  ELSE IF e.error # "" THEN {"raised"}
  ELSE MacroBad(t, e)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
