---------------------------- MODULE DrawingTrace ----------------------------
(* C25.  A trace is a sequence of drawings, each with what was to be drawn and   *)
(* the marks found in the figure, in hundredths (values in thousandths):        *)
(*   graph    e.scene, e.nodes, e.edges (how to colour), e.points, e.segments    *)
(*            (<<ends, colour>>), e.texts (<<at, value>>), e.title, e.legend     *)
(*   hover    the same for plotly, e.hover the lines of text of every node       *)
(*   graphof  a stabilizer or matching graph: e.want and e.got, edges between    *)
(*            numbered nodes with weights and colours                            *)
(*   decoding e.parts, the graphs drawn with a syndrome plot that has e.numbers  *)
(*   syndrome e.flips on a code, e.faces of the boxes, e.marks labels            *)
(*   recovery e.want and e.got, points and lines                                 *)
(*   ticks    e.n, e.tex, e.text        matrix  e.want, e.got                    *)
(*   curve    e.want, e.got, e.ticks, e.texts, e.low, e.high, e.central           *)
EXTENDS Drawing, Json, IOUtils
Data == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
Traces == Data.traces
F(clause, ok) == IF ok THEN {} ELSE {clause}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(p, q) == \A i \in DOMAIN p : Abs(p[i] - q[i]) <= 12
Pairs(marks) == [k \in DOMAIN marks |-> <<ToSet(marks[k][1]), marks[k][2]>>]
TextsOK(e) ==
  LET labelled == SelectSeq(e.scene.nodes, LAMBDA n : n.value # <<>>)
      number(at, v) == Cardinality({k \in DOMAIN e.texts : Near(e.texts[k][1], at) /\ e.texts[k][2] = v})
      wanted(at, v) == Cardinality({k \in DOMAIN labelled : Near(Turn(labelled[k].at), at)
                                                            /\ labelled[k].value[1] = v})
  IN /\ Len(e.texts) = Len(labelled)
     /\ \A k \in DOMAIN labelled : LET at == Turn(labelled[k].at) v == labelled[k].value[1]
                                   IN number(at, v) = wanted(at, v)
WithinLimits(e) ==
  IF e.limits # <<>> THEN e.shown = <<e.limits[1], e.limits[3], e.limits[2]>>
  ELSE \A k \in DOMAIN e.scene.nodes : LET p == Turn(e.scene.nodes[k].at)
         IN \A i \in 1..3 : e.shown[i][1] <= p[i] /\ p[i] <= e.shown[i][2]
GraphBad(e) ==
  F("nodes", SameBag(e.points, Points(e.scene, e.nodes)))
  \cup F("edges", SameBag(Pairs(e.segments), Segments(e.scene, e.edges)))
  \cup F("labels", TextsOK(e))
  \cup F("title", e.title = TitleOf(e.titled, e.titletext, e.labels))
  \cup F("legend", IF e.legend /\ e.nodes.kind = "map"
                   THEN ToSet(e.legends) = {<<k, e.nodes.map[k]>> : k \in DOMAIN e.nodes.map}
                   ELSE e.legends = <<>>)
  \cup F("axes", ~e.axes \/ e.axisnames = <<"x", "z", "y">>)
  \cup F("limits", WithinLimits(e))
\* The lines a node shows: its coordinates and the attributes asked for.
Lines(e, n) ==
  LET line(k) == k \o ": " \o n.lines[k]
      has(ks) == {k \in ks : k \in DOMAIN n.lines}
  IN CASE e.info = "nothing" -> {}
       [] e.info = "coordinates" -> {n.name}
       [] e.info = "one" -> {line(e.keys[1])}
       [] e.info = "some" -> {n.name} \cup {line(k) : k \in has(ToSet(e.keys))}
       [] e.info = "all" -> {n.name} \cup {line(k) : k \in DOMAIN n.lines}
HoverBad(e) ==
  F("nodes", SameBag(e.points, FlatPoints(e.scene, e.nodes)))
  \cup F("edges", SameBag([k \in DOMAIN e.segments |-> ToSet(e.segments[k][1])],
                          [k \in DOMAIN e.scene.edges |-> FlatSegments(e.scene, e.edges)[k][1]]))
  \cup F("edge-colours", SameBag(Pairs(e.segments), FlatSegments(e.scene, e.edges)))
  \cup F("hover", Len(e.hover) = Len(e.scene.nodes)
                  /\ \A k \in DOMAIN e.hover : ToSet(e.hover[k]) = Lines(e, e.scene.nodes[k]))
  \cup F("title", e.title = TitleOf(e.titled, e.titletext, e.labels))
\* Edges <<ends, weight, colour>>: one colour per weight, and labels of all weights.
GraphOfBad(e) ==
  LET plain(s) == [k \in DOMAIN s |-> <<ToSet(s[k][1]), s[k][2]>>]
      ws == {e.got[k][2] : k \in DOMAIN e.got}
      wmax == CHOOSE w \in ws : \A v \in ws : v <= w
      wmin == CHOOSE w \in ws : \A v \in ws : w <= v
      colours(w) == {e.got[k][3] : k \in {k \in DOMAIN e.got : e.got[k][2] = w}}
  IN F("nodes", e.gotnodes = e.wantnodes)
     \cup F("edges", SameBag(plain(e.got), plain(e.want)))
     \cup (IF e.got = <<>> THEN {} ELSE
           F("edge-colours", (\A w \in ws : Cardinality(colours(w)) = 1)
                             /\ (wmin # wmax => colours(wmin) # colours(wmax)))
           \cup F("scale", e.scale = <<wmin, wmax>>))
     \cup F("edge-labels", ~e.labelled \/ SameBag(e.labels, [k \in DOMAIN e.want |-> e.want[k][2]]))
     \cup F("title", e.title = e.titletext)
SyndromeBad(e) ==
  LET c == [dims |-> e.dims, bounds |-> CodeBounds(e.code, e.ec)]
      boxes == Boxes(c, e.ec, ToSet(e.flips))
      in(b) == {k \in DOMAIN e.faces : Inside(b[1], e.faces[k])}
  IN F("number-of-boxes", Len(e.faces) = 6 * Cardinality(Centres(c, e.ec)))
     \cup F("place-of-box", \A b \in boxes : Cardinality(in(b)) = 6)
     \cup F("shape-of-box", \A b \in boxes :
            LET fs == {e.faces[k] : k \in in(b)}
                lo == [i \in 1..3 |-> Min({f.lo[i] : f \in fs})]
                hi == [i \in 1..3 |-> Max({f.hi[i] : f \in fs})]
            IN {ToSet(f.corners) : f \in fs} = SidesOf(lo, hi)
               /\ \A i \in 1..3 : lo[i] < hi[i] /\ Abs(lo[i] + hi[i] - b[1].lo[i] - b[1].hi[i]) <= 2)
     \cup F("colour-of-box", \A b \in boxes : \A k \in in(b) : e.faces[k].colour = b[2])
     \cup F("box-labels", SameBag(e.marks, [k \in DOMAIN e.named |-> <<Turn(e.named[k][1]), e.named[k][2]>>]))
     \cup F("title", e.title = e.titletext)
     \cup F("nodes", e.shownodes \/ e.points = <<>>)
     \cup F("graph-aligned", e.shownodes =>
              LET p == {<<Turn(q)[1] * 100, Turn(q)[2] * 100, Turn(q)[3] * 100>> : q \in QubitsOf(c, "primal") \cup QubitsOf(c, "dual")}
              IN ToSet(e.points) = p)
RecoveryBad(e) ==
  F("recovery-points", {<<p[1], p[2], p[3]>> : p \in ToSet(e.marks)} = {Turn(p) : p \in ToSet(e.recovery)})
  \cup F("boundary-points", {<<p[1], p[2], p[3]>> : p \in ToSet(e.feet)} = {Turn(p) : p \in ToSet(e.ends)})
  \cup F("matching-paths",
         LET path(s) == [k \in DOMAIN s |-> Turn(s[k])]
             same(s, t) == s = t \/ s = Reverse(t)
             wants == [k \in DOMAIN e.paths |-> path(e.paths[k])]
             norm(s) == {s, Reverse(s)}
         IN SameBag([k \in DOMAIN wants |-> norm(wants[k])], [k \in DOMAIN e.lines |-> norm(e.lines[k])]))
\* A tick at every multiple of the bin width that the data needs (in thousandths),
\* or at the edges of the central bin.
CurveTicksBad(e) ==
  LET at == IF e.central THEN {-500, 500} ELSE {1000 * k : k \in e.low..e.high}
  IN F("ticks-of-the-curve", ToSet(e.ticks) = at)
     \cup F("tick-labels-of-the-curve",
            \A k \in DOMAIN e.ticks : e.ticks[k] \in at => e.texts[k] = PiText(e.ticks[k] \div 500, TRUE))
EventBad(t, e) ==
  IF e.error # "" THEN {"raised " \o e.kind} ELSE
  CASE e.kind = "graph" -> GraphBad(e)
    [] e.kind = "hover" -> HoverBad(e)
    [] e.kind = "graphof" -> GraphOfBad(e)
    [] e.kind = "syndrome" -> SyndromeBad(e)
    [] e.kind = "decoding" ->
         F("numbers-not-distinct", Cardinality(ToSet(e.numbers)) = Len(e.numbers) /\ Len(e.numbers) = e.nodes)
         \cup F("figures", e.none = e.empty)
         \cup UNION {GraphOfBad(e.parts[k]) : k \in DOMAIN e.parts}
    [] e.kind = "recovery" -> RecoveryBad(e)
    [] e.kind = "ticks" -> F("tick", e.text = PiText(e.n, e.tex))
    [] e.kind = "decimals" -> F("tick-decimals", Abs(e.shown - e.value) <= 1)
    [] e.kind = "matrix" -> F("matrix", e.got = e.want)
    [] e.kind = "curve" -> F("curve", e.got = e.want) \cup CurveTicksBad(e)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Verdict == PrintT("VERDICT " \o ToJson([tid |-> tid, bad |-> bad']))
Next ==
  LET t == Traces[tid] IN
  /\ UNCHANGED tid
  /\ \/ /\ l = 0 /\ t.error # ""
        /\ l' = -1 /\ bad' = {<<0, "raised">>} /\ Verdict
     \/ /\ l = 0 /\ t.error = ""
        /\ l' = 1 /\ UNCHANGED bad
     \/ /\ l > 0 /\ l <= Len(t.events)
        /\ l' = l + 1
        /\ bad' = bad \cup {<<l, x>> : x \in EventBad(t, t.events[l])}
     \/ /\ l > 0 /\ l = Len(t.events) + 1 /\ t.error = ""
        /\ l' = -1 /\ UNCHANGED bad /\ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
