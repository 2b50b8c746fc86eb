------------------------------ MODULE Drawing ------------------------------
(***************************************************************************)
(* What a drawing shows.  A scene is a graph whose nodes lie at points of   *)
(* space, with attributes; a picture is a bag of marks (points, segments    *)
(* and texts), given as a sequence, in hundredths of a unit.                *)
(***************************************************************************)
EXTENDS Decoding
Count(seq, x) == Cardinality({k \in DOMAIN seq : seq[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Count(s, s[k]) = Count(t, s[k])
\* matplotlib: z goes into the page and y up
Turn(p) == <<p[1], p[3], p[2]>>
BLACK == "#000000"
GREY == "#808080"

\* how: [kind |-> "default" | "name" | "own" | "map", name, attr, map]
\* attrs: a function from the names of attributes to texts
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Colour(how, attrs, default) ==
  CASE how.kind = "name" -> how.name
    [] how.kind = "own" -> Get(attrs, "color", default)
    [] how.kind = "map" -> IF how.attr \in DOMAIN attrs THEN Get(how.map, attrs[how.attr], default) ELSE default
    [] OTHER -> default

\* g: [nodes |-> sequence of [at, attrs, value], edges |-> sequence of [a, b, attrs]],
\* a node's value being the number its label shows, or <<>>.
Points(g, how) == [k \in DOMAIN g.nodes |-> <<Turn(g.nodes[k].at), Colour(how, g.nodes[k].attrs, BLACK)>>]
FlatPoints(g, how) == [k \in DOMAIN g.nodes |-> <<g.nodes[k].at, Colour(how, g.nodes[k].attrs, BLACK)>>]
Segments(g, how) == [k \in DOMAIN g.edges |->
   <<{Turn(g.nodes[g.edges[k].a].at), Turn(g.nodes[g.edges[k].b].at)}, Colour(how, g.edges[k].attrs, GREY)>>]
FlatSegments(g, how) == [k \in DOMAIN g.edges |->
   <<{g.nodes[g.edges[k].a].at, g.nodes[g.edges[k].b].at}, Colour(how, g.edges[k].attrs, GREY)>>]

\* Titles: of a text, itself; of TRUE, the names of the labels.
Titles == [p_phase |-> "Phase error probabilities",
           p_phase_cond |-> "Conditional phase error probabilities",
           hom_val_p |-> "p-homodyne outcomes", hom_val_q |-> "q-homodyne outcomes",
           bit_val |-> "Bit values", weight |-> "Weights", index |-> "Indices"]
RECURSIVE Commas(_)
Commas(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o ", " \o Commas(Tail(s))
TitleOf(given, text, labels) ==
  CASE given = "text" -> text
    [] given = "yes" /\ Len(labels) = 1 -> Get(Titles, labels[1], labels[1])
    [] given = "yes" /\ Len(labels) > 1 -> Commas(labels)
    [] OTHER -> ""

(***************************************************************************)
(* Syndromes: a box around the centre of every stabilizer, red when it is   *)
(* violated.                                                                *)
(***************************************************************************)
\* the corners of the box of the stabilizer centred at s, in hundredths
BoxOf(s) == [lo |-> [i \in 1..3 |-> 100 * (Turn(s)[i] - 1)], hi |-> [i \in 1..3 |-> 100 * (Turn(s)[i] + 1)]]
Inside(b, f) == \A i \in 1..3 : b.lo[i] <= f.lo[i] /\ f.hi[i] <= b.hi[i]
\* the six sides of the box from lo to hi, each the set of its corners
SidesOf(lo, hi) ==
  LET ends(i) == {lo[i], hi[i]}
      corners == {<<a, b, d>> : a \in ends(1), b \in ends(2), d \in ends(3)}
  IN {{p \in corners : p[i] = v} : <<i, v>> \in {<<j, lo[j]>> : j \in 1..3} \cup {<<j, hi[j]>> : j \in 1..3}}
Boxes(c, ec, E) == LET odd == SyndromeOf(c, ec, E)
                   IN {<<BoxOf(s), IF s \in odd THEN "red" ELSE "green">> : s \in Centres(c, ec)}

(***************************************************************************)
(* Tick labels: n half multiples of the square root of pi.                  *)
(***************************************************************************)
PiText(n, tex) ==
  IF n = 0 THEN "0"
  ELSE LET even == n % 2 = 0
           m == IF even THEN n \div 2 ELSE n
           sign == IF m = 1 THEN "" ELSE IF m = -1 THEN "-" ELSE ToString(m)
           body == sign \o "\\sqrt{\\pi}" \o (IF even THEN "" ELSE "/2")
       IN IF tex THEN "$" \o body \o "$" ELSE body
=============================================================================
