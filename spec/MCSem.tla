-------------------------------- MODULE MCSem --------------------------------
(* The semantics the conformance checks use, examined on its own: formulas   *)
(* of depth two over one signal x all small traces x all their prefixes.     *)
(* Values, times and bounds are small integers and halves.                   *)
EXTENDS STL, FiniteSetsExt, Randomization

CONSTANTS Steps,       \* samples of a full trace, one per time unit
          NForms, NTraces   \* how many are taken at random; 0: all

VARIABLES phi, rows, itp
vars == <<phi, rows, itp>>

Sg   == [k |-> "sig", i |-> 1]
Nm(n, d) == [k |-> "num", v |-> Norm(n, d)]
Atoms == {[k |-> ">", l |-> Sg, r |-> Nm(0, 1)], [k |-> "<", l |-> Sg, r |-> Nm(1, 1)],
          [k |-> ">", l |-> Sg, r |-> Nm(1, 2)]}
Ints  == {<<Nm(0, 1), Nm(1, 1)>>, <<Nm(1, 2), Nm(1, 1)>>, <<Nm(1, 1), Nm(1, 1)>>, <<Nm(0, 1), Nm(1, 2)>>}
Not(p) == [k |-> "not", p |-> p]
Bin(o, p, q) == [k |-> o, l |-> p, r |-> q]
Tmp(o, w, p) == [k |-> o, a |-> w[1], b |-> w[2], p |-> p]
Unt(w, p, q) == [k |-> "until", a |-> w[1], b |-> w[2], l |-> p, r |-> q]
Over(P, Q) == {Not(p) : p \in P} \cup {Bin(o, p, q) : o \in {"and", "or", "=>"}, p \in P, q \in Q}
              \cup {Tmp(o, w, p) : o \in {"ev", "alw"}, w \in Ints, p \in P}
              \cup {Unt(w, p, q) : w \in Ints, p \in P, q \in Q}
F1 == Over(Atoms, Atoms)
F2 == Over(F1, Atoms) \cup {Bin(o, p, q) : o \in {"and", "or", "=>"}, p \in Atoms, q \in F1}
      \cup {Unt(w, p, q) : w \in Ints, p \in Atoms, q \in F1}
Forms == Atoms \cup F1 \cup F2
SomeForms == IF NForms = 0 THEN Forms ELSE RandomSubset(NForms, Forms)

Traces == [1..Steps -> {-1, 0, 1, 2}]
SomeTraces == IF NTraces = 0 THEN Traces ELSE RandomSubset(NTraces, Traces)
Rows(v) == [i \in 1..Steps |-> <<R(i - 1), R(v[i])>>]

Init == phi \in SomeForms /\ rows = <<>> /\ itp = "LINEAR"
Next == /\ rows = <<>> /\ UNCHANGED phi
        /\ \E v \in SomeTraces : rows' = Rows(v)
        /\ itp' \in {"LINEAR", "PREVIOUS"}
Spec == Init /\ [][Next]_vars

EnvN(n) == [rows |-> SubSeq(rows, 1, n), itp |-> itp, sem |-> "SPACE", par |-> <<>>]
Full == EnvN(Steps)
Ts   == {Zero, <<1, 2>>, One}
Chosen == rows # <<>>

(* bounds only improve as samples arrive, and end at the robustness *)
Lows(t) == [n \in 1..Steps |-> Lower(phi, EnvN(n), t)]
Ups(t)  == [n \in 1..Steps |-> Upper(phi, EnvN(n), t)]
Refine ==
  Chosen => \A t \in Ts :
    LET lo == TLCEval(Lows(t))
        up == TLCEval(Ups(t))
    IN /\ \A n \in 1..(Steps - 1) : Leq(lo[n], lo[n + 1]) /\ Leq(up[n + 1], up[n])
       /\ \A n \in 1..Steps :
            /\ Leq(lo[n], up[n])
            /\ Covered(phi, EnvN(n), t) => (lo[n] = up[n] /\ up[n] = Rob(phi, Full, t))
            \* the weaker bounds enclose
            /\ Leq(KLowerW(phi, EnvN(n), t, t), lo[n]) /\ Leq(up[n], KUpperW(phi, EnvN(n), t, t))
            /\ Covered(phi, EnvN(n), t) => KLowerW(phi, EnvN(n), t, t) = KUpperW(phi, EnvN(n), t, t)

(* laws *)
Eq(p, q) == \A n \in 1..Steps : \A t \in Ts :
              Lower(p, EnvN(n), t) = Lower(q, EnvN(n), t) /\ Upper(p, EnvN(n), t) = Upper(q, EnvN(n), t)
Laws ==
  Chosen =>
  /\ \A n \in 1..Steps : \A t \in Ts : Lower(Not(phi), EnvN(n), t) = NegR(Upper(phi, EnvN(n), t))
  /\ phi.k = "and" => Eq(phi, Not(Bin("or", Not(phi.l), Not(phi.r)))) /\ Eq(phi, Bin("and", phi.r, phi.l))
  /\ phi.k = "=>"  => Eq(phi, Bin("or", Not(phi.l), phi.r))
  /\ phi.k = "ev"  => Eq(phi, Not(Tmp("alw", <<phi.a, phi.b>>, Not(phi.p))))

(* the robustness signal evaluated on a window is the robustness at its times *)
WindowSig ==
  Chosen => \A t \in Ts : LET u == Plus(t, One) IN
    Covered(phi, Full, u) =>
      LET s == Sig(phi, Full, t, u)
      IN \A x \in {t, Plus(t, <<1, 2>>), u} : At(s, x) = Rob(phi, Full, x)

(* An independent reading of the semantics, point by point on a grid.  It is *)
(* exact for LINEAR traces: their signals are continuous, and extrema are    *)
(* reached where a sample or a crossing is, which the grid contains.         *)
Den == 24

XAt(i) == LET k == i \div Den IN
          IF k + 1 >= Steps THEN rows[Steps][2]
          ELSE Plus(rows[k + 1][2], Times(Minus(rows[k + 2][2], rows[k + 1][2]), Norm(i - k * Den, Den)))
Span == (Steps - 1) * Den
Ix(x) == (x[1] * Den) \div x[2]
BestOf(mx, s) == OptSeq(mx, s)
RECURSIVE DV(_)       \* the table of a formula's robustness at all grid points
DS(p) == TLCEval(DV(p))
DV(p) ==
  CASE p.k = ">" -> [i \in 0..Span |-> Minus(XAt(i), p.r.v)]
    [] p.k = "<" -> [i \in 0..Span |-> Minus(p.r.v, XAt(i))]
    [] p.k = "not" -> LET x == DS(p.p) IN [i \in 0..Span |-> NegR(x[i])]
    [] p.k = "and" -> LET x == DS(p.l) y == DS(p.r) IN [i \in 0..Span |-> MinR(x[i], y[i])]
    [] p.k = "or"  -> LET x == DS(p.l) y == DS(p.r) IN [i \in 0..Span |-> MaxR(x[i], y[i])]
    [] p.k = "=>"  -> LET x == DS(p.l) y == DS(p.r) IN [i \in 0..Span |-> MaxR(NegR(x[i]), y[i])]
    [] p.k \in {"ev", "alw"} ->
         LET x == DS(p.p)
             a == Ix(p.a.v)
             b == Ix(p.b.v)
         IN [i \in 0..Span |-> IF i + b > Span THEN Zero
                               ELSE BestOf(p.k = "ev", [n \in 1..(b - a + 1) |-> x[i + a + n - 1]])]
    [] p.k = "until" ->
         LET x == DS(p.l)
             y == DS(p.r)
             a == Ix(p.a.v)
             b == Ix(p.b.v)
         IN [i \in 0..Span |-> IF i + b > Span THEN Zero
              ELSE FoldLeft(LAMBDA acc, n :
                              LET j == i + n - 1
                                  m == MinR(acc[1], x[j])
                              IN <<m, IF n - 1 < a THEN acc[2] ELSE MaxR(acc[2], MinR(y[j], m))>>,
                            <<x[i], R(-1000)>>, [n \in 1..(b + 1) |-> n])[2]]
PointwiseOk ==
  (Chosen /\ itp = "LINEAR") =>
    LET d == TLCEval(DV(phi)) IN
    \A t \in {x \in Ts \cup {<<1, 4>>, <<3, 2>>} : Covered(phi, Full, x)} :
       \/ Rob(phi, Full, t) = d[Ix(t)]
       \* a crossing between grid points may be missed by the grid
       \/ Leq(AbsR(Minus(Rob(phi, Full, t), d[Ix(t)])), <<3, 2 * Den>>)

(* the sign is the verdict of the Boolean semantics *)
RECURSIVE SV(_)
SV(p) ==
  CASE p.k = ">" -> [i \in 0..Span |-> Lt(p.r.v, XAt(i))]
    [] p.k = "<" -> [i \in 0..Span |-> Lt(XAt(i), p.r.v)]
    [] p.k = "not" -> LET x == TLCEval(SV(p.p)) IN [i \in 0..Span |-> ~x[i]]
    [] p.k = "and" -> LET x == TLCEval(SV(p.l)) y == TLCEval(SV(p.r)) IN [i \in 0..Span |-> x[i] /\ y[i]]
    [] p.k = "or"  -> LET x == TLCEval(SV(p.l)) y == TLCEval(SV(p.r)) IN [i \in 0..Span |-> x[i] \/ y[i]]
    [] p.k = "=>"  -> LET x == TLCEval(SV(p.l)) y == TLCEval(SV(p.r)) IN [i \in 0..Span |-> x[i] => y[i]]
    [] p.k = "ev"  -> LET x == TLCEval(SV(p.p)) IN
                      [i \in 0..Span |-> \E j \in (i + Ix(p.a.v))..Min({i + Ix(p.b.v), Span}) : x[j]]
    [] p.k = "alw" -> LET x == TLCEval(SV(p.p)) IN
                      [i \in 0..Span |-> \A j \in (i + Ix(p.a.v))..Min({i + Ix(p.b.v), Span}) : x[j]]
    [] p.k = "until" -> LET x == TLCEval(SV(p.l)) y == TLCEval(SV(p.r)) IN
                      [i \in 0..Span |-> \E j \in (i + Ix(p.a.v))..Min({i + Ix(p.b.v), Span}) :
                                            y[j] /\ \A k \in i..j : x[k]]
Verdict ==
  (Chosen /\ itp = "LINEAR") =>
    LET d == TLCEval(SV(phi)) IN
    \A t \in {x \in Ts : Covered(phi, Full, x)} :
       LET r == Rob(phi, Full, t) IN
       \* (values closer to zero than the grid's resolution prove nothing)
       /\ Lt(<<3, 2 * Den>>, r) => d[Ix(t)]
       /\ Lt(r, NegR(<<3, 2 * Den>>)) => ~d[Ix(t)]

(* the units of time and value do not matter: with times and bounds          *)
(* multiplied by ck and moved by cs, and values and numbers multiplied by cv *)
RECURSIVE InUnits(_, _, _)
InUnits(p, ck, cv) ==
  CASE p.k \in {"<", ">"} -> [p EXCEPT !.r = [k |-> "num", v |-> Times(p.r.v, cv)]]
    [] p.k = "not" -> Not(InUnits(p.p, ck, cv))
    [] p.k \in {"and", "or", "=>"} -> Bin(p.k, InUnits(p.l, ck, cv), InUnits(p.r, ck, cv))
    [] p.k \in {"ev", "alw", "until"} ->
         LET w == <<[k |-> "num", v |-> Times(p.a.v, ck)], [k |-> "num", v |-> Times(p.b.v, ck)]>>
         IN IF p.k = "until" THEN Unt(w, InUnits(p.l, ck, cv), InUnits(p.r, ck, cv))
            ELSE Tmp(p.k, w, InUnits(p.p, ck, cv))
EnvIn(env, ck, cv, cs) ==
  [env EXCEPT !.rows = [i \in DOMAIN env.rows |-> <<Plus(Times(env.rows[i][1], ck), cs), Times(env.rows[i][2], cv)>>]]
\* the bounds of what nothing is known about are not in any unit
In(x, cv) == IF Lt(x, BigM) /\ Lt(NegR(BigM), x) THEN Times(x, cv) ELSE x
Scales == {<<R(3), One, Zero>>, <<One, R(5), Zero>>, <<One, One, R(7)>>, <<<<1, 8>>, <<1, 2>>, R(-2)>>}
Units ==
  Chosen => \A u \in Scales :
    LET q == InUnits(phi, u[1], u[2]) IN
    \A n \in {2, Steps} : \A t \in Ts :
      LET e == EnvN(n)
          f == EnvIn(e, u[1], u[2], u[3])
          x == Plus(Times(t, u[1]), u[3])
      IN /\ Lower(q, f, x) = In(Lower(phi, e, t), u[2])
         /\ Upper(q, f, x) = In(Upper(phi, e, t), u[2])
\* time robustness is a time
TimeUnits ==
  Chosen => \A sem \in {"LEFT_TIME", "RIGHT_TIME"} : \A u \in Scales :
    \A t \in {x \in Ts : Covered(phi, Full, x)} :
      LET e == [Full EXCEPT !.sem = sem]
          f == EnvIn(e, u[1], u[2], u[3])
      IN Rob(InUnits(phi, u[1], u[2]), f, Plus(Times(t, u[1]), u[3])) = In(Rob(phi, e, t), u[1])
=============================================================================
