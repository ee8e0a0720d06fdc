-------------------------------- MODULE MCPL --------------------------------
(* The algebra of piecewise-linear signals against its definition.  The      *)
(* operators of PL compute breakpoints; here their results are compared, at  *)
(* all points of a fine grid, with suprema and infima taken point by point   *)
(* (including one-sided limits, since signals jump).  Signals have           *)
(* breakpoints at 0, 1, ..., values and slopes that are small integers: all  *)
(* crossings fall on the grid.  A state is a choice of operands; all of them *)
(* (or a random subset) are initial states.                                  *)
EXTENDS PL, FiniteSetsExt, Randomization

CONSTANTS NBps,      \* number of breakpoints
          NPairs     \* how many signals are taken at random; 0: all
Vals   == {0, 1}
Rights == {-1, 0, 1}
Slopes == {-1, 0, 1}

Bp(t, last) == {<<R(t), R(v), R(r), R(d)>> : v \in Vals, r \in Rights, d \in IF last THEN {0} ELSE Slopes}
RECURSIVE Sigs(_)
Sigs(n) == IF n = 0 THEN {<<>>}
           ELSE {<<q>> \o s : q \in Bp(NBps - n, n = 1), s \in Sigs(n - 1)}
All  == Sigs(NBps)
Some == IF NPairs = 0 THEN All ELSE RandomSubset(NPairs, All)
Bounds == {<<Zero, Zero>>, <<Zero, One>>, <<<<1, 2>>, One>>, <<One, R(2)>>, <<Zero, <<1, 2>>>>, <<One, One>>}

VARIABLES f, g, a, b
vars == <<f, g, a, b>>

(* first f, then the rest: the work is shared among TLC's workers *)
Init == f \in Some /\ g = <<>> /\ a = Zero /\ b = Zero
Next == /\ g = <<>> /\ g' \in Some /\ UNCHANGED f
        /\ \E w \in Bounds : a' = w[1] /\ b' = w[2]
Spec == Init /\ [][Next]_vars

(* Signals tabulated at the grid points i/8: eight times the value, right    *)
(* limit and left limit.                                                     *)
Den    == 8
Top   == (NBps + 2) * Den
Scaled(x) == (x[1] * Den) \div x[2]
Exactly(x) == (x[1] * Den) % x[2] = 0
Tab(h) == TLCEval([i \in 0..Top |->
            LET t == Norm(i, Den)
                p == IF i = 0 THEN At(h, t) ELSE Left(h, t)
            IN <<Scaled(At(h, t)), Scaled(Right(h, t)), Scaled(p)>>])
Idx8(x) == Scaled(x)
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x < y THEN y ELSE x

Compare == 0..(NBps * Den)          \* where results are compared

CombOk ==
  g # <<>> =>
  LET F  == Tab(f)
      G  == Tab(g)
      hi == Tab(MaxPL(f, g))
      lo == Tab(MinPL(f, g))
  IN \A i \in Compare : \A k \in 1..3 :
        hi[i][k] = Max2(F[i][k], G[i][k]) /\ lo[i][k] = Min2(F[i][k], G[i][k])

(* the extremum of the values and limits of a table on the points i..j *)
Inf(F, i, j) == FoldLeft(LAMBDA m, k : Min2(m, Min2(F[k][1], Min2(IF k < j THEN F[k][2] ELSE F[k][1],
                                                                  IF k > i THEN F[k][3] ELSE F[k][1]))),
                         F[i][1], [n \in 1..(j - i + 1) |-> i + n - 1])
Sup(F, i, j) == FoldLeft(LAMBDA m, k : Max2(m, Max2(F[k][1], Max2(IF k < j THEN F[k][2] ELSE F[k][1],
                                                                  IF k > i THEN F[k][3] ELSE F[k][1]))),
                         F[i][1], [n \in 1..(j - i + 1) |-> i + n - 1])
WindowOk ==
  g # <<>> =>
  LET F  == Tab(f)
      hi == Tab(Window(TRUE, f, a, b, Zero))
      lo == Tab(Window(FALSE, f, a, b, Zero))
  IN \A i \in 0..(Top - Idx8(b)) : /\ hi[i][1] = Sup(F, i + Idx8(a), i + Idx8(b))
                                    /\ lo[i][1] = Inf(F, i + Idx8(a), i + Idx8(b))

(* sup over s in [t + lo, t + hi] of min(g(s), inf of f over [t, s]), where  *)
(* values and both limits count; acc is <<inf over [t, s], best so far>>     *)
UntilDef(F, G, i, lo, hi) ==
  FoldLeft(LAMBDA acc, j :
             LET l  == IF j = i THEN F[i][1] ELSE Min2(acc[1], Min2(F[j - 1][2], F[j][3]))
                 m  == Min2(l, F[j][1])
                 c1 == IF j > i + lo THEN Min2(G[j][3], l) ELSE acc[2]
                 c2 == IF j >= i + lo THEN Min2(G[j][1], m) ELSE acc[2]
                 c3 == IF j >= i + lo /\ j < i + hi THEN Min2(G[j][2], Min2(F[j][2], m)) ELSE acc[2]
             IN <<m, Max2(acc[2], Max2(c1, Max2(c2, c3)))>>,
           <<F[i][1], -1000>>, [n \in 1..(hi + 1) |-> i + n - 1])[2]

UntilOk ==
  g # <<>> =>
  LET F == Tab(f)
      G == Tab(g)
      h == Tab(Until(f, g, a, b, Zero))
  IN \A i \in 0..(Top - Idx8(b)) : h[i][1] = UntilDef(F, G, i, Idx8(a), Idx8(b))
UntimedOk ==
  g # <<>> =>
  LET F == Tab(f)
      G == Tab(g)
      h == Tab(Untimed(f, g, Zero))
  IN \A i \in Compare : h[i][1] = UntilDef(F, G, i, 0, Top - i)
SimpOk == Tab(Simp(f)) = Tab(f) /\ \A i \in Compare : Tab(Neg(f))[i][1] = -Tab(f)[i][1]
=============================================================================
