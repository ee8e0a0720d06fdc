-------------------------------- MODULE STL --------------------------------
(* Signal Temporal Logic: syntax (records), quantitative semantics, and the  *)
(* two interval semantics that bracket what a monitor may report on a        *)
(* partial trace.                                                            *)
(*                                                                           *)
(* Expressions  [k |-> "sig", i]  [k |-> "num", v]  [k |-> "par", n]         *)
(*              [k |-> "abs", p]  [k |-> "+" / "-" / "*", l, r]              *)
(* Formulas     [k |-> "<" / ">", l, r]  [k |-> "not", p]                    *)
(*              [k |-> "and" / "or" / "=>", l, r]                            *)
(*              [k |-> "ev" / "alw", a, b, p]   [k |-> "until", a, b, l, r]  *)
(* where a, b are [k |-> "num", v] or [k |-> "par", n].                      *)
(*                                                                           *)
(* Environment  [rows |-> sequence of samples <<t, x1, ..., xn>>,            *)
(*               big |-> the bound of what is unknown (BigM if missing),    *)
(*               itp |-> "LINEAR" / "PREVIOUS",                              *)
(*               sem |-> "SPACE" / "LEFT_TIME" / "RIGHT_TIME",               *)
(*               par |-> function from parameter names to rationals]         *)
EXTENDS PL

BigM == <<10000, 1>>                      \* unless set otherwise
Big(env) == IF "big" \in DOMAIN env THEN env.big ELSE BigM

Num(x, par) == IF x.k = "num" THEN x.v ELSE par[x.n]

RECURSIVE Horizon(_, _)
Horizon(phi, par) ==
  CASE phi.k \in {"<", ">"}          -> Zero
    [] phi.k = "not"                 -> Horizon(phi.p, par)
    [] phi.k \in {"and", "or", "=>"} -> MaxR(Horizon(phi.l, par), Horizon(phi.r, par))
    [] phi.k \in {"ev", "alw"}       -> Plus(Num(phi.b, par), Horizon(phi.p, par))
    [] phi.k = "until"               -> Plus(Num(phi.b, par),
                                             MaxR(Horizon(phi.l, par), Horizon(phi.r, par)))

LastTime(env) == env.rows[Len(env.rows)][1]
(* all samples the value of phi at t may depend on are there *)
Covered(phi, env, t) == Leq(Plus(t, Horizon(phi, env.par)), LastTime(env))

(*------------------------------- atoms ----------------------------------*)
RECURSIVE ExprAt(_, _, _)
ExprAt(x, row, par) ==
  CASE x.k = "sig" -> row[x.i + 1]
    [] x.k = "num" -> x.v
    [] x.k = "par" -> par[x.n]
    [] x.k = "abs" -> AbsR(ExprAt(x.p, row, par))
    [] x.k = "+"   -> Plus(ExprAt(x.l, row, par), ExprAt(x.r, row, par))
    [] x.k = "-"   -> Minus(ExprAt(x.l, row, par), ExprAt(x.r, row, par))
    [] x.k = "*"   -> Times(ExprAt(x.l, row, par), ExprAt(x.r, row, par))

(* Samples may be older than the declaration of a signal, and then have no   *)
(* value of it.  Asking for one of those has no answer.                      *)
RECURSIVE XLacks(_, _), Lacks(_, _, _)
XLacks(x, row) == CASE x.k = "sig" -> Len(row) <= x.i
                    [] x.k \in {"num", "par"} -> FALSE
                    [] x.k = "abs" -> XLacks(x.p, row)
                    [] OTHER -> XLacks(x.l, row) \/ XLacks(x.r, row)
Lacks(phi, env, e) ==
  CASE phi.k \in {"<", ">"} ->
         \E i \in 1..Len(env.rows) : /\ i = 1 \/ Leq(env.rows[i - 1][1], e)
                                     /\ XLacks(phi.l, env.rows[i]) \/ XLacks(phi.r, env.rows[i])
    [] phi.k = "not" -> Lacks(phi.p, env, e)
    [] phi.k \in {"ev", "alw"} -> Lacks(phi.p, env, Plus(e, Num(phi.b, env.par)))
    [] phi.k = "until" -> LET u == Plus(e, Num(phi.b, env.par))
                          IN Lacks(phi.l, env, u) \/ Lacks(phi.r, env, u)
    [] OTHER -> Lacks(phi.l, env, e) \/ Lacks(phi.r, env, e)
(* (what is missing in samples that are not looked at does not matter) *)
Padded(env) ==
  LET n == FoldSeq(LAMBDA r, k : IF Len(r) > k THEN Len(r) ELSE k, 0, env.rows)
  IN IF \A i \in 1..Len(env.rows) : Len(env.rows[i]) = n THEN env
     ELSE [env EXCEPT !.rows = [i \in 1..Len(@) |-> @[i] \o [j \in 1..(n - Len(@[i])) |-> Zero]]]

(* the trace at time t, between two samples *)
RowBetween(itp, p, q, t) ==
  TLCEval([i \in 1..Len(p) |->
     IF i = 1 THEN t
     ELSE IF itp = "PREVIOUS" THEN p[i]
     ELSE Plus(p[i], Times(Div(Minus(q[i], p[i]), Minus(q[1], p[1])), Minus(t, p[1])))])

(* The part of the trace an atom looks at for the window [s, e]: the samples *)
(* in it, plus its two ends by interpolation.  The first sample holds before *)
(* its time; if all samples are before s, only the last one remains.         *)
Slice(env, s, e) ==
  LET rows == env.rows
      n    == Len(rows)
      k    == CHOOSE i \in 0..n : /\ i = 0 \/ Leq(rows[i][1], s)     \* last sample <= s
                                  /\ i = n \/ Lt(s, rows[i + 1][1])
      m    == CHOOSE i \in 0..n : /\ i = 0 \/ Leq(rows[i][1], e)     \* last sample <= e
                                  /\ i = n \/ Lt(e, rows[i + 1][1])
      mid  == SubSeq(rows, k + 1, m)
      pre  == IF k = 0 THEN << TLCEval([rows[1] EXCEPT ![1] = s]) >>
              ELSE IF rows[k][1] = s \/ k = n THEN << rows[k] >>
              ELSE << RowBetween(env.itp, rows[k], rows[k + 1], s) >>
      all  == pre \o mid
      post == IF m = n \/ all[Len(all)][1] = e THEN <<>>
              ELSE IF m = 0 THEN << TLCEval([rows[1] EXCEPT ![1] = e]) >>
              ELSE << RowBetween(env.itp, rows[m], rows[m + 1], e) >>
  IN all \o post

(* signal through the values vs at the times of rows, tail from dflt after it*)
Through(itp, rows, vs, dflt) ==
  TLCEval([i \in 1..Len(vs) |->
     IF i = Len(vs) THEN <<rows[i][1], vs[i], dflt, Zero>>
     ELSE <<rows[i][1], vs[i], vs[i],
            IF itp = "PREVIOUS" THEN Zero
            ELSE Div(Minus(vs[i + 1], vs[i]), Minus(rows[i + 1][1], rows[i][1]))>>])

AtomSpace(phi, env, s, e, dflt) ==
  LET rows == Slice(env, s, e)
      vs   == TLCEval([i \in 1..Len(rows) |->
                LET l == ExprAt(phi.l, rows[i], env.par)
                    r == ExprAt(phi.r, rows[i], env.par)
                IN IF phi.k = "<" THEN Minus(r, l) ELSE Minus(l, r)])
  IN Through(env.itp, rows, vs, dflt)

(* Time robustness: truth of the atom on its window, as a sequence of        *)
(* <<start, truth>>, then plus/minus the distance to the last (LEFT) or to   *)
(* the next (RIGHT) change or end of the window.                             *)
Truth(f, e) ==
  LET piece(i) ==
        LET q   == f[i]
            pos == Lt(Zero, q[3]) \/ (q[3] = Zero /\ Lt(Zero, q[4]))
            val == IF q[1] = e THEN Lt(Zero, q[2]) ELSE pos
            c   == IF q[4] = Zero THEN q[1] ELSE Minus(q[1], Div(q[3], q[4]))
            lim == IF i < Len(f) THEN MinR(e, f[i + 1][1]) ELSE e
        IN IF Lt(e, q[1]) THEN <<>>
           ELSE IF Lt(q[1], c) /\ Lt(c, lim) THEN << <<q[1], val>>, <<c, ~pos>> >>
           ELSE << <<q[1], val>> >>
  IN FoldLeft(LAMBDA out, x : IF out # <<>> /\ out[Len(out)][2] = x[2] THEN out ELSE Append(out, x),
              <<>>, FlattenSeq(TLCEval([i \in 1..Len(f) |-> piece(i)])))

AtomTime(phi, env, s, e) ==
  LET f  == AtomSpace(phi, env, s, e, Zero)
      e1 == MinR(e, LastTime(env))
      ch == Truth(f, e1)
  IN TLCEval([i \in 1..Len(ch) |->
        LET n == IF i < Len(ch) THEN ch[i + 1][1] ELSE e1
            h == Minus(n, ch[i][1])
            v == IF env.sem = "LEFT_TIME" THEN Zero ELSE IF ch[i][2] THEN h ELSE NegR(h)
            d == IF (env.sem = "LEFT_TIME") = ch[i][2] THEN One ELSE NegR(One)
        IN <<ch[i][1], v, v, d>>])

AtomSig(phi, env, s, e, dflt) ==
  IF env.sem = "SPACE" THEN AtomSpace(phi, env, s, e, dflt) ELSE AtomTime(phi, env, s, e)

(*--------------------- quantitative semantics with bounds ----------------*)
(* B(phi, env, s, e, up): signal, valid for t in [s, e], of the best upper   *)
(* (up) or lower bound of the robustness over all ways the trace may go on   *)
(* with values within +-BigM; it is the robustness itself where the trace is *)
(* long enough.                                                              *)
RECURSIVE B(_, _, _, _, _)
B(phi, env, s, e, up) ==
  CASE phi.k \in {"<", ">"} -> AtomSig(phi, env, s, e, IF up THEN Big(env) ELSE NegR(Big(env)))
    [] phi.k = "not"        -> Neg(B(phi.p, env, s, e, ~up))
    [] phi.k = "and"        -> MinPL(B(phi.l, env, s, e, up), B(phi.r, env, s, e, up))
    [] phi.k = "or"         -> MaxPL(B(phi.l, env, s, e, up), B(phi.r, env, s, e, up))
    [] phi.k = "=>"         -> MaxPL(Neg(B(phi.l, env, s, e, ~up)), B(phi.r, env, s, e, up))
    [] phi.k \in {"ev", "alw"} ->
         LET a == Num(phi.a, env.par)
             b == Num(phi.b, env.par)
             s1 == Plus(s, a)
             e1 == Plus(e, b)
             f == B(phi.p, env, s1, e1, up)
         IN Window(phi.k = "ev", f, a, b, MaxR(s, Minus(Begin(f), a)))
    [] phi.k = "until" ->
         LET a == Num(phi.a, env.par)
             b == Num(phi.b, env.par)
             h == Plus(e, b)
             \* nothing is looked at after h; the sweep wants a constant end
             Cut(f) == IF Lt(h, Begin(f)) THEN f ELSE Trunc(f, h, Zero)
             f == B(phi.l, env, s, h, up)
             s1 == Plus(s, a)
             g == B(phi.r, env, s1, h, up)
         IN Until(Cut(f), Cut(g), a, b, s)

(* K(phi, env, s, e, up) = <<signal, k>>: what is known for sure if every    *)
(* subformula only uses values of its operands up to their known end k, and  *)
(* reports +-BigM when nothing is known at s.                                *)
RECURSIVE K(_, _, _, _, _)
K(phi, env, s, e, up) ==
  LET dflt   == IF up THEN Big(env) ELSE NegR(Big(env))
      None   == << Const(s, dflt), s >>
      Tr(f, k) == IF Lt(k, s) \/ Lt(k, Begin(f)) THEN Const(s, dflt) ELSE Trunc(f, k, dflt)
  IN
  CASE phi.k \in {"<", ">"} -> << B(phi, env, s, e, up), LastTime(env) >>
    [] phi.k = "not" -> LET x == K(phi.p, env, s, e, ~up) IN << Neg(x[1]), x[2] >>
    [] phi.k \in {"and", "or", "=>"} ->
         LET x0 == K(phi.l, env, s, e, IF phi.k = "=>" THEN ~up ELSE up)
             x  == IF phi.k = "=>" THEN Neg(x0[1]) ELSE x0[1]
             y  == K(phi.r, env, s, e, up)
             k  == MaxR(s, MinR(x0[2], y[2]))
         IN << Tr(Comb(phi.k # "and", x, y[1]), k), k >>
    [] phi.k \in {"ev", "alw"} ->
         LET a  == Num(phi.a, env.par)
             b  == Num(phi.b, env.par)
             s1 == Plus(s, a)
             e1 == Plus(e, b)
             x  == K(phi.p, env, s1, e1, up)
             k  == Minus(x[2], IF up = (phi.k = "ev") THEN b ELSE a)
         IN IF Lt(k, s) THEN None
            ELSE << Tr(Window(phi.k = "ev", x[1], a, b, MaxR(s, Minus(Begin(x[1]), a))), k), k >>
    [] phi.k = "until" ->
         LET a  == Num(phi.a, env.par)
             b  == Num(phi.b, env.par)
             h  == Plus(e, b)
             x  == K(phi.l, env, s, h, up)
             s1 == Plus(s, a)
             y  == K(phi.r, env, s1, h, up)
             k  == Minus(MinR(x[2], y[2]), IF up THEN b ELSE a)
         IN IF Lt(k, s) THEN None ELSE << Tr(Until(x[1], y[1], a, b, s), k), k >>

Sig(phi, env, s, e)   == B(phi, env, s, e, TRUE)   \* the robustness signal, where covered
(* answers at t, computed on the window [t, u] *)
LowerW(phi, env, t, u)  == At(B(phi, env, t, u, FALSE), t)
UpperW(phi, env, t, u)  == At(B(phi, env, t, u, TRUE), t)
RobW(phi, env, t, u)    == At(Sig(phi, env, t, u), t)    \* where covered
KLowerW(phi, env, t, u) == At(K(phi, env, t, u, FALSE)[1], t)
KUpperW(phi, env, t, u) == At(K(phi, env, t, u, TRUE)[1], t)
Lower(phi, env, t)  == LowerW(phi, env, t, t)
Upper(phi, env, t)  == UpperW(phi, env, t, t)
Rob(phi, env, t)    == RobW(phi, env, t, t)
=============================================================================
