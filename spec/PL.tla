--------------------------------- MODULE PL ---------------------------------
(* Piecewise-linear signals of dense time, right-unbounded, possibly         *)
(* discontinuous.  A signal is a non-empty sequence of breakpoints           *)
(*     <<t, v, r, d>>                                                        *)
(* with strictly increasing t: its value AT t is v, and strictly between t   *)
(* and the next breakpoint (or forever, after the last one) its value at s   *)
(* is r + d*(s-t).  Its domain starts at the first breakpoint.               *)
(* The operators below are exact: no sampling, no tolerance.  (TLCEval makes  *)
(* TLC compute a sequence once instead of at every access.)                  *)
EXTENDS Rat, Sequences, FiniteSets, SequencesExt, TLC

T(q)  == q[1]
V(q)  == q[2]
Rt(q) == q[3]
D(q)  == q[4]

(* number of breakpoints at or before s.  (Folds instead of recursive        *)
(* operators: TLC evaluates the arguments of the latter again at every use.) *)
Idx(f, s)  == FoldLeft(LAMBDA n, q : IF Leq(q[1], s) THEN n + 1 ELSE n, 0, f)

LineAt(q, s) == IF q[4][1] = 0 THEN q[3] ELSE Plus(q[3], Times(q[4], Minus(s, q[1])))

(* value at s, right limit at s, slope right of s, left limit at s *)
At(f, s)      == LET q == f[Idx(f, s)] IN IF q[1] = s THEN q[2] ELSE LineAt(q, s)
Right(f, s)   == LET q == f[Idx(f, s)] IN IF q[1] = s THEN q[3] ELSE LineAt(q, s)
Slope(f, s)   == f[Idx(f, s)][4]
Left(f, s)    == LET i == Idx(f, s)
                     q == IF f[i][1] = s THEN f[i - 1] ELSE f[i]
                 IN LineAt(q, s)

Begin(f) == f[1][1]

(* the same signal without redundant breakpoints *)
Simp(f) == FoldLeft(LAMBDA out, q :
                      IF out = <<>> THEN <<q>>
                      ELSE LET p == out[Len(out)]
                           IN IF q[2] = q[3] /\ p[4] = q[4] /\ LineAt(p, q[1]) = q[2] THEN out
                              ELSE Append(out, q),
                    <<>>, f)

Const(t, v)  == << <<t, v, v, Zero>> >>
Neg(f)       == TLCEval([i \in 1..Len(f) |-> <<f[i][1], NegR(f[i][2]), NegR(f[i][3]), NegR(f[i][4])>>])

(* f restricted to [s, oo) (s at or after the beginning of f) *)
Clip(f, s)   == IF Leq(s, f[1][1]) THEN f
                ELSE LET i == Idx(f, s)
                     IN << <<s, At(f, s), Right(f, s), f[i][4]>> >> \o SubSeq(f, i + 1, Len(f))
(* g(t) = f(t + a) for t >= s *)
ShiftL(f, a, s) == Clip(TLCEval([i \in 1..Len(f) |-> <<Minus(f[i][1], a), f[i][2], f[i][3], f[i][4]>>]), s)
(* f up to and including e, the constant v after e *)
Trunc(f, e, v) == LET h == SelectSeq(f, LAMBDA q : Lt(q[1], e))
                  IN Simp(Append(h, <<e, At(f, e), v, Zero>>))

SortedTimes(S) == SetToSortSeq(S, LAMBDA a, b : Lt(a, b))
TimesOf(f)     == {f[i][1] : i \in 1..Len(f)}

(* Best(mx, a, b): is a strictly better than b when maximising/minimising *)
Best(mx, a, b)  == IF mx THEN Lt(b, a) ELSE Lt(a, b)
Opt(mx, a, b)   == IF Best(mx, b, a) THEN b ELSE a
OptSeq(mx, s)   == FoldLeft(LAMBDA acc, x : Opt(mx, acc, x), s[1], s)

(* Pieces <<p, r, d>> of the upper/lower envelope of two lines (values r1,   *)
(* r2 and slopes d1, d2 at p) on the open interval (p, n); bounded = FALSE   *)
(* means n = oo.                                                             *)
Envelope2(mx, r1, d1, r2, d2, p, n, bounded) ==
  LET first == IF r1 = r2 THEN <<p, r1, Opt(mx, d1, d2)>>
               ELSE IF Best(mx, r1, r2) THEN <<p, r1, d1>> ELSE <<p, r2, d2>>
  IN IF d1 = d2 \/ r1 = r2 THEN <<first>>
     ELSE LET c == Plus(p, Div(Minus(r2, r1), Minus(d1, d2)))
          IN IF Lt(p, c) /\ (~bounded \/ Lt(c, n))
             THEN <<first, <<c, Plus(r1, Times(d1, Minus(c, p))), Opt(mx, d1, d2)>> >>
             ELSE <<first>>

(* pieces -> breakpoints; v is the value at the first one *)
ToBps(ps, v) == TLCEval([i \in 1..Len(ps) |-> <<ps[i][1], IF i = 1 THEN v ELSE ps[i][2], ps[i][2], ps[i][3]>>])

(* pointwise maximum (mx) or minimum of two signals, on their common domain *)
Comb(mx, f, g) ==
  LET s  == MaxR(f[1][1], g[1][1])
      ts == SortedTimes({s} \cup {t \in TimesOf(f) \cup TimesOf(g) : Lt(s, t)})
      piece(k) ==
        LET t  == ts[k]
            bd == k < Len(ts)
            fi == f[Idx(f, t)]
            gj == g[Idx(g, t)]
            vf == IF fi[1] = t THEN fi[2] ELSE LineAt(fi, t)
            vg == IF gj[1] = t THEN gj[2] ELSE LineAt(gj, t)
            ps == Envelope2(mx, LineAt(fi, t), fi[4], LineAt(gj, t), gj[4], t,
                            IF bd THEN ts[k + 1] ELSE t, bd)
        IN ToBps(ps, Opt(mx, vf, vg))
  IN Simp(FlattenSeq(TLCEval([k \in 1..Len(ts) |-> piece(k)])))
MaxPL(f, g) == Comb(TRUE, f, g)
MinPL(f, g) == Comb(FALSE, f, g)

(* extremum of f over the closed interval [lo, hi], limits included *)
WinAt(mx, f, lo, hi) ==
  IF lo = hi THEN At(f, lo)
  ELSE LET i  == Idx(f, lo)
           ks == SelectSeq([k \in 1..(Len(f) - i) |-> i + k], LAMBDA k : Lt(f[k][1], hi))
           in == TLCEval([k \in 1..Len(ks) |->
                    OptSeq(mx, <<f[ks[k]][2], f[ks[k]][3], LineAt(f[ks[k] - 1], f[ks[k]][1])>>)])
       IN OptSeq(mx, <<At(f, lo), Right(f, lo), Left(f, hi), At(f, hi)>> \o in)

(* envelope of three lines on (p, n), as pieces *)
Envelope3(mx, r1, d1, r2, d2, r3, d3, p, n, bounded) ==
  LET ps == Envelope2(mx, r1, d1, r2, d2, p, n, bounded)
      third(i) == LET q == ps[i]
                      e == IF i < Len(ps) THEN ps[i + 1][1] ELSE n
                  IN Envelope2(mx, q[2], q[3], Plus(r3, Times(d3, Minus(q[1], p))), d3,
                               q[1], e, bounded \/ i < Len(ps))
  IN IF Len(ps) = 1 THEN third(1) ELSE third(1) \o third(2)

(* g(t) = extremum of f over [t+a, t+b], for t >= s  (s + a in the domain) *)
Window(mx, f, a, b, s) ==
  IF a = b THEN ShiftL(f, a, s)
  ELSE
  LET tf == TimesOf(f)
      ts == SortedTimes({s} \cup {x \in {Minus(t, a) : t \in tf} \cup {Minus(t, b) : t \in tf} : Lt(s, x)})
      piece(k) ==
        LET t   == ts[k]
            bd  == k < Len(ts)
            n   == IF bd THEN ts[k + 1] ELSE Plus(t, One)
            lo  == Plus(t, a)
            hi  == Plus(t, b)
            v   == WinAt(mx, f, lo, hi)
            i   == Idx(f, lo)
            \* breakpoints strictly inside the moving window while t is in (t, n)
            ks  == SelectSeq([m \in 1..(Len(f) - i) |-> i + m], LAMBDA m : Leq(f[m][1], hi))
            in  == TLCEval([m \in 1..Len(ks) |->
                     OptSeq(mx, <<f[ks[m]][2], f[ks[m]][3], LineAt(f[ks[m] - 1], f[ks[m]][1])>>)])
            r1  == Right(f, lo)
            d1  == Slope(f, lo)
            r2  == Right(f, hi)
            d2  == Slope(f, hi)
        IN ToBps(IF in = <<>> THEN Envelope2(mx, r1, d1, r2, d2, t, n, bd)
                 ELSE Envelope3(mx, r1, d1, r2, d2, OptSeq(mx, in), Zero, t, n, bd), v)
  IN Simp(FlattenSeq(TLCEval([k \in 1..Len(ts) |-> piece(k)])))

(* untimed until: h(t) = sup over s >= t of min(g(s), inf over [t,s] of f).  *)
(* Backward sweep; both signals must be eventually constant.                 *)
UntilStep(f, g, ts, k, acc) ==
  LET zn  == acc[1]      \* value at ts[k + 1]
      res == acc[2]      \* pieces from ts[k + 1] on
      p   == ts[k]
      bd  == k < Len(ts)
      n   == IF bd THEN ts[k + 1] ELSE p
      L   == Minus(n, p)
      rx  == Right(f, p)
      dx  == Slope(f, p)
      ry  == Right(g, p)
      dy  == Slope(g, p)
      ps  == IF ~bd THEN << <<p, MinR(rx, ry), Zero>> >>
             ELSE IF Leq(Zero, dx)
             THEN \* x non-decreasing: min(x(t), max(y(t), y(n-), Z(n)))
               LET c  == MaxR(Plus(ry, Times(dy, L)), zn)
                   qs == Envelope2(TRUE, ry, dy, c, Zero, p, n, TRUE)
                   sub(i) == Envelope2(FALSE, Plus(rx, Times(dx, Minus(qs[i][1], p))), dx,
                                       qs[i][2], qs[i][3], qs[i][1],
                                       IF i < Len(qs) THEN qs[i + 1][1] ELSE n, TRUE)
               IN IF Len(qs) = 1 THEN sub(1) ELSE sub(1) \o sub(2)
             ELSE \* x decreasing: max(sup over (t,n) of min(x,y), min(x(n-), Z(n)))
               LET c  == MinR(Plus(rx, Times(dx, L)), zn)
                   \* min(x,y) on this piece is one line, crossings are in ts
                   xl == Leq(Plus(Plus(rx, rx), Times(dx, L)), Plus(Plus(ry, ry), Times(dy, L)))
                   mr == IF xl THEN rx ELSE ry
                   md == IF xl THEN dx ELSE dy
               IN IF Leq(Zero, md)
                  THEN << <<p, MaxR(Plus(mr, Times(md, L)), c), Zero>> >>
                  ELSE Envelope2(TRUE, mr, md, c, Zero, p, n, TRUE)
      xv  == At(f, p)
      zp  == MaxR(MinR(xv, At(g, p)), MinR(xv, ps[1][2]))
  IN <<zp, ToBps(ps, zp) \o res>>

Crossings(f, g, ts) ==
  {c \in {LET p == ts[k] IN
          LET d1 == Slope(f, p)
              d2 == Slope(g, p)
          IN IF d1 = d2 THEN p
             ELSE LET c == Plus(p, Div(Minus(Right(g, p), Right(f, p)), Minus(d1, d2)))
                  IN IF Lt(p, c) /\ k < Len(ts) /\ Lt(c, ts[k + 1]) THEN c ELSE p
          : k \in 1..Len(ts)} : TRUE}

Untimed(f0, g0, s) ==
  LET s0 == MaxR(s, MaxR(Begin(f0), Begin(g0)))
      f  == Clip(f0, s0)
      g  == Clip(g0, s0)
      t0 == TimesOf(f) \cup TimesOf(g)
      ts == SortedTimes(t0 \cup Crossings(f, g, SortedTimes(t0)))
      n  == Len(ts)
  IN Simp(FoldLeft(LAMBDA acc, i : UntilStep(f, g, ts, n + 1 - i, acc), <<Zero, <<>> >>,
                   TLCEval([i \in 1..n |-> i]))[2])

(* h(t) = sup over s in [t+a, t+b] of min(g(s), inf over [t, s] of f), for   *)
(* t >= s0: f holds over [t, t+a], g occurs within the window, and from t+a  *)
(* on f holds until g.                                                       *)
Until(f, g, a, b, s0) ==
  LET u  == ShiftL(Untimed(f, g, Plus(s0, a)), a, s0)
      x  == Clip(Window(FALSE, f, Zero, a, s0), s0)
      e  == Window(TRUE, g, a, b, s0)
      st == MaxR(Begin(u), MaxR(Begin(x), Begin(e)))
  IN MinPL(MinPL(Clip(x, st), Clip(e, st)), Clip(u, st))
=============================================================================
