------------------------------- MODULE Signals -------------------------------
(* The Signal class: objects that hold a right-continuous piecewise-linear   *)
(* signal on a closed interval [b, e], and the operations on them.  A signal *)
(* is [b |-> begin, e |-> end, f |-> breakpoints], with f = <<>> when it has *)
(* no samples yet.  Every operation defines the target from its operands as  *)
(* they are; the target is none of them.                                     *)
EXTENDS STLRom, FiniteSetsExt

VARIABLES sgn,   \* signal name -> signal
          sitp   \* interpolation mode of the class, shared by all objects

sigvars == <<sgn, sitp>>

NoSamples == [b |-> Zero, e |-> Zero, f |-> <<>>]
SPut(n, s) == sgn' = [x \in DOMAIN sgn \cup {n} |-> IF x = n THEN s ELSE sgn[x]] /\ UNCHANGED sitp
Mk(b, e, f) == [b |-> b, e |-> e, f |-> f]

(* A sample at or before the last one is ignored.  LINEAR joins the samples, *)
(* PREVIOUS holds the last one.                                              *)
AppendTo(s, t, v, d) ==
  IF s.f # <<>> /\ Leq(t, s.e) THEN s
  ELSE IF s.f = <<>> THEN Mk(t, t, << <<t, v, v, IF sitp = "LINEAR" THEN d ELSE Zero>> >>)
  ELSE LET n == Len(s.f)
           q == s.f[n]
           h == IF sitp = "LINEAR"
                THEN [s.f EXCEPT ![n] = <<q[1], q[2], q[3], Div(Minus(v, q[3]), Minus(t, q[1]))>>]
                ELSE s.f
       IN Mk(s.b, t, Append(h, <<t, v, v, IF sitp = "LINEAR" THEN d ELSE Zero>>))

(* a signal from an array of samples, and the samples of another one added   *)
FromSamples(ps)  == FoldLeft(LAMBDA s, p : AppendTo(s, p[1], p[2], Zero), NoSamples, ps)
AppendAll(s, y)  == FoldLeft(LAMBDA x, q : AppendTo(x, q[1], q[3], q[4]), s, SelectSeq(y.f, LAMBDA q : Leq(q[1], y.e)))
(* a breakpoint at the end *)
WithLast(s) == IF s.f # <<>> /\ Lt(s.f[Len(s.f)][1], s.e)
               THEN LET v == At(s.f, s.e) IN [s EXCEPT !.f = Append(@, <<s.e, v, v, Zero>>)] ELSE s
(* single samples: time, value, slope *)
SampleAt(p, t)      == Plus(p[2], Times(p[3], Minus(t, p[1])))
SampleMeets(p, q, o) == \* both lines have the same value there
  LET x == SampleAt(p, Zero) y == SampleAt(q, Zero) IN EqO(o, Div(Minus(y, x), Minus(p[3], q[3])))

NotS(x)       == Mk(x.b, x.e, Neg(x.f))
CombS(mx, x, y) == LET b == MaxR(x.b, y.b) IN Mk(b, MinR(x.e, y.e), Clip(Comb(mx, x.f, y.f), b))
(* supremum/infimum over the part of [t + a, t + b] before the end of x *)
WindowS(mx, x, a, b) ==
  Mk(Minus(x.b, a), Minus(x.e, a),
     Window(mx, Trunc(x.f, x.e, IF mx THEN NegR(BigM) ELSE BigM), a, b, Minus(x.b, a)))
(* over all the future up to the end *)
FutureS(mx, x) == WindowS(mx, x, Zero, Plus(Minus(x.e, x.b), One))
(* where x and y are known up to t + b *)
UntilS(x, y, a, b) ==
  LET s == MaxR(x.b, Minus(y.b, a))
  IN Mk(s, Minus(MinR(x.e, y.e), b),
        Until(Trunc(x.f, x.e, At(x.f, x.e)), Trunc(y.f, y.e, At(y.f, y.e)), a, b, s))
(* over all the future up to the end *)
UntimedS(x, y) ==
  LET s == MaxR(x.b, y.b)
      e == MinR(x.e, y.e)
  IN Mk(s, e, Untimed(Trunc(x.f, e, NegR(BigM)), Trunc(y.f, e, NegR(BigM)), s))

(* A signal that falls to zero exactly at its end may count as true or as    *)
(* false there (time robustness and truth are defined by intervals).         *)
EndsAtZero(x) == LET h == SelectSeq(x.f, LAMBDA q : Lt(q[1], x.e))
                 IN IF h # <<>> /\ At(x.f, x.e) = Zero /\ Left(x.f, x.e) = Zero
                    THEN {[x EXCEPT !.f = h], [x EXCEPT !.f = Append(h, <<x.e, Zero, Zero, Zero>>)]}
                    ELSE {x}
BoolS(x) ==
  LET ch == Truth(x.f, x.e)
  IN Mk(x.b, x.e, [i \in 1..Len(ch) |-> LET v == IF ch[i][2] THEN One ELSE Zero IN <<ch[i][1], v, v, Zero>>])
TimeS(x, left) ==
  LET ch == Truth(x.f, x.e)
  IN Mk(x.b, x.e, [i \in 1..Len(ch) |->
        LET n == IF i < Len(ch) THEN ch[i + 1][1] ELSE x.e
            h == Minus(n, ch[i][1])
            v == IF left THEN Zero ELSE IF ch[i][2] THEN h ELSE NegR(h)
            d == IF left = ch[i][2] THEN One ELSE NegR(One)
        IN <<ch[i][1], v, v, d>>])

ShiftS(x, a) == Mk(Plus(x.b, a), Plus(x.e, a), [i \in 1..Len(x.f) |-> [x.f[i] EXCEPT ![1] = Plus(@, a)]])
(* To [s, t]: the first sample holds before the beginning, v from the end    *)
(* on.  (Whether the old value at the old end still counts is left open: an  *)
(* extended signal is not used further.)                                     *)
ResizeS(x, s, t, v) ==
  LET h == IF Lt(s, x.b) THEN << <<s, At(x.f, x.b), At(x.f, x.b), Zero>> >> \o x.f ELSE x.f
      k == IF Lt(x.e, t) THEN Simp(Append(SelectSeq(h, LAMBDA q : Lt(q[1], x.e)), <<x.e, v, v, Zero>>)) ELSE h
  IN Mk(s, t, IF Lt(x.e, s) /\ Lt(x.e, t) THEN Const(s, v) ELSE Clip(k, s))

(* Does an observed signal agree with x on [lo, hi]?  o.b, o.e are its ends, *)
(* o.p its pieces <<start, value there, limit at the end of the piece>>, cut *)
(* at lo and hi.  Times that are not dyadic are approximate: they stand for  *)
(* the breakpoint they are close to.                                         *)
Snap(f, o) ==
  IF o[3] = 0 THEN Ex(o)
  ELSE LET near == {t \in TimesOf(f) : EqO(o, t)}
       IN IF near = {} THEN Norm(o[1], o[2]) ELSE CHOOSE t \in near : TRUE
(* A piece between approximate times that is not longer than their errors    *)
(* says nothing, and a value at an approximate time is as inexact as the     *)
(* steepest slope makes it.                                                  *)
EqS(o, v, m) == IF m = Zero THEN EqO(o, v)
                ELSE /\ o[3] # 2
                     /\ (o[1] \div o[2]) - (v[1] \div v[2]) \in -1..1
                     /\ Leq(AbsR(Minus(Norm(o[1], o[2]), v)), Plus(Tol, Times(Tol, m)))
Agrees(o, f0, lo, hi) ==
  LET f  == Simp(f0)
      n  == Len(o.p)
      ts == TLCEval([i \in 1..n |-> Snap(f, o.p[i][1])])
      nx(i) == IF i < n THEN ts[i + 1] ELSE hi
      ap(i) == i <= n /\ o.p[i][1][3] # 0
      steep == FoldSet(MaxR, Zero, {AbsR(f[i][4]) : i \in 1..Len(f)})
      m(i)  == IF ap(i) THEN steep ELSE Zero
      tiny(i) == (ap(i) \/ ap(i + 1)) /\ Leq(Minus(nx(i), ts[i]), Times(R(3), Tol))
  IN /\ n > 0 /\ ts[1] = lo /\ Leq(Begin(f), lo)
     /\ \A i \in 1..n : Leq(ts[i], nx(i)) /\ Leq(ts[i], hi)
     /\ \A i \in 1..n : LET t == ts[i] IN
          IF t = hi THEN EqS(o.p[i][2], At(f, hi), m(i)) \/ i < n       \* the last one counts
          ELSE (Lt(t, nx(i)) /\ ~tiny(i)) =>
                               /\ EqS(o.p[i][2], Right(f, t), m(i))
                               /\ (i = n => EqO(o.p[i][3], At(f, hi)))
                               /\ EqS(o.p[i][3], Left(f, nx(i)), m(i + 1))
     /\ \A i \in 1..Len(f) : (Lt(lo, f[i][1]) /\ Lt(f[i][1], hi)) =>
          \E j \in 1..n : ts[j] = f[i][1] \/ EqO(o.p[j][1], f[i][1])
IsSignal(o, s) == /\ EqO(o.b, s.b) /\ EqO(o.e, s.e)
                  /\ IF s.f = <<>> THEN o.p = <<>> ELSE Agrees(o, s.f, s.b, s.e)
=============================================================================
