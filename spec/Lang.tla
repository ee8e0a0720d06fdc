-------------------------------- MODULE Lang --------------------------------
(* The specification language: from token sequences to definitions.          *)
(* A token is a record [s |-> spelling], with a field v (a rational) if it   *)
(* is a number and a field str if it is a quoted string.                     *)
(* A context ctx = [sigs, par, forms, tests, queue, ntot] is what the names  *)
(* known so far stand for; parsing a text extends it statement by statement. *)
EXTENDS STL, TLC

Spell ==  \* spellings that share a meaning
  [x \in {"F", "F_", "ev", "ev_", "<>", "<>_"} |-> "ev"] @@
  [x \in {"G", "G_", "alw", "alw_", "[]", "[]_"} |-> "alw"] @@
  [x \in {"U", "U_", "until", "until_"} |-> "until"] @@
  [x \in {"and", "&"} |-> "and"] @@ [x \in {"or", "|"} |-> "or"] @@
  [x \in {"not", "!"} |-> "not"] @@ [x \in {"=>", "->"} |-> "=>"] @@
  [x \in {"<", "<="} |-> "<"] @@ [x \in {">", ">="} |-> ">"] @@
  [x \in {"true", "false", "t", "abs", "param", "test", "signal",
          "[", "]", "(", ")", "{", "}", ",", ":", ":=", "=", "+", "-", "*"} |-> x]

(* what a token is, given the names known when it is read *)
Kind(ts, i, c) ==
  IF i > Len(ts) THEN "end"
  ELSE LET t == ts[i]
       IN IF "v" \in DOMAIN t THEN "num"
          ELSE IF "str" \in DOMAIN t THEN "str"
          ELSE IF t.s \in DOMAIN Spell THEN Spell[t.s]
          ELSE IF t.s \in DOMAIN c.forms THEN "PHI"
          ELSE IF t.s \in DOMAIN c.par THEN "PAR"
          ELSE IF \E k \in 1..Len(c.sigs) : c.sigs[k] = t.s THEN "SIG"
          ELSE IF t.s \in DOMAIN c.tests THEN "TID"
          ELSE IF "bad" \in DOMAIN t THEN "bad"      \* not a token of the language
          ELSE "NEW"

Fail     == [ok |-> FALSE, a |-> 0, i |-> 0]
Got(a, i) == [ok |-> TRUE, a |-> a, i |-> i]

SigIndex(c, n) == CHOOSE k \in 1..Len(c.sigs) : c.sigs[k] = n

(*----------------------- arithmetic expressions --------------------------*)
RECURSIVE PExpr(_, _, _), PUnary(_, _, _), PAtom(_, _, _), PExprTail(_, _, _, _)
PAtom(ts, i, c) ==
  LET k == Kind(ts, i, c)
  IN CASE k = "num" -> Got([k |-> "num", v |-> ts[i].v], i + 1)
       [] k = "PAR" -> Got([k |-> "par", n |-> ts[i].s], i + 1)
       [] k = "SIG" -> IF Kind(ts, i + 1, c) = "[" /\ Kind(ts, i + 2, c) = "t" /\ Kind(ts, i + 3, c) = "]"
                       THEN Got([k |-> "sig", i |-> SigIndex(c, ts[i].s)], i + 4) ELSE Fail
       [] k = "("   -> LET e == PExpr(ts, i + 1, c)
                       IN IF e.ok /\ Kind(ts, e.i, c) = ")" THEN Got(e.a, e.i + 1) ELSE Fail
       [] OTHER     -> Fail
PUnary(ts, i, c) ==
  IF Kind(ts, i, c) = "abs"
  THEN IF Kind(ts, i + 1, c) # "(" THEN Fail
       ELSE LET e == PExpr(ts, i + 2, c)
            IN IF e.ok /\ Kind(ts, e.i, c) = ")" THEN Got([k |-> "abs", p |-> e.a], e.i + 1) ELSE Fail
  ELSE PAtom(ts, i, c)
(* + - and * have the same precedence and group to the left; their right     *)
(* operand is a number, a name, a signal or a parenthesised expression.      *)
PExprTail(ts, left, i, c) ==
  LET k == Kind(ts, i, c)
  IN IF k \in {"+", "-", "*"}
     THEN LET r == PAtom(ts, i + 1, c)
          IN IF r.ok THEN PExprTail(ts, [k |-> k, l |-> left, r |-> r.a], r.i, c) ELSE Fail
     ELSE Got(left, i)
PExpr(ts, i, c) == LET u == PUnary(ts, i, c) IN IF u.ok THEN PExprTail(ts, u.a, u.i, c) ELSE Fail

PCompare(ts, i, c) ==
  LET l == PExpr(ts, i, c)
  IN IF ~l.ok THEN Fail
     ELSE LET k == Kind(ts, l.i, c)
          IN IF k \notin {"<", ">"} THEN Fail
             ELSE LET r == PExpr(ts, l.i + 1, c)
                  IN IF r.ok THEN Got([k |-> k, l |-> l.a, r |-> r.a], r.i) ELSE Fail

PBound(ts, i, c) ==
  LET k == Kind(ts, i, c)
  IN CASE k = "num" -> Got([k |-> "num", v |-> ts[i].v], i + 1)
       [] k = "PAR" -> Got([k |-> "par", n |-> ts[i].s], i + 1)
       [] OTHER     -> Fail
PInterval(ts, i, c) ==   \* a = <<lower, upper>>
  IF Kind(ts, i, c) # "[" THEN Fail
  ELSE LET a == PBound(ts, i + 1, c)
       IN IF ~a.ok THEN Fail
          ELSE LET b == PBound(ts, IF Kind(ts, a.i, c) = "," THEN a.i + 1 ELSE a.i, c)
               IN IF b.ok /\ Kind(ts, b.i, c) = "]" THEN Got(<<a.a, b.a>>, b.i + 1) ELSE Fail

(*------------------------------ formulas ---------------------------------*)
(* How strongly an infix operator attracts the operand on its left, and how  *)
(* strongly a rule holds on to the operand on its right.                     *)
Pull == [x \in {"and", "or", "=>", "until"} |->
           CASE x = "and" -> 1 [] x = "or" -> 2 [] x = "=>" -> 4 [] x = "until" -> 6]
Hold == [x \in {"and", "or", "=>", "not", "ev", "alw", "until"} |->
           CASE x \in {"and", "or", "=>"} -> 1 [] x = "not" -> 3 [] x \in {"ev", "alw", "until"} -> 6]

RECURSIVE PForm(_, _, _, _), PFormTail(_, _, _, _, _), PPrim(_, _, _)
PPrim(ts, i, c) ==
  LET k == Kind(ts, i, c)
  IN CASE k = "not" -> LET p == PForm(ts, i + 1, c, Hold["not"])
                       IN IF p.ok THEN Got([k |-> "not", p |-> p.a], p.i) ELSE Fail
       [] k \in {"ev", "alw"} ->
            LET n == PInterval(ts, i + 1, c)
            IN IF ~n.ok THEN Fail
               ELSE LET p == PForm(ts, n.i, c, Hold[k])
                    IN IF p.ok THEN Got([k |-> k, a |-> n.a[1], b |-> n.a[2], p |-> p.a], p.i) ELSE Fail
       [] k = "PHI" -> Got(c.forms[ts[i].s], i + 1)
       [] k = "("   -> LET m == PCompare(ts, i, c)
                       IN IF m.ok THEN m
                          ELSE LET p == PForm(ts, i + 1, c, 0)
                               IN IF p.ok /\ Kind(ts, p.i, c) = ")" THEN Got(p.a, p.i + 1) ELSE Fail
       [] OTHER     -> PCompare(ts, i, c)
PFormTail(ts, left, i, c, hold) ==
  LET k == Kind(ts, i, c)
  IN IF k \in DOMAIN Pull /\ Pull[k] > hold
     THEN IF k = "until"
          THEN LET n == PInterval(ts, i + 1, c)
               IN IF ~n.ok THEN Fail
                  ELSE LET r == PForm(ts, n.i, c, Hold[k])
                       IN IF r.ok THEN PFormTail(ts, [k |-> k, a |-> n.a[1], b |-> n.a[2], l |-> left, r |-> r.a], r.i, c, hold)
                          ELSE Fail
          ELSE LET r == PForm(ts, i + 1, c, Hold[k])
               IN IF r.ok THEN PFormTail(ts, [k |-> k, l |-> left, r |-> r.a], r.i, c, hold) ELSE Fail
     ELSE Got(left, i)
PForm(ts, i, c, hold) == LET p == PPrim(ts, i, c) IN IF p.ok THEN PFormTail(ts, p.a, p.i, c, hold) ELSE Fail

(*----------------------------- statements --------------------------------*)
(* Each returns [ok, c, i]: whether it is well-formed, the context with the  *)
(* effects of the part read before an error if there is one, and where the   *)
(* next statement starts.                                                    *)
Stop(c)     == [ok |-> FALSE, c |-> c, i |-> 0]
Done(c, i)  == [ok |-> TRUE, c |-> c, i |-> i]
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]

RECURSIVE PParams(_, _, _)          \* i at the name
PParams(ts, i, c) ==
  IF Kind(ts, i, c) \in {"PAR", "NEW"} /\ Kind(ts, i + 1, c) = "=" /\ Kind(ts, i + 2, c) = "num"
  THEN LET c2 == [c EXCEPT !.par = Put(c.par, ts[i].s, ts[i + 2].v)]
       IN IF Kind(ts, i + 3, c2) = "," THEN PParams(ts, i + 4, c2) ELSE Done(c2, i + 3)
  ELSE Stop(c)

RECURSIVE PSignals(_, _, _)
PSignals(ts, i, c) ==
  IF Kind(ts, i, c) \in {"SIG", "NEW"}
  THEN LET c2 == IF Kind(ts, i, c) = "NEW" THEN [c EXCEPT !.sigs = Append(@, ts[i].s)] ELSE c
       IN IF Kind(ts, i + 1, c2) = "," THEN PSignals(ts, i + 2, c2) ELSE Done(c2, i + 1)
  ELSE Stop(c)

PDefine(ts, i, c) ==
  IF Kind(ts, i + 1, c) # ":=" THEN Stop(c)
  ELSE LET p == PForm(ts, i + 2, c, 0)
       IN IF p.ok THEN Done([c EXCEPT !.forms = Put(c.forms, ts[i].s, p.a)], p.i) ELSE Stop(c)

RECURSIVE PLocals(_, _, _, _)       \* inside "(": a = the map, i after ")"
PLocals(ts, i, c, m) ==
  IF Kind(ts, i, c) \in {"PAR", "NEW"} /\ Kind(ts, i + 1, c) = "=" /\ Kind(ts, i + 2, c) = "num"
  THEN LET m2 == Put(m, ts[i].s, ts[i + 2].v)
           k  == Kind(ts, i + 3, c)
       IN IF k = "," THEN PLocals(ts, i + 4, c, m2) ELSE IF k = ")" THEN Got(m2, i + 4) ELSE Fail
  ELSE Fail

PushTest(c, t) == [c EXCEPT !.queue[Len(c.queue)].tests = Append(@, t), !.ntot = @ + 1]

RECURSIVE PTests(_, _, _, _)
PTests(ts, i, c, some) ==
  LET k  == Kind(ts, i, c)
      lo == IF Kind(ts, i + 1, c) = "(" THEN PLocals(ts, i + 2, c, <<>>) ELSE Got(<<>>, i + 1)
  IN IF k = "}" /\ some THEN Done(c, i + 1)
     ELSE IF k \notin {"NEW", "TID"} \/ ~lo.ok THEN Stop(c)
     ELSE IF k = "TID"
     THEN PTests(ts, lo.i, PushTest(c, [c.tests[ts[i].s] EXCEPT !.par = lo.a]), TRUE)
     ELSE IF Kind(ts, lo.i, c) # "{" THEN Stop(c)
     ELSE LET p == PForm(ts, lo.i + 1, c, 0)
              j == p.i
          IN IF p.ok /\ Kind(ts, j, c) = "," /\ Kind(ts, j + 1, c) = "str" /\ Kind(ts, j + 2, c) = ","
                /\ Kind(ts, j + 3, c) = "str" /\ Kind(ts, j + 4, c) = ","
                /\ Kind(ts, j + 5, c) \in {"true", "false"} /\ Kind(ts, j + 6, c) = "}"
             THEN LET t == [id |-> ts[i].s, par |-> lo.a, f |-> p.a, pos |-> ts[j + 1].str,
                            neg |-> ts[j + 3].str, err |-> Kind(ts, j + 5, c) = "true"]
                  IN PTests(ts, j + 7, PushTest([c EXCEPT !.tests = Put(c.tests, ts[i].s, t)], t), TRUE)
             ELSE Stop(c)

PTraceTest(ts, i, c) ==
  IF ~(Kind(ts, i + 1, c) = "NEW" /\ Kind(ts, i + 2, c) = ":" /\ Kind(ts, i + 3, c) = "str") THEN Stop(c)
  ELSE LET short == Kind(ts, i + 4, c) # ","
           j     == IF short THEN i + 4 ELSE i + 8
           okay  == short \/ (Kind(ts, i + 5, c) = "num" /\ Kind(ts, i + 6, c) = ","
                              /\ Kind(ts, i + 7, c) \in {"true", "false"})
           c2    == [c EXCEPT !.queue = Append(@, [id |-> ts[i + 1].s, env |-> ts[i + 3].str, tests |-> <<>>])]
       IN IF ~okay THEN Stop(c)
          ELSE IF Kind(ts, j, c2) # "{" THEN Stop(c2)
          ELSE PTests(ts, j + 1, c2, FALSE)

RECURSIVE PText(_, _, _)
PText(ts, i, c) ==
  IF i > Len(ts) /\ i > 1 THEN Done(c, i)
  ELSE LET k == Kind(ts, i, c)
           r == CASE k = "signal" /\ i = 1 -> PSignals(ts, i + 1, c)  \* first statement only
                  [] k = "param"           -> PParams(ts, i + 1, c)
                  [] k = "NEW"             -> PDefine(ts, i, c)
                  [] k = "test"            -> PTraceTest(ts, i, c)
                  [] OTHER                 -> Stop(c)
       IN IF r.ok THEN PText(ts, r.i, r.c) ELSE r

(*------------------------------- printing --------------------------------*)
(* What a printed formula reads, token by token (no parentheses around the   *)
(* operands of not, and, or, => and of arithmetic).                          *)
Word(w)   == <<[s |-> w, v |-> Zero]>>
Number(x) == IF Lt(x, Zero) THEN Word("-") \o <<[s |-> "", v |-> NegR(x)]>> ELSE <<[s |-> "", v |-> x]>>
ShowBound(a)  == IF a.k = "num" THEN Number(a.v) ELSE Word(a.n)
ShowInterval(f) == Word("[") \o ShowBound(f.a) \o Word(",") \o ShowBound(f.b) \o Word("]")
RECURSIVE Show(_, _)
Show(f, sigs) ==
  CASE f.k \in {"num", "par"} -> ShowBound(f)
    [] f.k = "sig"   -> Word(sigs[f.i]) \o Word("[") \o Word("t") \o Word("]")
    [] f.k = "abs"   -> Word("abs") \o Word("(") \o Show(f.p, sigs) \o Word(")")
    [] f.k = "not"   -> Word("not") \o Show(f.p, sigs)
    [] f.k \in {"ev", "alw"} -> Word(f.k \o "_") \o ShowInterval(f) \o Word("(") \o Show(f.p, sigs) \o Word(")")
    [] f.k = "until" -> Word("(") \o Show(f.l, sigs) \o Word(")") \o Word("until_") \o ShowInterval(f)
                        \o Word("(") \o Show(f.r, sigs) \o Word(")")
    [] OTHER         -> Show(f.l, sigs) \o Word(f.k) \o Show(f.r, sigs)

(* [ok |-> accepted, c |-> the context after it] *)
Parse(ts, c) == PText(ts, 1, c)
=============================================================================
