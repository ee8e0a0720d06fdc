------------------------------- MODULE STLRom -------------------------------
(* The system: drivers (a language session with declarations, data, settings *)
(* and trace tests) and monitors (one formula with its own data, parameters  *)
(* and settings), and the calls of the public interface on them.             *)
(* Every action takes the observed outcome `out` of the call; the action is  *)
(* enabled with exactly the outcomes the system may produce.                 *)
EXTENDS Lang

CONSTANT Clauses   \* which parts of an evaluation's result are looked at

VARIABLES drv,   \* driver id  -> driver
          mon,   \* monitor id -> monitor
          big    \* the bound of what is unknown, one for the process

sysvars == <<drv, mon, big>>

EmptyMap == [x \in {} |-> 0]

NewDriver ==
  [sigs |-> <<>>, par |-> EmptyMap, forms |-> EmptyMap, rows |-> <<>>,
   sem |-> "SPACE", itp |-> "LINEAR",
   tests |-> EmptyMap, queue |-> <<>>, ntot |-> 0, npos |-> 0, err |-> FALSE, report |-> <<>>]

(* Numbers reported by the system are triples <<n, d, f>>: f = 0 is exactly  *)
(* n/d, f = 1 a double within 1/d of it, f = 2 no usable number.             *)
Tol        == <<1, 2048>>
Ex(o)      == <<o[1], o[2]>>
EqO(o, x)  == IF o[3] = 0 THEN Ex(o) = x
              ELSE /\ o[3] = 1
                   /\ (o[1] \div o[2]) - (x[1] \div x[2]) \in -1..1     \* no 32-bit overflow below
                   /\ Leq(AbsR(Minus(Norm(o[1], o[2]), x)), Tol)
LeqO(o, x) == o[3] # 2 /\ Leq(Ex(o), IF o[3] = 0 THEN x ELSE Plus(x, Tol))
GeqO(o, x) == o[3] # 2 /\ Leq(x, IF o[3] = 0 THEN Ex(o) ELSE Plus(Norm(o[1], o[2]), Tol))
LeqOO(o, q) == IF o[3] = 0 /\ q[3] = 0 THEN Leq(Ex(o), Ex(q))
               ELSE o[3] # 2 /\ q[3] # 2 /\ Leq(Norm(o[1], o[2]), Plus(Norm(q[1], q[2]), Tol))
SameO(o, q) == o = q \/ (LeqOO(o, q) /\ LeqOO(q, o) /\ (o[3] = 1 \/ q[3] = 1))
NegO(o)    == <<-o[1], o[2], o[3]>>
Exact(x)   == <<x[1], x[2], 0>>

NoFormula == [k |-> "none"]
NewMonitor ==
  [f |-> NoFormula, sigs |-> <<>>, par |-> EmptyMap, rows |-> <<>>,
   sem |-> "SPACE", itp |-> "LINEAR", res |-> <<Exact(Zero), Exact(Zero), Exact(Zero)>>, t0 |-> Zero, t1 |-> Zero,
   last |-> <<>>]      \* the evaluation whose signal the monitor holds: <<[env, t, u]>>

Semantics == {"SPACE", "LEFT_TIME", "RIGHT_TIME"}
Interpols == {"LINEAR", "PREVIOUS"}

Env(o) == [rows |-> o.rows, itp |-> o.itp, sem |-> o.sem, par |-> o.par, big |-> big]

Init == drv = EmptyMap /\ mon = EmptyMap /\ big = BigM

UpdD(d, x) == drv' = [drv EXCEPT ![d] = x] /\ UNCHANGED <<mon, big>>
UpdM(m, x) == mon' = [mon EXCEPT ![m] = x] /\ UNCHANGED <<drv, big>>

(*------------------------------- drivers --------------------------------*)
SetBig(v)  == big' = v /\ UNCHANGED <<drv, mon>>
GetBig(out) == EqO(out, big) = TRUE /\ UNCHANGED sysvars

New(d) == drv' = Put(drv, d, NewDriver) /\ UNCHANGED <<mon, big>>

(* Declarations and definitions accumulate over calls.  A text is read       *)
(* statement by statement: what precedes an error stays, the result says     *)
(* whether the whole text was accepted.                                      *)
ParseResult(x, ts) ==
  Parse(ts, [sigs |-> x.sigs, par |-> x.par, forms |-> x.forms, tests |-> x.tests,
             queue |-> x.queue, ntot |-> x.ntot])
ParseText(d, ts, out) ==
  LET r == ParseResult(drv[d], ts)
  IN /\ out = r.ok
     /\ UpdD(d, [drv[d] EXCEPT !.sigs = r.c.sigs, !.par = r.c.par, !.forms = r.c.forms,
                               !.tests = r.c.tests, !.queue = r.c.queue, !.ntot = r.c.ntot])

(* a sample has one value per signal, and comes after all others *)
Admissible(x, row) == /\ Len(row) = Len(x.sigs) + 1
                      /\ x.rows = <<>> \/ Lt(LastTime(x), row[1])
AddSample(d, row, out) ==
  IF Admissible(drv[d], row)
  THEN out = "ok" /\ UpdD(d, [drv[d] EXCEPT !.rows = Append(@, row)])
  ELSE out = "invalid_argument" /\ UNCHANGED sysvars

SetParam(d, n, v, out) ==
  /\ out = "ok"
  /\ IF n \in DOMAIN drv[d].par THEN UpdD(d, [drv[d] EXCEPT !.par[n] = v]) ELSE UNCHANGED sysvars
GetParam(d, n, out) ==
  /\ EqO(out, IF n \in DOMAIN drv[d].par THEN drv[d].par[n] ELSE Zero) = TRUE
  /\ UNCHANGED sysvars

SetSem(d, s, out) ==
  IF s \in Semantics THEN out = "ok" /\ UpdD(d, [drv[d] EXCEPT !.sem = s])
  ELSE out = "invalid_argument" /\ UNCHANGED sysvars
SetItp(d, s, out) ==
  IF s \in Interpols THEN out = "ok" /\ UpdD(d, [drv[d] EXCEPT !.itp = s])
  ELSE out = "invalid_argument" /\ UNCHANGED sysvars

(* Good(phi, env, t, u, res): res = <<rob, low, up>> is a right answer.  On a   *)
(* trace that covers the formula the three are the robustness; otherwise low *)
(* and up bound the robustness of every continuation (sound), and are at     *)
(* least as good as what the known part of each operand gives (informative). *)
(* Clauses says which of these a configuration looks at.                     *)
GoodCov(phi, env, t, u, res) ==
  LET v == RobW(phi, env, t, u)
  IN /\ "rob" \in Clauses => EqO(res[1], v)
     /\ "conv" \in Clauses => EqO(res[2], v) /\ EqO(res[3], v)
     /\ "sound" \in Clauses => LeqO(res[2], v) /\ GeqO(res[3], v)
     /\ "sign" \in Clauses => /\ res[1][3] # 2
                              /\ (res[1][3] = 0 \/ Lt(Tol, AbsR(v))) =>
                                    (res[1][1] > 0) = (v[1] > 0) /\ (res[1][1] < 0) = (v[1] < 0)
GoodPart(phi, env, t, u, res) ==
  /\ "sound" \in Clauses => /\ LeqO(res[2], LowerW(phi, env, t, u))
                            /\ GeqO(res[3], UpperW(phi, env, t, u))
  /\ "between" \in Clauses => LeqOO(res[2], res[1]) /\ LeqOO(res[1], res[3])
  /\ "tight" \in Clauses => /\ GeqO(res[2], KLowerW(phi, env, t, u))
                            /\ LeqO(res[3], KUpperW(phi, env, t, u))
Good(phi, env, t, u, res) ==
  IF Covered(phi, env, t) THEN GoodCov(phi, env, t, u, res)
  ELSE env.sem = "SPACE" => GoodPart(phi, env, t, u, res)

(* Evaluation changes nothing.  No data or no such formula: no result.       *)
Evaluate(d, n, t, exc, out) ==
  /\ IF drv[d].rows = <<>> \/ n \notin DOMAIN drv[d].forms THEN exc = "" /\ out = <<>>
     ELSE IF Lacks(drv[d].forms[n], Env(drv[d]), t) THEN exc = "exception"
     ELSE exc = "" /\ Good(drv[d].forms[n], Padded(Env(drv[d])), t, t, out) = TRUE
  /\ UNCHANGED sysvars

(* copies and moves *)
Copy(d, s)   == drv' = Put(drv, d, drv[s]) /\ UNCHANGED <<mon, big>>     \* construction or assignment
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Move(d, s)   == /\ drv' = Without(Put(drv, d, drv[s]), s) /\ d # s
                /\ UNCHANGED <<mon, big>>
Delete(d)    == drv' = Without(drv, d) /\ UNCHANGED <<mon, big>>
(* forget formulas, parameters and tests; keep signals, data and settings *)
Clear(d)     == UpdD(d, [drv[d] EXCEPT !.par = EmptyMap, !.forms = EmptyMap, !.tests = EmptyMap,
                                       !.queue = <<>>, !.ntot = 0, !.npos = 0, !.err = FALSE,
                                       !.report = <<>>])

(* Trace tests: the tests of the first group are evaluated at time 0 with    *)
(* their own parameters over those of the driver; a positive robustness      *)
(* counts as a problem and may be an error; the group is consumed.  The      *)
(* report and the log accumulate: out.report has for every group evaluated   *)
(* so far its name and for each test <<name, rob, problem, message>>; out.log*)
(* is the sequence of all <<name, rob>>.  rob must be exact on a covered     *)
(* trace and is taken as reported otherwise.                                 *)
TestPar(x, t)  == t.par @@ x.par
TestEnv(x, t)  == [rows |-> x.rows, itp |-> x.itp, sem |-> x.sem, par |-> TestPar(x, t), big |-> big]
TestOk(x, t, o) ==
  /\ o[1] = t.id
  /\ (x.rows # <<>> /\ Covered(t.f, TestEnv(x, t), Zero)) => EqO(o[2], Rob(t.f, TestEnv(x, t), Zero))
  /\ (o[2][3] = 0 \/ AbsR(o[2])[1] > 4) => o[3] = (o[2][1] > 0)     \* not below the resolution
  /\ o[4] = IF o[3] THEN t.pos ELSE t.neg
RunTests(d, out) ==
  LET x    == drv[d]
      ts   == IF x.queue = <<>> THEN <<>> ELSE Head(x.queue).tests
      n    == Len(x.report)
      got  == IF x.queue = <<>> THEN <<>> ELSE out.report[n + 1][2]
      poss == {i \in 1..Len(ts) : got[i][3]}
      err  == \E i \in poss : ts[i].err
      y    == [x EXCEPT !.queue = IF @ = <<>> THEN @ ELSE Tail(@),
                        !.npos = @ + Cardinality(poss), !.err = err, !.report = out.report]
  IN /\ Len(out.report) = n + (IF x.queue = <<>> THEN 0 ELSE 1)
     /\ SubSeq(out.report, 1, n) = x.report
     /\ (x.queue # <<>> => /\ out.report[n + 1][1] = Head(x.queue).id
                           /\ Len(got) = Len(ts)) = TRUE
     /\ (\A i \in 1..Len(ts) : TestOk(x, ts[i], got[i])) = TRUE
     /\ out.ret = err /\ out.err = err
     /\ out.npos = y.npos /\ out.ntot = y.ntot /\ out.empty = (y.queue = <<>>)
     /\ out.log = FlattenSeq([k \in 1..Len(y.report) |->
                     [i \in 1..Len(y.report[k][2]) |-> <<y.report[k][2][i][1], y.report[k][2][i][2]>>]])
     /\ UpdD(d, y)
NextTestEnv(d) == IF drv[d].queue = <<>> THEN "" ELSE Head(drv[d].queue).env
PopTest(d)   == UpdD(d, [drv[d] EXCEPT !.queue = IF @ = <<>> THEN @ ELSE Tail(@)])

(*------------------------------- monitors -------------------------------*)
(* A monitor is a snapshot: formula, data, parameters and settings of the    *)
(* driver at this moment, independent of it from then on.                    *)
GetMonitor(m, d, n) ==
  LET x == drv[d]
  IN /\ mon' = Put(mon, m,
                 IF n \notin DOMAIN x.forms THEN NewMonitor
                 ELSE [NewMonitor EXCEPT !.f = x.forms[n], !.sigs = x.sigs, !.par = x.par,
                                         !.rows = x.rows, !.sem = x.sem, !.itp = x.itp,
                                         !.res = <<Exact(Zero), Exact(NegR(big)), Exact(big)>>])
     /\ UNCHANGED <<drv, big>>
MNew(m) == mon' = Put(mon, m, NewMonitor) /\ UNCHANGED <<drv, big>>
MAddSample(m, row, out) ==
  IF Admissible(mon[m], row)
  THEN out = "ok" /\ UpdM(m, [mon[m] EXCEPT !.rows = Append(@, row)])
  ELSE out = "invalid_argument" /\ UNCHANGED sysvars
MSetParam(m, n, v, out) ==
  IF n \in DOMAIN mon[m].par THEN out = "ok" /\ UpdM(m, [mon[m] EXCEPT !.par[n] = v])
  ELSE out = "invalid_argument" /\ UNCHANGED sysvars
MGetParam(m, n, exc, out) ==
  /\ IF n \in DOMAIN mon[m].par THEN exc = "" /\ EqO(out, mon[m].par[n]) = TRUE
     ELSE exc = "invalid_argument"
  /\ UNCHANGED sysvars
MSetSem(m, s, out) ==
  IF s \in Semantics THEN out = "ok" /\ UpdM(m, [mon[m] EXCEPT !.sem = s])
  ELSE out = "invalid_argument" /\ UNCHANGED sysvars
MSetItp(m, s, out) ==
  IF s \in Interpols THEN out = "ok" /\ UpdM(m, [mon[m] EXCEPT !.itp = s])
  ELSE out = "invalid_argument" /\ UNCHANGED sysvars
MSetTime(m, a, b) == UpdM(m, [mon[m] EXCEPT !.t0 = a, !.t1 = b])
MClear(m)         == UpdM(m, [mon[m] EXCEPT !.rows = <<>>])
MCopy(m, s)       == mon' = Put(mon, m, [mon[s] EXCEPT !.last = <<>>]) /\ UNCHANGED <<drv, big>>
MMove(m, s)       == mon' = Without(Put(mon, m, mon[s]), s) /\ m # s /\ UNCHANGED <<drv, big>>
MDelete(m)        == mon' = Without(mon, m) /\ UNCHANGED <<drv, big>>

(* Evaluation at t (with the signal computed up to u): the results are kept. *)
(* Without a formula the last results stay; without data it fails.  The      *)
(* signal is that of the last evaluation, whatever happened since; that of a *)
(* copy or of a monitor not yet evaluated is left open.                      *)
MEvaluate(m, t, u, exc, out) ==
  LET x == mon[m]
  IN IF x.f = NoFormula THEN exc = "" /\ out = x.res /\ UNCHANGED sysvars
     ELSE IF x.rows = <<>> \/ Lacks(x.f, Env(x), u) THEN exc = "exception" /\ UpdM(m, [x EXCEPT !.last = <<>>])
     ELSE /\ exc = ""
          /\ Good(x.f, Padded(Env(x)), t, u, out) = TRUE
          /\ UpdM(m, [x EXCEPT !.res = out, !.last = << [env |-> Padded(Env(x)), t |-> t, u |-> u] >>])
=============================================================================
