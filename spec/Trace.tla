-------------------------------- MODULE Trace --------------------------------
(* Does the specification explain what the implementation did?  A trace file *)
(* has one JSON object per line: {"op": call, "a": arguments, "out": result, *)
(* "ep": episode}.  Every episode starts from no objects at all and is one   *)
(* behaviour: a line is consumed by the action of the call, which is enabled *)
(* only with a result the specification allows; a crash, a hang or an        *)
(* unexpected exception has no action.  An episode is accepted when all its  *)
(* lines are consumed.                                                       *)
EXTENDS Files, Json, IOUtils, FiniteSetsExt

VARIABLES l,      \* the next line
          seen    \* the evaluations so far: <<[f, env, t, key, res], ...>>

Log == ndJsonDeserialize(IOEnv.STL_TRACE)
Verbose == "STL_VERBOSE" \in DOMAIN IOEnv

vars == <<drv, mon, big, sgn, sitp, fs, l, seen>>

E == Log[l]
Is(op) == E.op = op
NoteD == UNCHANGED seen

(*--------------------- relations between evaluations ---------------------*)
(* Which evaluations must agree is decided by a key: what an evaluation asks *)
(* for.  "func": formula (parameters replaced by their values), data,        *)
(* settings and time.  "shift": times relative to the evaluation time.       *)
(* "window": only the samples around the window of the formula.  "laws":     *)
(* formulas up to the laws of negation, min and max.                         *)
InstNum(x, par) == IF x.k = "par" THEN [k |-> "num", v |-> par[x.n]] ELSE x
RECURSIVE InstX(_, _), Inst(_, _)
InstX(x, par) ==
  CASE x.k = "par" -> [k |-> "num", v |-> par[x.n]]
    [] x.k = "abs" -> [x EXCEPT !.p = InstX(x.p, par)]
    [] x.k \in {"+", "-", "*"} -> [x EXCEPT !.l = InstX(x.l, par), !.r = InstX(x.r, par)]
    [] OTHER -> x
Inst(f, par) ==
  CASE f.k \in {"<", ">"} -> [f EXCEPT !.l = InstX(f.l, par), !.r = InstX(f.r, par)]
    [] f.k = "not" -> [f EXCEPT !.p = Inst(f.p, par)]
    [] f.k \in {"and", "or", "=>"} -> [f EXCEPT !.l = Inst(f.l, par), !.r = Inst(f.r, par)]
    [] f.k \in {"ev", "alw"} -> [f EXCEPT !.a = InstNum(f.a, par), !.b = InstNum(f.b, par), !.p = Inst(f.p, par)]
    [] f.k = "until" -> [f EXCEPT !.a = InstNum(f.a, par), !.b = InstNum(f.b, par),
                                  !.l = Inst(f.l, par), !.r = Inst(f.r, par)]

Flip == [x \in {"<", ">", "and", "or", "ev", "alw"} |->
           CASE x = "<" -> ">" [] x = ">" -> "<" [] x = "and" -> "or" [] x = "or" -> "and"
             [] x = "ev" -> "alw" [] x = "alw" -> "ev"]
RECURSIVE Canon(_, _)
Canon(f, n) ==
  CASE f.k \in {"<", ">"} -> IF (f.k = ">") # n THEN <<">", f.l, f.r>> ELSE <<">", f.r, f.l>>
    [] f.k = "not" -> Canon(f.p, ~n)
    [] f.k \in {"and", "or", "=>"} ->
         LET k == IF (f.k = "and") # n THEN "and" ELSE "or"
             x == Canon(f.l, IF f.k = "=>" THEN ~n ELSE n)
             y == Canon(f.r, n)
             m(z) == IF z[1] = k THEN z[2] ELSE {z}
             s == m(x) \cup m(y)
         IN IF Cardinality(s) = 1 THEN CHOOSE z \in s : TRUE ELSE <<k, s>>
    [] f.k \in {"ev", "alw"} -> <<IF n THEN Flip[f.k] ELSE f.k, f.a, f.b, Canon(f.p, n)>>
    [] f.k = "until" -> <<IF n THEN "nuntil" ELSE "until", f.a, f.b, Canon(f.l, FALSE), Canon(f.r, FALSE)>>

(* the samples that matter for [t, e]: from the last one not after t to the  *)
(* first one not before e                                                    *)
Around(rows, t, e) ==
  SelectSeq([i \in 1..Len(rows) |-> <<rows[i], i>>],
            LAMBDA p : LET i == p[2] IN /\ i = Len(rows) \/ Lt(t, rows[i + 1][1])
                                        /\ i = 1 \/ Lt(rows[i - 1][1], e))
Key(f, env, t, u) ==
  LET g  == Inst(f, env.par)
      r0 == IF "window" \in Clauses /\ Covered(f, env, u)
            THEN LET w == Around(env.rows, t, Plus(u, Horizon(f, env.par)))
                 IN [i \in 1..Len(w) |-> w[i][1]]
            ELSE env.rows
      r1 == IF "shift" \in Clauses THEN [i \in 1..Len(r0) |-> [r0[i] EXCEPT ![1] = Minus(@, t)]] ELSE r0
  IN TLCEval(<<IF "laws" \in Clauses /\ env.sem = "SPACE" THEN Canon(g, FALSE) ELSE g, r1, env.itp, env.sem, Big(env),
               IF "shift" \in Clauses THEN Minus(u, t) ELSE <<t, u>> >>)

SameRes(a, b) == SameO(a[1], b[1]) /\ SameO(a[2], b[2]) /\ SameO(a[3], b[3])

(* Results of one formula on a growing trace can only be refined: the        *)
(* interval [low, up] never gets wider at either end.                        *)
Refines(new, old) ==
  (/\ old.f = new.f /\ old.t = new.t /\ old.u = new.u
   /\ old.env.par = new.env.par /\ old.env.sem = new.env.sem /\ old.env.itp = new.env.itp /\ old.env.big = new.env.big
   /\ new.env.sem = "SPACE"
   /\ Len(old.env.rows) <= Len(new.env.rows)
   /\ SubSeq(new.env.rows, 1, Len(old.env.rows)) = old.env.rows)
  => LeqOO(old.res[2], new.res[2]) /\ LeqOO(new.res[3], old.res[3])

(* Moving every value of the trace by at most m moves the robustness by at   *)
(* most m times the number of signals a comparison looks at.                 *)
RECURSIVE Weight(_), WeightX(_)
WeightX(x) == CASE x.k = "sig" -> 1
                [] x.k = "abs" -> WeightX(x.p)
                [] x.k \in {"+", "-"} -> WeightX(x.l) + WeightX(x.r)
                [] x.k = "*" -> IF WeightX(x.l) + WeightX(x.r) = 0 THEN 0 ELSE 1000
                [] OTHER -> 0
Weight(f) == CASE f.k \in {"<", ">"} -> WeightX(f.l) + WeightX(f.r)
               [] f.k \in {"not", "ev", "alw"} -> Weight(f.p)
               [] OTHER -> LET x == Weight(f.l)
                               y == Weight(f.r) IN IF x > y THEN x ELSE y
Close(new, old) ==
  (/\ old.f = new.f /\ old.t = new.t /\ old.u = new.u /\ old.env.par = new.env.par /\ old.env.itp = new.env.itp /\ old.env.big = new.env.big
   /\ old.env.sem = "SPACE" /\ new.env.sem = "SPACE"
   /\ Len(old.env.rows) = Len(new.env.rows)
   /\ \A i \in 1..Len(new.env.rows) : old.env.rows[i][1] = new.env.rows[i][1]
   /\ Covered(new.f, new.env, new.t) /\ Weight(new.f) < 1000)
  => LET r == new.env.rows
         q == old.env.rows
         m == FoldSet(MaxR, Zero, {AbsR(Minus(r[i][j], q[i][j])) : i \in 1..Len(r), j \in 2..Len(r[1])})
         e == Times(m, R(Weight(new.f)))
     IN /\ Leq(Ex(old.res[1]), Plus(Ex(new.res[1]), Plus(e, Tol)))
        /\ Leq(Ex(new.res[1]), Plus(Ex(old.res[1]), Plus(e, Tol)))

Related(new, old) ==
  /\ "func" \in Clauses => (new.key = old.key => SameRes(new.res, old.res))
  /\ "refine" \in Clauses => Refines(new, old)
  /\ "lip" \in Clauses => Close(new, old)

Relations == {"func", "refine", "lip"}
Remember(f, env, t, u, res) ==
  IF Relations \cap Clauses = {} THEN UNCHANGED seen
  ELSE LET new == [f |-> f, env |-> env, t |-> t, u |-> u, res |-> res,
                   key |-> IF "func" \in Clauses THEN Key(f, env, t, u) ELSE 0]
       IN /\ (\A i \in 1..Len(seen) : Related(new, seen[i])) = TRUE
          /\ seen' = Append(seen, new)

(* The answer of a fresh process with nothing but this text, data, settings. *)
Fresh(ts, rows, sem, itp, n, t, out) ==
  LET r   == Parse(ts, [sigs |-> <<>>, par |-> EmptyMap, forms |-> EmptyMap, tests |-> EmptyMap,
                        queue |-> <<>>, ntot |-> 0])
      env == [rows |-> rows, itp |-> itp, sem |-> sem, par |-> r.c.par, big |-> BigM]
  IN /\ r.ok /\ n \in DOMAIN r.c.forms
     /\ Good(r.c.forms[n], env, t, t, out) = TRUE
     \* it was asked for to be compared with something
     /\ ("hit" \in Clauses => \E i \in 1..Len(seen) : seen[i].key = Key(r.c.forms[n], env, t, t)) = TRUE
     /\ Remember(r.c.forms[n], env, t, t, out)
     /\ UNCHANGED sysvars

Row(a) == [i \in 1..Len(a) |-> a[i]]
MapSet(f) == {<<n, f[n]>> : n \in DOMAIN f}
ObsMapOk(o, f) == /\ Len(o) = Cardinality(DOMAIN f)
                  /\ \A i \in 1..Len(o) : o[i][1] \in DOMAIN f /\ EqO(o[i][2], f[o[i][1]])
ObsRowsOk(o, rows) == /\ Len(o) = Len(rows)
                      /\ \A i \in 1..Len(o) : /\ Len(o[i]) = Len(rows[i])
                                              /\ \A j \in 1..Len(o[i]) : EqO(o[i][j], rows[i][j])
SeqSet(s) == {s[i] : i \in 1..Len(s)}

(* the observable state of a driver and of a monitor *)
DObs(x, o) ==
  /\ o.names = x.sigs /\ ObsMapOk(o.par, x.par) /\ ObsRowsOk(o.data, x.rows)
  /\ SeqSet(o.forms) = DOMAIN x.forms /\ o.sem = x.sem /\ o.itp = x.itp
  /\ SeqSet(o.tests) = DOMAIN x.tests
  /\ o.queue = [i \in 1..Len(x.queue) |->
                  <<x.queue[i].id, [j \in 1..Len(x.queue[i].tests) |-> x.queue[i].tests[j].id]>>]
  /\ o.npos = x.npos /\ o.ntot = x.ntot /\ o.err = x.err
MObs(x, o) ==
  /\ o.names = x.sigs /\ ObsMapOk(o.par, x.par) /\ ObsRowsOk(o.data, x.rows)
  /\ o.sem = x.sem /\ o.itp = x.itp /\ o.has = (x.f # NoFormula)
  /\ o.res = x.res /\ EqO(o.time[1], x.t0) /\ EqO(o.time[2], x.t1)

(* what a printed driver and a printed monitor show *)
ShownOk(o, f, sigs) ==
  LET w == Show(f, sigs)
  IN /\ Len(o) = Len(w)
     /\ \A i \in 1..Len(w) : o[i].s = w[i].s /\ (w[i].s = "" => EqO(o[i].v, w[i].v))
DShown(x, o) ==
  /\ o.same /\ Len(o.forms) = Cardinality(DOMAIN x.forms) /\ {o.forms[i][1] : i \in 1..Len(o.forms)} = DOMAIN x.forms
  /\ \A i \in 1..Len(o.forms) : ShownOk(o.forms[i][2], x.forms[o.forms[i][1]], x.sigs)
  /\ ObsMapOk(o.par, x.par)
MShown(x, o) ==
  /\ o.same /\ Len(o.names) = Len(x.sigs) /\ SeqSet(o.names) = SeqSet(x.sigs)
  /\ ObsMapOk(o.par, x.par)
  /\ IF x.f = NoFormula THEN o.f = <<>> ELSE ShownOk(o.f, x.f, x.sigs)

(* the robustness signal of an evaluation on [t, u], up to hi *)
SignalOk(x, t, u, hi, o) ==
  IF x.f = NoFormula THEN o.p = <<>>
  ELSE (x.rows # <<>> /\ Covered(x.f, Env(x), hi)) => Agrees(o, Sig(x.f, Env(x), t, u), t, hi)
(* the signal a monitor holds, looked at from lo to hi *)
HeldOk(x, lo, hi, o) ==
  IF x.f = NoFormula THEN o.p = <<>>
  ELSE \A i \in 1..Len(x.last) :
         LET v == x.last[i]
         IN (lo = v.t /\ Leq(hi, v.u) /\ Covered(x.f, v.env, hi)) => Agrees(o, Sig(x.f, v.env, v.t, v.u), lo, hi)

Res(o) == <<o[1], o[2], o[3]>>
(* calls that return a value may not throw, except where said otherwise *)
MayThrow == {"eval", "meval", "mgetp", "msig"}
Call ==
  \/ Is("new")    /\ New(E.a[1]) /\ NoteD
  \/ Is("parse")  /\ ParseText(E.a[1], E.a[2], E.out) /\ NoteD
  \/ Is("parsef") /\ ParseText(E.a[1], E.a[2], E.out) /\ NoteD
  \/ Is("bigm")   /\ E.out = "ok" /\ SetBig(E.a[1]) /\ NoteD
  \/ Is("getbig") /\ GetBig(E.out) /\ NoteD
  \/ Is("writef") /\ E.out = "ok" /\ UNCHANGED sysvars /\ NoteD
  \/ Is("add")    /\ AddSample(E.a[1], Row(E.a[2]), E.out) /\ NoteD
  \/ Is("setp")   /\ SetParam(E.a[1], E.a[2], E.a[3], E.out) /\ NoteD
  \/ Is("getp")   /\ GetParam(E.a[1], E.a[2], E.out) /\ NoteD
  \/ Is("sem")    /\ SetSem(E.a[1], E.a[2], E.out) /\ NoteD
  \/ Is("itp")    /\ SetItp(E.a[1], E.a[2], E.out) /\ NoteD
  \/ Is("eval")   /\ Evaluate(E.a[1], E.a[2], E.a[3], E.exc, E.out)
                  /\ IF E.out = <<>> \/ E.exc # "" THEN NoteD
                     ELSE Remember(drv[E.a[1]].forms[E.a[2]], Padded(Env(drv[E.a[1]])), E.a[3], E.a[3], E.out)
  \/ Is("mon")    /\ E.out = "ok" /\ GetMonitor(E.a[1], E.a[2], E.a[3]) /\ NoteD
  \/ Is("copy")   /\ E.out = "ok" /\ Copy(E.a[1], E.a[2]) /\ NoteD
  \/ Is("assign") /\ E.out = "ok" /\ Copy(E.a[1], E.a[2]) /\ NoteD
  \/ Is("move")   /\ E.out = "ok" /\ Move(E.a[1], E.a[2]) /\ NoteD
  \/ Is("massign") /\ E.out = "ok" /\ Move(E.a[1], E.a[2]) /\ NoteD
  \/ Is("del")    /\ E.out = "ok" /\ Delete(E.a[1]) /\ NoteD
  \/ Is("clear")  /\ E.out = "ok" /\ Clear(E.a[1]) /\ NoteD
  \/ Is("names")  /\ E.out = drv[E.a[1]].sigs /\ UNCHANGED sysvars /\ NoteD
  \/ Is("show")   /\ DShown(drv[E.a[1]], E.out) = TRUE /\ UNCHANGED sysvars /\ NoteD
  \/ Is("mshow")  /\ MShown(mon[E.a[1]], E.out) = TRUE /\ UNCHANGED sysvars /\ NoteD
  \/ Is("print")  /\ E.out = "ok" /\ UNCHANGED sysvars /\ NoteD
  \/ Is("obs")    /\ DObs(drv[E.a[1]], E.out) = TRUE /\ UNCHANGED sysvars /\ NoteD
  \/ Is("runtests") /\ RunTests(E.a[1], E.out) /\ NoteD
  \/ Is("tenv")   /\ E.out = NextTestEnv(E.a[1]) /\ UNCHANGED sysvars /\ NoteD
  \/ Is("tpop")   /\ E.out = "ok" /\ PopTest(E.a[1]) /\ NoteD
  \/ Is("mnew")   /\ E.out = "ok" /\ MNew(E.a[1]) /\ NoteD
  \/ Is("madd")   /\ MAddSample(E.a[1], Row(E.a[2]), E.out) /\ NoteD
  \/ Is("msetp")  /\ MSetParam(E.a[1], E.a[2], E.a[3], E.out) /\ NoteD
  \/ Is("mgetp")  /\ MGetParam(E.a[1], E.a[2], E.exc, E.out) /\ NoteD
  \/ Is("msem")   /\ MSetSem(E.a[1], E.a[2], E.out) /\ NoteD
  \/ Is("mitp")   /\ MSetItp(E.a[1], E.a[2], E.out) /\ NoteD
  \/ Is("mtime")  /\ E.out = "ok" /\ MSetTime(E.a[1], E.a[2], E.a[3]) /\ NoteD
  \/ Is("meval")  /\ LET m == E.a[1]
                         t == IF Len(E.a) >= 2 THEN E.a[2] ELSE mon[m].t0
                         u == IF Len(E.a) = 3 THEN E.a[3] ELSE IF Len(E.a) = 2 THEN t ELSE mon[m].t1
                         r == Res(E.out)
                     IN /\ (E.exc = "" => E.out[1] = E.out[4]) = TRUE
                        /\ MEvaluate(m, t, u, E.exc, r)
                        /\ IF E.exc # "" \/ mon[m].f = NoFormula THEN NoteD
                           ELSE Remember(mon[m].f, Padded(Env(mon[m])), t, u, r)
  \/ Is("msig")   /\ LET m == E.a[1]
                         t == E.a[2]
                         u == E.a[3]
                     IN /\ MEvaluate(m, t, u, E.exc, Res(E.out.res))
                        /\ SignalOk(mon[m], t, u, E.a[4], E.out.sig) = TRUE
                        /\ NoteD
  \/ Is("mget")   /\ HeldOk(mon[E.a[1]], E.a[2], E.a[3], E.out) = TRUE /\ UNCHANGED sysvars /\ NoteD
  \/ Is("fresh")  /\ Fresh(E.a[1], E.a[2], E.a[3], E.a[4], E.a[5], E.a[6], E.out)
  \/ Is("mcopy")  /\ E.out = "ok" /\ MCopy(E.a[1], E.a[2]) /\ NoteD
  \/ Is("mcassign") /\ E.out = "ok" /\ MCopy(E.a[1], E.a[2]) /\ NoteD
  \/ Is("mmove")  /\ E.out = "ok" /\ MMove(E.a[1], E.a[2]) /\ NoteD
  \/ Is("mmassign") /\ E.out = "ok" /\ MMove(E.a[1], E.a[2]) /\ NoteD
  \/ Is("mdel")   /\ E.out = "ok" /\ MDelete(E.a[1]) /\ NoteD
  \/ Is("mclear") /\ E.out = "ok" /\ MClear(E.a[1]) /\ NoteD
  \/ Is("mobs")   /\ MObs(mon[E.a[1]], E.out) = TRUE /\ UNCHANGED sysvars /\ NoteD

(* what only the Python module offers: views of the state, and data assigned *)
PCall ==
  \/ Is("pobs")   /\ LET x == drv[E.a[1]] IN
                     (/\ E.out.names = x.sigs /\ ObsRowsOk(E.out.data, x.rows)
                      /\ E.out.sem = x.sem /\ E.out.itp = x.itp) = TRUE
                  /\ UNCHANGED sysvars
  \/ Is("mpobs")  /\ LET x == mon[E.a[1]] IN
                     (/\ ObsRowsOk(E.out.data, x.rows) /\ E.out.sem = x.sem /\ E.out.itp = x.itp
                      /\ E.out.res = x.res /\ EqO(E.out.time[1], x.t0) /\ EqO(E.out.time[2], x.t1)) = TRUE
                  /\ UNCHANGED sysvars
  \/ Is("setdata") /\ E.out = "ok" /\ UpdD(E.a[1], [drv[E.a[1]] EXCEPT !.rows = E.a[2]])
  \/ Is("msetdata") /\ E.out = "ok" /\ UpdM(E.a[1], [mon[E.a[1]] EXCEPT !.rows = E.a[2]])
  \/ Is("mprint") /\ E.out = "ok" /\ UNCHANGED sysvars

(* operations on signals: the result is compared after every one *)
S(n) == sgn[n]
Def(s) == IsSignal(E.out, s) = TRUE /\ SPut(E.a[1], s)
SCall ==
  \/ Is("signew") /\ E.out = "ok" /\ SPut(E.a[1], NoSamples)
  \/ Is("sitp")   /\ E.out = "ok" /\ sitp' = E.a[1] /\ UNCHANGED sgn
  \/ Is("sget")   /\ IsSignal(E.out, S(E.a[1])) = TRUE /\ UNCHANGED sigvars
  \/ Is("sapp")   /\ Def(AppendTo(S(E.a[1]), E.a[2], E.a[3], IF Len(E.a) > 3 THEN E.a[4] ELSE Zero))
  \/ Is("sarr")   /\ Def(FromSamples(E.a[2]))
  \/ Is("sappsig") /\ Def(AppendAll(S(E.a[1]), S(E.a[2])))
  \/ Is("slast")  /\ Def(WithLast(S(E.a[1])))
  \/ Is("smpat")  /\ EqO(E.out, SampleAt(E.a[1], E.a[2])) = TRUE /\ UNCHANGED sigvars
  \/ Is("smpint") /\ SampleMeets(E.a[1], E.a[2], E.out) = TRUE /\ UNCHANGED sigvars
  \/ Is("snot")   /\ Def(NotS(S(E.a[2])))
  \/ Is("sand")   /\ Def(CombS(FALSE, S(E.a[2]), S(E.a[3])))
  \/ Is("sor")    /\ Def(CombS(TRUE, S(E.a[2]), S(E.a[3])))
  \/ Is("simp")   /\ Def(CombS(TRUE, NotS(S(E.a[2])), S(E.a[3])))
  \/ Is("sev")    /\ Def(WindowS(TRUE, S(E.a[2]), E.a[3], E.a[4]))
  \/ Is("salw")   /\ Def(WindowS(FALSE, S(E.a[2]), E.a[3], E.a[4]))
  \/ Is("sbev")   /\ Def(WindowS(TRUE, S(E.a[2]), Zero, E.a[3]))
  \/ Is("sbalw")  /\ Def(WindowS(FALSE, S(E.a[2]), Zero, E.a[3]))
  \/ Is("sevu")   /\ Def(FutureS(TRUE, S(E.a[2])))
  \/ Is("salwu")  /\ Def(FutureS(FALSE, S(E.a[2])))
  \/ Is("suntilu") /\ Def(UntimedS(S(E.a[2]), S(E.a[3])))
  \/ Is("suntil") /\ LET s == UntilS(S(E.a[2]), S(E.a[3]), E.a[4], E.a[5])
                     IN Agrees(E.out, s.f, s.b, s.e) = TRUE /\ UNCHANGED sigvars
  \/ Is("sbool")  /\ \E x \in EndsAtZero(S(E.a[2])) : Def(BoolS(x))
  \/ Is("sleft")  /\ \E x \in EndsAtZero(S(E.a[2])) : Def(TimeS(x, TRUE))
  \/ Is("sright") /\ \E x \in EndsAtZero(S(E.a[2])) : Def(TimeS(x, FALSE))
  \/ Is("ssimpl") /\ Def(S(E.a[1]))
  \/ Is("scopy")  /\ Def(S(E.a[2]))
  \/ Is("sresize") /\ Def(ResizeS(S(E.a[1]), E.a[2], E.a[3], E.a[4]))
  \/ Is("sshift") /\ Def(ShiftS(S(E.a[1]), E.a[2]))

(* trace files *)
FCall ==
  \/ Is("wtrace") /\ E.out = "ok" /\ WriteTrace(E.a[1], E.a[2])
  \/ Is("readt")  /\ ReadTrace(E.a[1], E.a[2], E.out)
  \/ Is("readraw") /\ E.out.ret = (E.a[1] \in DOMAIN fs)
                   /\ ObsRowsOk(E.out.data, IF E.a[1] \in DOMAIN fs THEN Table(fs[E.a[1]]) ELSE <<>>) = TRUE
                   /\ UNCHANGED <<sysvars, fs>>
  \/ Is("dumpt")  /\ DumpTrace(E.a[1], E.a[2], E.out)
  \/ Is("ptrace") /\ ObsRowsOk(E.out, drv[E.a[1]].rows) = TRUE /\ UNCHANGED <<sysvars, fs>>
  \/ Is("dumplog") /\ DumpLog(E.a[1], E.out)
  \/ Is("dumpf")  /\ DumpForms(E.a[1], E.out) = TRUE /\ UNCHANGED <<sysvars, fs>>

Step == /\ (E.exc = "" \/ E.op \in MayThrow) = TRUE
        /\ \/ Call /\ UNCHANGED <<sigvars, fs>>
           \/ PCall /\ UNCHANGED <<sigvars, fs, seen>>
           \/ SCall /\ UNCHANGED <<sysvars, fs, seen>>
           \/ FCall /\ UNCHANGED <<sigvars, seen>>

(* "end" closes an episode whose process ended normally *)
EndOk == Is("end") /\ PrintT(<<"DONE", E.ep>>)

TraceInit == /\ Init /\ seen = <<>> /\ sgn = EmptyMap /\ sitp = "LINEAR" /\ fs = EmptyMap
             /\ l \in {i \in 1..Len(Log) : Log[i].op = "ep"}
\* (A condition that contains => or \/ is written "... = TRUE": TLC would take
\* every disjunct of an action for a step of its own.)
TraceNext == \/ Is("ep") /\ l' = l + 1 /\ UNCHANGED <<sysvars, sgn, sitp, fs, seen>>
             \/ ~Is("ep") /\ ~Is("end") /\ ~Is("crash") /\ Step /\ (Verbose => PrintT(<<"LINE", l>>)) = TRUE /\ l' = l + 1
             \/ EndOk /\ FALSE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars

(* For a report: what the specification expects at a rejected line. *)
Expected(f, env, t, u) ==
  PrintT(<<"EXPECT", l, IF Covered(f, env, t) THEN <<"rob", RobW(f, env, t, u)>>
           ELSE <<"low", KLowerW(f, env, t, u), LowerW(f, env, t, u), "up", UpperW(f, env, t, u), KUpperW(f, env, t, u)>> >>)
Explain ==
  IF ~Verbose THEN TRUE
  ELSE IF Is("eval") /\ E.a[1] \in DOMAIN drv /\ E.a[2] \in DOMAIN drv[E.a[1]].forms /\ drv[E.a[1]].rows # <<>>
  THEN Expected(drv[E.a[1]].forms[E.a[2]], Padded(Env(drv[E.a[1]])), E.a[3], E.a[3])
  ELSE IF Is("meval") /\ E.a[1] \in DOMAIN mon /\ mon[E.a[1]].f # NoFormula /\ mon[E.a[1]].rows # <<>>
  THEN LET t == IF Len(E.a) >= 2 THEN E.a[2] ELSE mon[E.a[1]].t0
           u == IF Len(E.a) = 3 THEN E.a[3] ELSE IF Len(E.a) = 2 THEN t ELSE mon[E.a[1]].t1
       IN Expected(mon[E.a[1]].f, Padded(Env(mon[E.a[1]])), t, u)
  ELSE TRUE
=============================================================================
