-------------------------------- MODULE MCSys --------------------------------
(* The system of STLRom explored from the specification itself: a small      *)
(* world of named texts, samples, parameter values, times and objects, in    *)
(* which TLC enumerates every sequence of calls up to a depth.  Two uses:    *)
(*  - the invariants and action properties below are checked on all states;  *)
(*  - every transition TLC finds is printed (Emit) with the calls that lead  *)
(*    to it.  The calls are replayed into the code, and what it answers is   *)
(*    validated against the specification (module Trace): a test of every    *)
(*    transition of the bounded model.                                       *)
EXTENDS STLRom, Json, FiniteSetsExt

CONSTANTS Acts,     \* the calls of this scenario
          Prelude,  \* calls made first, as <<op, args>>
          Ds, Ms,   \* object names
          TextSet,  \* names of texts that may be parsed
          EvalAt,   \* evaluation times
          Depth     \* calls after the prelude

VARIABLES hist      \* the calls so far
vars == <<sysvars, hist>>
View == <<sysvars, Len(hist) < Len(Prelude)>>

(*--------------------------------- texts ---------------------------------*)
W(s)      == [s |-> s]
N(n)      == [s |-> ToString(n), v |-> R(n)]
Q(s)      == [s |-> "\"" \o s \o "\"", str |-> s]
Bad       == [s |-> "$", bad |-> TRUE]
X         == <<W("x"), W("["), W("t"), W("]")>>
Y         == <<W("y"), W("["), W("t"), W("]")>>
Gt(e, f)  == e \o <<W(">")>> \o f
Iv(a, b)  == <<W("["), a, W(","), b, W("]")>>
Def(n, f) == <<W(n), W(":=")>> \o f
Par(s)    == <<W("(")>> \o s \o <<W(")")>>
Set(n, v) == <<W(n), W("="), N(v)>>
Case(id, loc, f, pos, neg, err) ==
  <<W(id)>> \o loc \o <<W("{")>> \o f \o <<W(","), Q(pos), W(","), Q(neg), W(","), W(err), W("}")>>
Test(id, env, cases) == <<W("test"), W(id), W(":"), Q(env), W("{")>> \o cases \o <<W("}")>>

Texts ==
  [base  |-> <<W("signal"), W("x")>> \o <<W("param")>> \o Set("p", 0) \o Def("phi", Gt(X, <<W("p")>>)),
   base2 |-> <<W("signal"), W("x"), W(","), W("y"), W("param")>> \o Set("p", 0) \o Def("phi", Gt(X, <<W("p")>>)),
   ev    |-> Def("psi", <<W("ev_")>> \o Iv(N(0), N(1)) \o <<W("phi")>>),
   alw   |-> Def("psi", <<W("alw_")>> \o Iv(N(0), N(1)) \o <<W("phi")>>),
   evp   |-> Def("psi", <<W("ev_")>> \o Iv(N(0), W("q")) \o <<W("phi")>>),
   unt   |-> Def("chi", Par(<<W("phi")>>) \o <<W("until_")>> \o Iv(N(0), N(1)) \o Par(Gt(X, <<N(1)>>))),
   conj  |-> Def("chi", <<W("phi"), W("and")>> \o Par(<<W("not"), W("psi")>>)),
   other |-> Def("phi", Gt(X, <<N(2)>>)),
   setp  |-> <<W("param")>> \o Set("p", 1),
   setpq |-> <<W("param")>> \o Set("p", 2) \o <<W(",")>> \o Set("q", 1),
   sigy  |-> <<W("signal"), W("y")>>,
   late  |-> <<W("param")>> \o Set("q", 2) \o <<W("signal"), W("z")>>,
   broke |-> <<W("param")>> \o Set("q", 2) \o Def("eta", Gt(X, <<N(1)>>)) \o Def("rho", Gt(X, <<>>)),
   broke2 |-> Def("rho", Gt(Y, <<N(1)>>)),
   junk  |-> Def("eta", Gt(X, <<N(1)>>)) \o <<Bad>>,
   empty |-> <<>>,
   tst1  |-> Test("tt", "env a", Case("c1", <<>>, Gt(X, <<W("p")>>), "too high", "fine", "false")),
   tst2  |-> Test("uu", "", Case("c2", Par(Set("p", -1)), <<W("ev_")>> \o Iv(N(0), N(1)) \o Par(Gt(X, <<W("p")>>)), "bad", "", "true")
                            \o <<W("c1")>> \o Par(Set("p", -2))),
   tst3  |-> Test("vv", "e", <<W("c1")>>),
   tst4  |-> Test("ww", "e", Case("c4", Par(Set("p", 3)), Gt(X, <<W("p")>>), "bad", "", "true") \o <<W("c9")>>)]

(*--------------------------------- calls ---------------------------------*)
(* Canonical results, for the calls that return a judgement.                 *)
EvP(f, env, t, u) ==
  IF Covered(f, env, t) THEN LET v == Exact(RobW(f, env, t, u)) IN <<v, v, v>>
  ELSE IF env.sem = "SPACE" THEN <<Exact(KLowerW(f, env, t, u)), Exact(KLowerW(f, env, t, u)), Exact(KUpperW(f, env, t, u))>>
  ELSE <<Exact(Zero), Exact(Zero), Exact(Zero)>>
Ev(f, env, t, u) == LET z == <<Exact(Zero), Exact(Zero), Exact(Zero)>> IN
  IF Lacks(f, env, u) THEN z ELSE EvP(f, Padded(env), t, u)
DEv(d, n, t) == IF drv[d].rows = <<>> \/ n \notin DOMAIN drv[d].forms THEN <<>>
                ELSE Ev(drv[d].forms[n], Env(drv[d]), t, t)
MEv(m, t) == IF mon[m].f = NoFormula THEN mon[m].res
             ELSE IF mon[m].rows = <<>> THEN <<Exact(Zero), Exact(Zero), Exact(Zero)>>
             ELSE Ev(mon[m].f, Env(mon[m]), t, t)
RunOut(d) ==
  LET x    == drv[d]
      ts   == IF x.queue = <<>> THEN <<>> ELSE Head(x.queue).tests
      got  == [i \in 1..Len(ts) |->
                 LET r == Ev(ts[i].f, TestEnv(x, ts[i]), Zero, Zero)[1]
                 IN <<ts[i].id, r, r[1] > 0, IF r[1] > 0 THEN ts[i].pos ELSE ts[i].neg>>]
      rep  == IF x.queue = <<>> THEN x.report ELSE Append(x.report, <<Head(x.queue).id, got>>)
      err  == \E i \in 1..Len(ts) : got[i][3] /\ ts[i].err
  IN [report |-> rep, ret |-> err, err |-> err, ntot |-> x.ntot,
      npos |-> x.npos + Cardinality({i \in 1..Len(ts) : got[i][3]}), empty |-> Len(x.queue) <= 1,
      log |-> FlattenSeq([k \in 1..Len(rep) |-> [i \in 1..Len(rep[k][2]) |-> <<rep[k][2][i][1], rep[k][2][i][2]>>]])]

Statuses == {"ok", "invalid_argument"}
Read(c) == UNCHANGED sysvars
(* the transition of a call *)
Do(op, a) ==
  \/ op = "new"     /\ New(a[1])
  \/ op = "bigm"    /\ SetBig(a[1])
  \/ op = "parse"   /\ \E ok \in BOOLEAN : ParseText(a[1], Texts[a[2]], ok)
  \/ op = "add"     /\ \E o \in Statuses : AddSample(a[1], a[2], o)
  \/ op = "setp"    /\ SetParam(a[1], a[2], a[3], "ok")
  \/ op = "sem"     /\ \E o \in Statuses : SetSem(a[1], a[2], o)
  \/ op = "itp"     /\ \E o \in Statuses : SetItp(a[1], a[2], o)
  \/ op = "eval"    /\ \E e \in {"", "exception"} : Evaluate(a[1], a[2], a[3], e, DEv(a[1], a[2], a[3]))
  \/ op \in {"copy", "assign"}  /\ Copy(a[1], a[2])
  \/ op \in {"move", "massign"} /\ Move(a[1], a[2])
  \/ op = "del"     /\ Delete(a[1])
  \/ op = "clear"   /\ Clear(a[1])
  \/ op = "runtests" /\ RunTests(a[1], RunOut(a[1]))
  \/ op = "tpop"    /\ PopTest(a[1])
  \/ op = "mon"     /\ GetMonitor(a[1], a[2], a[3])
  \/ op = "mnew"    /\ MNew(a[1])
  \/ op = "madd"    /\ \E o \in Statuses : MAddSample(a[1], a[2], o)
  \/ op = "msetp"   /\ \E o \in Statuses : MSetParam(a[1], a[2], a[3], o)
  \/ op = "msem"    /\ \E o \in Statuses : MSetSem(a[1], a[2], o)
  \/ op = "mitp"    /\ \E o \in Statuses : MSetItp(a[1], a[2], o)
  \/ op = "mtime"   /\ MSetTime(a[1], a[2], a[3])
  \/ op = "meval"   /\ \E e \in {"", "exception"} : MEvaluate(a[1], a[2], a[2], e, MEv(a[1], a[2]))
  \/ op \in {"mcopy", "mcassign"} /\ MCopy(a[1], a[2])
  \/ op \in {"mmove", "mmassign"} /\ MMove(a[1], a[2])
  \/ op = "mdel"    /\ MDelete(a[1])
  \/ op = "mclear"  /\ MClear(a[1])

(* which calls there are in a state *)
DD == DOMAIN drv
MM == DOMAIN mon
On(op, S) == IF op \in Acts THEN {<<op, s>> : s \in S} ELSE {}
Vals(o)   == <<R(1), R(-1), R(2), R(0)>>[(Len(o.rows) % 4) + 1]
(* the next sample of an object: good, too early, too short, too long *)
Next1(o)  == IF o.rows = <<>> THEN Zero ELSE Plus(LastTime(o), One)
Row(o, t, w) == <<t>> \o [i \in 1..w |-> Vals(o)]
Rows(o) == {Row(o, Next1(o), Len(o.sigs))} \cup
           (IF "badrows" \in Acts
            THEN {Row(o, Next1(o), Len(o.sigs) + 1), Row(o, Minus(Next1(o), One), Len(o.sigs)),
                  Row(o, Minus(Next1(o), <<3, 2>>), Len(o.sigs)), Row(o, Next1(o), 0), Row(o, Plus(Next1(o), <<1, 2>>), Len(o.sigs))}
            ELSE {})
Names == {"phi", "psi", "chi", "nope"}
SomeNames(d) == {n \in Names : n \in DOMAIN drv[d].forms} \cup (IF "nope" \in Acts THEN {"nope"} ELSE {})
Sems  == {"LEFT_TIME", "SPACE"} \cup (IF "nope" \in Acts THEN {"SOMETIME"} ELSE {})
Itps  == {"PREVIOUS", "LINEAR"} \cup (IF "nope" \in Acts THEN {"CUBIC"} ELSE {})
Parms == {"p"} \cup (IF "nope" \in Acts THEN {"q"} ELSE {})
Calls ==
  UNION {On("new", {<<d>> : d \in Ds}),
         On("bigm", {<<R(300)>>, <<<<1001, 2>>>>} \ {<<big>>}),
         On("parse", {<<d, t>> : d \in DD, t \in TextSet}),
         UNION {On("add", {<<d, r>> : r \in Rows(drv[d])}) : d \in DD},
         On("setp", {<<d, n, R(1)>> : d \in DD, n \in Parms}),
         On("sem", {<<d, s>> : d \in DD, s \in Sems}),
         On("itp", {<<d, s>> : d \in DD, s \in Itps}),
         UNION {On("eval", {<<d, n, t>> : n \in SomeNames(d), t \in EvalAt}) : d \in DD},
         On("copy", {<<d, s>> : d \in Ds, s \in DD}),
         On("assign", {<<d, s>> : d \in DD, s \in DD}),
         On("move", {<<d, s>> : d \in Ds, s \in DD}),
         On("massign", {<<d, s>> : d \in DD, s \in DD}),
         On("del", {<<d>> : d \in DD}),
         On("clear", {<<d>> : d \in DD}),
         On("runtests", {<<d>> : d \in DD}),
         On("tpop", {<<d>> : d \in DD}),
         UNION {On("mon", {<<m, d, n>> : m \in Ms, n \in SomeNames(d)}) : d \in DD},
         On("mnew", {<<m>> : m \in Ms}),
         UNION {On("madd", {<<m, r>> : r \in Rows(mon[m])}) : m \in MM},
         On("msetp", {<<m, n, R(1)>> : m \in MM, n \in Parms}),
         On("msem", {<<m, s>> : m \in MM, s \in Sems}),
         On("mitp", {<<m, s>> : m \in MM, s \in Itps}),
         On("mtime", {<<m, One, R(2)>> : m \in MM}),
         On("meval", {<<m, t>> : m \in MM, t \in EvalAt}),
         On("mcopy", {<<m, s>> : m \in Ms, s \in MM}),
         On("mcassign", {<<m, s>> : m \in MM, s \in MM}),
         On("mmove", {<<m, s>> : m \in Ms, s \in MM}),
         On("mmassign", {<<m, s>> : m \in MM, s \in MM}),
         On("mdel", {<<m>> : m \in MM}),
         On("mclear", {<<m>> : m \in MM})}
Sane(c) == c[1] \in {"move", "massign", "mmove", "mmassign"} => c[2][1] # c[2][2]

(*------------------------------- scenarios --------------------------------*)
T0  == {Zero}
T01 == {Zero, <<1, 2>>, One}
NewA(text) == << <<"new", <<"a">>>>, <<"parse", <<"a", text>>>> >>
AddA(t, vs) == <<"add", <<"a", <<R(t)>> \o vs>>>>
LifePrelude == NewA("base") \o <<AddA(0, <<One>>)>>
RowsPrelude == NewA("base2")
TestPrelude == NewA("base") \o <<AddA(0, <<One>>), AddA(2, <<R(-2)>>)>>
TextPrelude == << <<"new", <<"a">>>> >>
ParPrelude  == NewA("base") \o << <<"parse", <<"a", "setpq">>>>, <<"parse", <<"a", "evp">>>>,
                                  AddA(0, <<One>>), AddA(2, <<R(2)>>) >>
SetPrelude  == NewA("base") \o << <<"parse", <<"a", "ev">>>>, AddA(0, <<One>>), AddA(1, <<R(-1)>>), AddA(3, <<R(1)>>),
                                  <<"mon", <<"m", "a", "psi">>>> >>
TwoPrelude  == NewA("base") \o << <<"parse", <<"a", "alw">>>>, AddA(0, <<One>>), <<"copy", <<"b", "a">>>>,
                                  <<"mon", <<"m", "a", "psi">>>> >>
BigPrelude  == NewA("base") \o << <<"parse", <<"a", "ev">>>>, <<"parse", <<"a", "unt">>>>, AddA(0, <<One>>),
                                  <<"mon", <<"m", "a", "psi">>>> >>

SysInit == Init /\ hist = <<>>
SysNext == \E c \in (IF Len(hist) < Len(Prelude) THEN {Prelude[Len(hist) + 1]} ELSE {x \in Calls : Sane(x)}) :
              Do(c[1], c[2]) /\ hist' = Append(hist, c)
SysSpec == SysInit /\ [][SysNext]_vars
Bound   == Len(hist) <= Len(Prelude) + Depth

(* printed for every transition after the prelude (an action constraint) *)
Emit == Len(hist) < Len(Prelude) \/ PrintT(<<"BEH", ToJson([h |-> hist', d |-> DOMAIN drv', m |-> DOMAIN mon'])>>)
(* printed at the end of a random walk (a state constraint) *)
EmitEnd == Len(hist) < Len(Prelude) + Depth \/ PrintT(<<"BEH", ToJson([h |-> hist, d |-> DOMAIN drv, m |-> DOMAIN mon])>>)
ASSUME PrintT(<<"TEXTS", ToJson(Texts)>>)

(*------------------------------- properties -------------------------------*)
(* in every state, every call has an outcome *)
Receptive == \A c \in {x \in Calls : Sane(x)} : ENABLED Do(c[1], c[2])

Increasing(rows) == \A i \in 1..(Len(rows) - 1) : Lt(rows[i][1], rows[i + 1][1])
Ordered == /\ \A d \in DD : Increasing(drv[d].rows)
           /\ \A m \in MM : Increasing(mon[m].rows)
Widths  == /\ \A d \in DD : \A i \in 1..Len(drv[d].rows) : Len(drv[d].rows[i]) <= Len(drv[d].sigs) + 1
           /\ \A m \in MM : \A i \in 1..Len(mon[m].rows) : Len(mon[m].rows[i]) <= Len(mon[m].sigs) + 1
Counted == \A d \in DD : LET x == drv[d] IN
             /\ x.npos <= x.ntot
             /\ x.err => x.npos > 0
             /\ FoldSeq(LAMBDA q, n : n + Len(q.tests), 0, x.queue) <= x.ntot
             /\ FoldSeq(LAMBDA g, n : n + Len(g[2]), 0, x.report) <= x.ntot
Bracketed == \A m \in MM : Leq(Ex(mon[m].res[2]), Ex(mon[m].res[1])) /\ Leq(Ex(mon[m].res[1]), Ex(mon[m].res[3]))
(* a reference in a queued test, a formula or a monitor needs only what is there *)
RECURSIVE Pars(_), XPars(_)
XPars(x) == CASE x.k = "par" -> {x.n} [] x.k \in {"sig", "num"} -> {} [] x.k = "abs" -> XPars(x.p)
              [] OTHER -> XPars(x.l) \cup XPars(x.r)
Pars(f) == CASE f.k = "none" -> {}
             [] f.k \in {"<", ">"} -> XPars(f.l) \cup XPars(f.r)
             [] f.k = "not" -> Pars(f.p)
             [] f.k \in {"ev", "alw"} -> XPars(f.a) \cup XPars(f.b) \cup Pars(f.p)
             [] f.k = "until" -> XPars(f.a) \cup XPars(f.b) \cup Pars(f.l) \cup Pars(f.r)
             [] OTHER -> Pars(f.l) \cup Pars(f.r)
Closed == /\ \A d \in DD : \A n \in DOMAIN drv[d].forms : Pars(drv[d].forms[n]) \subseteq DOMAIN drv[d].par
          /\ \A m \in MM : Pars(mon[m].f) \subseteq DOMAIN mon[m].par

(* a call changes only the objects it names first (a move also its source) *)
LastCall == hist'[Len(hist')]
Target(c) == IF c[1] = "bigm" THEN {} ELSE {c[2][1]}
Gone(c)   == IF c[1] \in {"move", "massign", "mmove", "mmassign"} THEN {c[2][2]} ELSE {}
Independence ==
  [][LET c == LastCall IN
     /\ \A d \in DOMAIN drv : (d \notin Target(c) \cup Gone(c)) => d \in DOMAIN drv' /\ drv'[d] = drv[d]
     /\ \A m \in DOMAIN mon : (m \notin Target(c) \cup Gone(c)) => m \in DOMAIN mon' /\ mon'[m] = mon[m]]_vars
Reading == [][LastCall[1] = "eval" => UNCHANGED sysvars]_vars
(* data only grows, except where it is replaced or cleared *)
Growing ==
  [][\A d \in DOMAIN drv \cap DOMAIN drv' :
       LastCall[1] \in {"new", "copy", "assign", "move", "massign", "del"} \/ IsPrefix(drv[d].rows, drv'[d].rows)]_vars
=============================================================================
