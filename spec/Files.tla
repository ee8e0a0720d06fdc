-------------------------------- MODULE Files --------------------------------
(* Trace files.  A file is a sequence of lines, a line a sequence of tokens: *)
(* numbers [k |-> "num", v |-> value] and words [k |-> "word"].  Blanks,     *)
(* empty lines, the spelling of numbers and the kind of line ends are not    *)
(* part of it.                                                               *)
EXTENDS Signals

VARIABLE fs      \* file name -> lines

(* The numbers of a line up to the first word make a sample.  Lines without  *)
(* any make none.                                                            *)
LineRow(line) == LET w == {i \in 1..Len(line) : line[i].k # "num"}
                     n == IF w = {} THEN Len(line) ELSE (CHOOSE i \in w : \A j \in w : i <= j) - 1
                 IN [i \in 1..n |-> line[i].v]
Table(lines)  == SelectSeq([i \in 1..Len(lines) |-> LineRow(lines[i])], LAMBDA r : r # <<>>)
RowLine(row)  == [i \in 1..Len(row) |-> [k |-> "num", v |-> row[i]]]

WriteTrace(n, lines) == fs' = Put(fs, n, lines) /\ UNCHANGED sysvars

(* Reading replaces all data; without a file there is none. *)
ReadTrace(d, n, out) ==
  /\ out = (n \in DOMAIN fs)
  /\ UpdD(d, [drv[d] EXCEPT !.rows = IF n \in DOMAIN fs THEN Table(fs[n]) ELSE <<>>])
  /\ UNCHANGED fs

(* Dumping writes all samples in order (numbers of up to six digits). *)
DumpTrace(d, n, out) ==
  /\ out = "ok"
  /\ fs' = Put(fs, n, [i \in 1..Len(drv[d].rows) |-> RowLine(drv[d].rows[i])])
  /\ UNCHANGED sysvars

(* The log of all tests run so far, and their count. *)
LogOf(x) == FlattenSeq([i \in 1..Len(x.report) |->
              [j \in 1..Len(x.report[i][2]) |-> <<x.report[i][2][j][1], x.report[i][2][j][2]>>]])
DumpLog(d, out) ==
  /\ out.ret = TRUE /\ out.npos = drv[d].npos /\ out.ntot = drv[d].ntot
  /\ out.log = LogOf(drv[d])
  /\ UNCHANGED <<sysvars, fs>>

(* The robustness signal of every formula at time 0: its only value is the   *)
(* robustness there.                                                         *)
DumpForms(d, out) ==
  LET x == drv[d]
  IN /\ {out[i][1] : i \in 1..Len(out)} = DOMAIN x.forms
     /\ \A i \in 1..Len(out) :
          LET f == x.forms[out[i][1]]
          IN Covered(f, Env(x), Zero) =>
               /\ out[i][2] # <<>>
               /\ EqO(out[i][2][1][1], Zero)
               /\ EqO(out[i][2][Len(out[i][2])][2], Rob(f, Env(x), Zero))
=============================================================================
