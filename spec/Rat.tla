-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic.  A rational is a pair <<n, d>> in lowest terms *)
(* with d > 0, so that equality of rationals is equality of pairs.           *)
EXTENDS Integers

LOCAL AbsI(n) == IF n < 0 THEN -n ELSE n

LOCAL GcdF[p \in Nat \X Nat] == IF p[2] = 0 THEN p[1] ELSE GcdF[<<p[2], p[1] % p[2]>>]

Norm(n, d) ==
  IF d = 1 THEN <<n, 1>>
  ELSE LET g == GcdF[<<AbsI(n), AbsI(d)>>]
       IN  IF d < 0 THEN <<-(n \div g), -(d \div g)>> ELSE <<n \div g, d \div g>>

R(n)       == <<n, 1>>
Zero       == <<0, 1>>
One        == <<1, 1>>

Plus(x, y) == IF x[2] = y[2]
              THEN (IF x[2] = 1 THEN <<x[1] + y[1], 1>> ELSE Norm(x[1] + y[1], x[2]))
              ELSE IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
              ELSE LET g == GcdF[<<x[2], y[2]>>]
                       k == y[2] \div g
                   IN Norm(x[1] * k + y[1] * (x[2] \div g), x[2] * k)
Minus(x, y) == Plus(x, <<-y[1], y[2]>>)
NegR(x)     == <<-x[1], x[2]>>
Times(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN Zero
               ELSE IF y = One THEN x ELSE IF x = One THEN y
               ELSE Norm(x[1] * y[1], x[2] * y[2])
Div(x, y)   == IF x[1] = 0 THEN Zero ELSE Norm(x[1] * y[2], x[2] * y[1])
\* integer parts first: TLC's integers have 32 bits
Lt(x, y)    == IF x[2] = y[2] THEN x[1] < y[1]
               ELSE LET p == x[1] \div x[2]
                        q == y[1] \div y[2]
                    IN p < q \/ (p = q /\ (x[1] % x[2]) * y[2] < (y[1] % y[2]) * x[2])
Leq(x, y)   == ~Lt(y, x)
MaxR(x, y)  == IF Lt(x, y) THEN y ELSE x
MinR(x, y)  == IF Lt(y, x) THEN y ELSE x
AbsR(x)     == IF x[1] < 0 THEN <<-x[1], x[2]>> ELSE x
Mid(x, y)   == Div(Plus(x, y), <<2, 1>>)
=============================================================================
