-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Any number of linear and integer programs and the operations on them.      *)
(* A program's content is [kind, ints, p, r]: ints the variables an integer     *)
(* program lists as integral, p its data over the common scale (p.k            *)
(* = "ok") and r the same data row by row as rationals.  Every operation       *)
(* either leaves all programs as they are and adds at most one program, or     *)
(* - when asked to work in place - replaces the content of its receiver.       *)
(***************************************************************************)
EXTENDS Transform, Canon

AuxOf(p) ==
  [m |-> p.m, n |-> p.n + p.m, s |-> p.s, obj |-> "min", z |-> 0,
   rel |-> [i \in 1..p.m |-> "="], sgn |-> [j \in 1..(p.n + p.m) |-> "+"],
   b |-> [i \in 1..p.m |-> RAbs(p.b[i])],
   c |-> [j \in 1..(p.n + p.m) |-> IF j <= p.n THEN 0 ELSE p.s],
   A |-> [i \in 1..p.m |-> [j \in 1..(p.n + p.m) |->
            IF j <= p.n THEN (IF p.b[i] < 0 THEN -1 ELSE 1) * p.A[i][j] ELSE IF j = p.n + i THEN p.s ELSE 0]]]

Exact(x) == x.p.k = "ok"
SefFrame(f) == f.obj = "max" /\ (\A i \in DOMAIN f.rel : f.rel[i] = "=") /\ (\A j \in DOMAIN f.sgn : f.sgn[j] = "+")
RowSign(e) == IF e.free = 1 THEN "f" ELSE IF e.neg = 1 THEN "-" ELSE "+"
Basis(e, x) == IsBasis(x.p, e.B)

(* what the operation may answer: must it work, must it be refused, or either *)
Demand(e, x) ==
  CASE e.op \in {"copy", "relax", "dual", "sef", "clear"} -> "ok"
    [] e.op = "row" -> IF e.bad = 0 /\ Len(e.a) = x.r.n THEN "ok" ELSE "exc"
    [] e.op = "var" -> IF e.bad = 0 /\ (e.nocol = 1 \/ Len(e.a) = x.r.m) /\ ~(e.free = 1 /\ e.neg = 1) THEN "ok" ELSE "exc"
    [] e.op = "aux" -> IF SefFrame(x.r) THEN "ok" ELSE "exc"
    [] e.op = "canon" -> IF ~SefFrame(x.r) THEN "exc" ELSE IF ~Exact(x) THEN "any" ELSE IF Basis(e, x) THEN "ok" ELSE "exc"
    [] e.op = "iter" -> IF ~SefFrame(x.r) THEN "exc" ELSE IF ~Exact(x) THEN "any" ELSE IF ~Basis(e, x) THEN "exc"
                        ELSE IF FeasibleView(View(x.p, e.B)) THEN "ok" ELSE "any"
    [] OTHER -> "any"

(* the content y that the operation makes of the content x *)
Effect(e, x, y) ==
  CASE e.op = "copy" -> y = x
    [] e.op = "clear" -> y = x
    [] e.op = "relax" -> y.p = x.p /\ y.r = x.r /\ y.kind = "LP" /\ y.ints = <<>>
    [] e.op = "sef" -> y.kind = x.kind /\ (Exact(x) => Exact(y) /\ Data(y.p) = Sef(Data(x.p)))
    [] e.op = "dual" -> Exact(x) => Exact(y) /\ Data(y.p) = Dual(x.p)
    [] e.op = "aux" -> Exact(x) => Exact(y) /\ Data(y.p) = AuxOf(x.p)
    [] e.op = "row" -> y.kind = x.kind /\ y.ints = x.ints /\ (Exact(x) => Exact(y) /\ Data(y.p) = WithRow(Data(x.p), e.a, e.rel, e.t))
    [] e.op = "var" -> y.kind = x.kind /\ y.ints = x.ints /\ (Exact(x) => Exact(y) /\ Data(y.p) =
                         WithVar(Data(x.p), e.t, IF e.nocol = 1 THEN [i \in 1..x.p.m |-> 0] ELSE e.a, RowSign(e)))
    [] e.op \in {"canon", "iter"} -> y.kind = x.kind /\ (Exact(x) => IsView(x.p, e.B, View(x.p, e.B), y.r))
    [] OTHER -> TRUE
Makes == {"copy", "relax", "dual", "sef", "clear", "row", "var", "aux", "canon", "iter"}
=============================================================================
