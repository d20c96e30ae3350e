------------------------------ MODULE RatLaws ------------------------------
(* Self-test of the exact arithmetic: a broken override stops every check. *)
EXTENDS Lin, TLC
S == {R(p, q) : p \in -3..3, q \in {1, 2, 3, 7}}
ASSUME \A a, b \in S : RAdd(a, b) = RAdd(b, a) /\ RMul(a, b) = RMul(b, a) /\ RSub(a, b) = RNeg(RSub(b, a))
ASSUME \A a, b \in S, c \in {R(1, 5), R(-2, 9)} : RMul(c, RAdd(a, b)) = RAdd(RMul(c, a), RMul(c, b))
ASSUME \A a, b \in S : (RLe(a, b) /\ RLe(b, a)) = REq(a, b) /\ (RLt(a, b) = ~RLe(b, a))
ASSUME \A a \in S, b \in S \ {"0"} : REq(RMul(RDiv(a, b), b), a)
ASSUME \A p \in -20..20, q \in 1..6 : RToInt(RFloor(R(p, q))) = p \div q
ASSUME RAdd("3602879701896397/36028797018963968", "7205759403792794/36028797018963968") = R("10808639105689191", "36028797018963968")
ASSUME ~RLe("nan", 1) /\ ~RLe(1, "inf") /\ RAdd("nan", 1) = "nan" /\ ~RNum("inf") /\ ~REq("nan", "nan") /\ RDiv(1, 0) = "nan"
ASSUME RNear(RSq(RSqrt(2)), 2, RPow(R(1, 10), 40))
ASSUME RNear(RExp(RLn(R(7, 3))), R(7, 3), RPow(R(1, 10), 40))
ASSUME RNear(RExp(1), "271828182845904523536028747135266249775724709369995/100000000000000000000000000000000000000000000000000", RPow(R(1, 10), 40))
ASSUME RNear(RMul(RExp(R(-7, 2)), RExp(R(7, 2))), 1, RPow(R(1, 10), 40))
ASSUME VEq(Solve(<<<<2, 1>>, <<1, 3>>>>, <<3, 5>>), <<R(4, 5), R(7, 5)>>)
ASSUME MEq(MM(<<<<2, 1>>, <<1, 3>>>>, Inverse(<<<<2, 1>>, <<1, 3>>>>)), Ident(2))
ASSUME Solve(<<<<1, 2>>, <<2, 4>>>>, <<1, 2>>) = <<>>
ASSUME IsPD(<<<<2, 1>>, <<1, 2>>>>) /\ ~IsPD(<<<<1, 2>>, <<2, 1>>>>) /\ IsPSD(<<<<1, 1>>, <<1, 1>>>>, Tol8)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
