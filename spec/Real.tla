-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Real numbers.  The definitions below only fix the arity and intended     *)
(* meaning of the operators; TLC evaluates them in double precision through *)
(* the Java overrides in spec/java (class mimosaverif.RealOps), in the same *)
(* way as it evaluates the standard module Integers.  Integers are reals:   *)
(* +, - and * of two integers give an integer, / always gives a real.       *)
(***************************************************************************)
LOCAL INSTANCE TLC

a + b == CHOOSE x : TRUE
a - b == CHOOSE x : TRUE
-. a == CHOOSE x : TRUE
a * b == CHOOSE x : TRUE
a / b == CHOOSE x : TRUE
a ^ b == CHOOSE x : TRUE
a \div b == CHOOSE x : TRUE      \* integers only, rounds down
a % b == CHOOSE x : TRUE         \* integers only
a < b == CHOOSE x \in BOOLEAN : TRUE
a \leq b == CHOOSE x \in BOOLEAN : TRUE
a > b == CHOOSE x \in BOOLEAN : TRUE
a \geq b == CHOOSE x \in BOOLEAN : TRUE
a .. b == CHOOSE x : TRUE        \* integer interval

R(text) == CHOOSE x : TRUE       \* the real written in decimal in text
Exp(x) == CHOOSE y : TRUE
Ln(x) == CHOOSE y : TRUE
Atan(x) == CHOOSE y : TRUE
Pi == CHOOSE y : TRUE
Abs(x) == CHOOSE y : TRUE
Min2(a, b) == CHOOSE y : TRUE
Max2(a, b) == CHOOSE y : TRUE
Floor(x) == CHOOSE y : TRUE
Ceil(x) == CHOOSE y : TRUE
IsFin(x) == CHOOSE b \in BOOLEAN : TRUE
IsNaN(x) == CHOOSE b \in BOOLEAN : TRUE
IsBool(x) == CHOOSE b \in BOOLEAN : TRUE
IsNum(x) == CHOOSE b \in BOOLEAN : TRUE
IsInt(x) == CHOOSE b \in BOOLEAN : TRUE
IsText(x) == CHOOSE b \in BOOLEAN : TRUE
ToReal(x) == CHOOSE y : TRUE
Sum(f) == CHOOSE y : TRUE        \* sum of f[x] for x in DOMAIN f
MaxOf(f) == CHOOSE y : TRUE
MinOf(f) == CHOOSE y : TRUE

Force(x) == x                    \* evaluated once and for all

Hash01(key) == CHOOSE y : TRUE   \* pseudo-random real in [0,1), a function of key
HashInt(n, key) == CHOOSE y : TRUE \* pseudo-random integer in 0..n-1, a function of key
Chars(text) == CHOOSE s : TRUE  \* the characters of a text
IsNumText(text, kind) == CHOOSE b \in BOOLEAN : TRUE \* decimal number ("int": integer)
NumText(x) == CHOOSE s : TRUE    \* decimal text of a number

(* Input and output of the harness *)
ReadJson(file) == CHOOSE v : TRUE
WriteJson(file, v) == CHOOSE b \in BOOLEAN : TRUE
Env(name, default) == CHOOSE s : TRUE
EnvInt(name, default) == CHOOSE i : TRUE

(* Equality of reals up to rounding: relative to the magnitude `scale` *)
Tol == R("1e-7")
Near(a, b, scale) == Abs(a - b) <= Tol * (Abs(a) + Abs(b) + scale)
=============================================================================
