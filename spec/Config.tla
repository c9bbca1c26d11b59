------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* What a configuration means.  A user's settings are a sequence of           *)
(* [path |-> name of an option, val |-> tagged value] laid over the defaults;   *)
(* the meaning is either rejection or, for every option, a tagged value.       *)
(*                                                                          *)
(* Verdicts on a value: "ok" (with the parsed value), "bad" (must be           *)
(* rejected), "any" (not specified: the documentation is silent).              *)
(***************************************************************************)
EXTENDS Schema, SeqFolds, FiniteSets

Ok(x) == [st |-> "ok", v |-> x]
Bad == [st |-> "bad"]
Unsaid == [st |-> "any"]

FalseTexts == {"False", "false", "no"}
TrueTexts == {"True", "true", "yes"}
MeansFalse(x) == (x.k = "bool" /\ ~x.v) \/ (x.k = "str" /\ x.v \in FalseTexts)

Truncate(x) == IF x < 0 THEN 0 - Floor(0 - x) ELSE Floor(x)

(* text of a value, as it appears when a reference to it is resolved *)
TextOf(x) ==
    CASE x.k = "str" -> x.v
      [] x.k = "bool" -> IF x.v THEN "True" ELSE "False"
      [] x.k \in {"int", "float"} -> NumText(x.v)
      [] OTHER -> "?"

Keyed(x, key) == \E i \in 1 .. Len(x.v) : x.v[i][1].k = "str" /\ x.v[i][1].v = key

InBounds(o, x) == o.min <= x /\ x <= o.max
InRange(o, x, isint) ==
    LET y == IF isint THEN Truncate(x) ELSE x
    IN  IF InBounds(o, y) THEN Ok([k |-> IF isint THEN "int" ELSE "float", v |-> IF isint THEN y ELSE ToReal(y)])
        ELSE Bad

ParseNum(o, x, isint) ==
    CASE x.k \in {"int", "float"} ->
           IF IsNaN(x.v) THEN Bad
           ELSE IF ~IsFin(x.v) THEN (IF isint \/ ~InBounds(o, x.v) THEN Bad ELSE Unsaid)
           ELSE InRange(o, x.v, isint)
      [] x.k = "bool" -> Unsaid                       \* true and false as numbers
      [] x.k = "str" -> IF IsNumText(x.v, IF isint THEN "int" ELSE "float") THEN InRange(o, R(x.v), isint)
                        ELSE Bad
      [] OTHER -> Bad

ParseBool(o, x) ==
    CASE x.k = "bool" -> Ok(x)
      [] x.k = "str" -> IF x.v \in TrueTexts THEN Ok(B(TRUE)) ELSE IF x.v \in FalseTexts THEN Ok(B(FALSE)) ELSE Bad
      [] x.k \in {"int", "float"} ->
           IF IsNaN(x.v) THEN Bad
           ELSE IF x.v >= 1 /\ x.v <= 1 THEN Ok(B(TRUE))
           ELSE IF x.v >= 0 /\ x.v <= 0 THEN Ok(B(FALSE)) ELSE Bad
      [] OTHER -> Bad

SameNum(a, b) == a <= b /\ b <= a
SameChoice(a, b) ==
    \/ a.k = "str" /\ b.k = "str" /\ a.v = b.v
    \/ a.k \in {"int", "float"} /\ b.k \in {"int", "float"} /\ SameNum(a.v, b.v)
ParseEnum(o, x) ==
    IF x.k = "bool" THEN (IF \E i \in 1 .. Len(o.values) : o.values[i].k # "str" THEN Unsaid ELSE Bad)
    ELSE IF \E i \in 1 .. Len(o.values) : SameChoice(o.values[i], x) THEN Ok(x) ELSE Bad

(* the harness marks a text that is a quantity with a unit: q |-> [unit, ok], whether it is compatible with that unit *)
ParseQuantity(o, x) ==
    IF x.k = "str" /\ "q" \in DOMAIN x
    THEN IF x.q.ok THEN (IF x.q.unit = o.unit THEN Ok(S(x.v)) ELSE Bad)
         ELSE IF x.q.unit = o.unit THEN Bad ELSE Unsaid
    ELSE Bad

ParseText(x) ==
    CASE x.k = "str" -> Ok(x)
      [] x.k = "bool" -> Ok(S(TextOf(x)))
      [] x.k = "int" -> Ok(S(TextOf(x)))
      [] OTHER -> Unsaid

AllOf(seq, build(_)) ==       \* sequence of verdicts to a verdict on the sequence
    IF \E i \in 1 .. Len(seq) : seq[i].st = "bad" THEN Bad
    ELSE IF \E i \in 1 .. Len(seq) : seq[i].st = "any" THEN Unsaid
    ELSE Ok(build([ i \in 1 .. Len(seq) |-> seq[i].v ]))

ParseElement(kind, x) ==
    CASE kind = "str" -> ParseText(x)
      [] kind = "dict" -> IF x.k = "none" THEN Ok(Dict(<< >>)) ELSE IF x.k = "dict" THEN Ok(x) ELSE Bad
      [] kind = "str_or_plain_dict" -> IF x.k = "dict" THEN Ok(x) ELSE ParseText(x)

ParseList(o, x) ==
    CASE x.k = "none" -> Ok(List(<< >>))
      [] x.k = "list" -> AllOf([ i \in 1 .. Len(x.v) |-> ParseElement(o.values[1], x.v[i]) ], List)
      [] OTHER -> Bad

ParseDict(o, x) ==
    CASE x.k = "none" -> Ok(Dict(<< >>))
      [] x.k = "dict" ->
           IF o.values = << >> THEN Ok(x)
           ELSE LET ks == [ i \in 1 .. Len(x.v) |-> ParseElement(o.values[1], x.v[i][1]) ]
                    vs == [ i \in 1 .. Len(x.v) |-> ParseElement(o.values[2], x.v[i][2]) ]
                    both == ks \o vs
                    pair(seq) == Dict([ i \in 1 .. Len(x.v) |-> << seq[i], seq[Len(x.v) + i] >> ])
                IN  AllOf(both, pair)
      [] OTHER -> Bad

SourceKeys == << "variable", "unit", "scenario", "model", "file" >>
ParseSource(o, x) ==
    IF x.k = "dict" /\ \A i \in 1 .. 5 : Keyed(x, SourceKeys[i]) THEN Ok(x) ELSE Bad

Parse(o, x) ==
    IF o.canfalse /\ MeansFalse(x) THEN Ok(B(FALSE))
    ELSE CASE o.type = "int" -> ParseNum(o, x, TRUE)
           [] o.type = "float" -> ParseNum(o, x, FALSE)
           [] o.type = "bool" -> ParseBool(o, x)
           [] o.type = "enum" -> ParseEnum(o, x)
           [] o.type = "quantity" -> ParseQuantity(o, x)
           [] o.type = "list" -> ParseList(o, x)
           [] o.type = "dict" -> ParseDict(o, x)
           [] o.type = "datasource" -> ParseSource(o, x)

DefaultOf(o) ==
    CASE o.type = "quantity" -> Ok(o.default)
      [] OTHER -> Parse(o, o.default)
Defaults == Force([ p \in Paths |-> DefaultOf(OptionOf(p)).v ])

----------------------------------------------------------------------------
(* Laying the user's settings over the defaults *)

(* user: sequence of [path |-> "a - b - c", val, known |-> whether it names an option] *)
Verdicts(user) == [ i \in 1 .. Len(user) |->
                      IF user[i].path \in Paths THEN Parse(OptionOf(user[i].path), user[i].val) ELSE Bad ]

Overlay(user) ==
    Fold(LAMBDA acc, i : [acc EXCEPT ![user[i].path] = Verdicts(user)[i].v], Defaults,
         [ i \in 1 .. Len(user) |-> i ])

----------------------------------------------------------------------------
(* References.  Names in braces consist of letters, digits, _, - and blanks.  *)

NameChars == { Chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_- ")[i] : i \in 1 .. 65 }

(* pieces of a text: [t |-> "text", s] or [t |-> "ref", s] *)
Pieces(text) ==
    LET step(acc, c) ==
          IF acc.open THEN
            CASE c = "}" /\ acc.name # "" ->
                   [acc EXCEPT !.open = FALSE, !.out = Append(Append(@, [t |-> "text", s |-> acc.lit]), [t |-> "ref", s |-> acc.name]),
                               !.lit = "", !.name = ""]
              [] c = "{" -> [acc EXCEPT !.lit = @ \o "{" \o acc.name, !.name = ""]
              [] c \in NameChars -> [acc EXCEPT !.name = @ \o c]
              [] OTHER -> [acc EXCEPT !.open = FALSE, !.lit = @ \o "{" \o acc.name \o c, !.name = ""]
          ELSE IF c = "{" THEN [acc EXCEPT !.open = TRUE] ELSE [acc EXCEPT !.lit = @ \o c]
        end == Fold(step, [open |-> FALSE, lit |-> "", name |-> "", out |-> << >>], Chars(text))
    IN  Append(end.out, [t |-> "text", s |-> end.lit \o (IF end.open THEN "{" \o end.name ELSE "")])

Referrable(x) == x.k \in {"str", "bool", "int", "float"}

(* A reference may name an option, or an entry of an option that is a mapping.  *)
(* Such an entry is given in tree as path \o " - " \o key.                       *)
Entries(tree) ==
    [ p \in DOMAIN tree |-> tree[p] ]
    @@ Fold(LAMBDA acc, p :
              IF tree[p].k # "dict" THEN acc
              ELSE acc @@ [ q \in { p \o " - " \o tree[p].v[i][1].v :
                                     i \in { j \in 1 .. Len(tree[p].v) : tree[p].v[j][1].k = "str" } } |->
                             tree[p].v[CHOOSE i \in 1 .. Len(tree[p].v) :
                                        tree[p].v[i][1].k = "str" /\ p \o " - " \o tree[p].v[i][1].v = q][2] ],
            [ p \in {} |-> Nil ], [ i \in 1 .. Len(Options) |-> Options[i].path ])

RECURSIVE ResolveText(_, _, _)
ResolveText(E, text, depth) ==
    Fold(LAMBDA acc, p :
           IF p.t = "text" THEN acc \o p.s
           ELSE IF p.s \in DOMAIN E /\ Referrable(E[p.s]) /\ depth < 5
           THEN acc \o (IF E[p.s].k = "str" THEN ResolveText(E, E[p.s].v, depth + 1) ELSE TextOf(E[p.s]))
           ELSE acc \o "{" \o p.s \o "}",
         "", Pieces(text))

RECURSIVE Resolve(_, _)
Resolve(E, x) ==
    CASE x.k = "str" -> S(ResolveText(E, x.v, 0))
      [] x.k = "list" -> List([ i \in 1 .. Len(x.v) |-> Resolve(E, x.v[i]) ])
      [] x.k = "dict" -> Dict([ i \in 1 .. Len(x.v) |-> << x.v[i][1], Resolve(E, x.v[i][2]) >> ])
      [] OTHER -> x

(* The meaning of the user's settings *)
Meaning0(user) ==
    LET vs == Verdicts(user)
    IN  IF \E i \in 1 .. Len(vs) : vs[i].st = "bad" THEN [st |-> "bad"]
        ELSE IF \E i \in 1 .. Len(vs) : vs[i].st = "any" THEN [st |-> "any"]
        ELSE LET tree == Force(Overlay(user))
                 E == Force(Entries(tree))
             IN  [st |-> "ok", tree |-> [ p \in Paths |-> Resolve(E, tree[p]) ]]

----------------------------------------------------------------------------
(* Equality of tagged values; mappings are equal up to order *)
RECURSIVE SameVal(_, _)
SameVal(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "none" -> TRUE
         [] a.k \in {"int", "float"} -> (IsNaN(a.v) /\ IsNaN(b.v)) \/ SameNum(a.v, b.v)
         [] a.k \in {"str", "bool"} -> a.v = b.v
         [] a.k = "list" -> Len(a.v) = Len(b.v) /\ \A i \in 1 .. Len(a.v) : SameVal(a.v[i], b.v[i])
         [] a.k = "dict" -> /\ Len(a.v) = Len(b.v)
                            /\ \A i \in 1 .. Len(a.v) :
                                  \E j \in 1 .. Len(b.v) : SameVal(a.v[i][1], b.v[j][1]) /\ SameVal(a.v[i][2], b.v[j][2])
         [] OTHER -> FALSE
=============================================================================
