------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* The Go (and Rust) names of what a schema declares.  A name is a sequence *)
(* of character codes; the name of a type is made from its full name, with  *)
(* the package and the types around it, separated by dots.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

DOT == 46  USCORE == 95
Upper(c)  == c \in 65..90
Lower(c)  == c \in 97..122
Digit(c)  == c \in 48..57
Letter(c) == Upper(c) \/ Lower(c)
IdStart(c) == Letter(c) \/ c = USCORE
IdChar(c)  == IdStart(c) \/ Digit(c)
ProtoName(s) == s # <<>> /\ IdStart(s[1]) /\ \A i \in DOMAIN s : IdChar(s[i])
Exported(s)  == s # <<>> /\ Upper(s[1]) /\ \A i \in DOMAIN s : IdChar(s[i])

\* Dots go, and so does an underscore at the start or before a lower case letter
Stays(s, i) == /\ s[i] # DOT
               /\ s[i] = USCORE => i > 1 /\ ~(i < Len(s) /\ Lower(s[i + 1]))
\* a letter that does not follow another one is upper case
Cased(s, i) == IF Lower(s[i]) /\ (i = 1 \/ ~Letter(s[i - 1])) THEN s[i] - 32 ELSE s[i]
Joined(s) == LET at == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : Stays(s, i))
             IN [j \in DOMAIN at |-> Cased(s, at[j])]
\* what would not start with a letter starts with X
GoName(s) == LET j == Joined(s) IN IF j # <<>> /\ Upper(j[1]) THEN j ELSE <<88>> \o j

\* fields must not be called like the methods a message has
Methods == { <<69, 110, 99, 111, 100, 101>>, <<68, 101, 99, 111, 100, 101>>, <<69, 114, 114, 111, 114>> }
FieldName(s) == IF GoName(s) \in Methods THEN GoName(s) \o <<USCORE>> ELSE GoName(s)

\* a package is called by the last part of its name, unless Go forbids that
Keywords == { <<98, 114, 101, 97, 107>>, <<99, 97, 115, 101>>,
              <<99, 104, 97, 110>>, <<99, 111, 110, 115, 116>>,
              <<99, 111, 110, 116, 105, 110, 117, 101>>, <<100, 101, 102, 97, 117, 108, 116>>,
              <<100, 101, 102, 101, 114>>, <<101, 108, 115, 101>>,
              <<102, 97, 108, 108, 116, 104, 114, 111, 117, 103, 104>>, <<102, 111, 114>>,
              <<102, 117, 110, 99>>, <<103, 111>>,
              <<103, 111, 116, 111>>, <<105, 102>>,
              <<105, 109, 112, 111, 114, 116>>, <<105, 110, 116, 101, 114, 102, 97, 99, 101>>,
              <<109, 97, 112>>, <<112, 97, 99, 107, 97, 103, 101>>,
              <<114, 97, 110, 103, 101>>, <<114, 101, 116, 117, 114, 110>>,
              <<115, 101, 108, 101, 99, 116>>, <<115, 116, 114, 117, 99, 116>>,
              <<115, 119, 105, 116, 99, 104>>, <<116, 121, 112, 101>>,
              <<118, 97, 114>> }
Dots(s) == {i \in DOMAIN s : s[i] = DOT}
LastPart(s) == IF Dots(s) = {} THEN s ELSE SubSeq(s, 1 + (CHOOSE i \in Dots(s) : \A j \in Dots(s) : j <= i), Len(s))
GoPackage(s) == ProtoName(s) /\ s \notin Keywords /\ s # <<USCORE>>
PackageOf(s, x) == GoPackage(x) /\ (GoPackage(LastPart(s)) => x = LastPart(s))

\* names of fields in Rust: an underscore where upper case letters begin
RECURSIVE Snake(_, _)
Snake(s, i) == IF i > Len(s) THEN <<>>
               ELSE (IF Upper(s[i]) THEN (IF i > 1 /\ ~Upper(s[i - 1]) THEN <<USCORE>> ELSE <<>>) \o <<s[i] + 32>> ELSE <<s[i]>>) \o Snake(s, i + 1)
RustField(s) == Snake(s, 1)
=============================================================================
