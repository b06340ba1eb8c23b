------------------------------ MODULE MCNames ------------------------------
(***************************************************************************)
(* All pairs of short names over a few characters: names stay Go           *)
(* identifiers that other packages can use, a Go name stays as it is, and   *)
(* names in the style protobuf recommends do not meet.                      *)
(***************************************************************************)
EXTENDS Names, TLC
CONSTANTS Most,     \* longest name
          Loose     \* also digits within words: then names do meet
VARIABLES s, u
Chars == {97, 98, 66, 49, USCORE}
\* lower_snake_case, digits only at the end of a word
Style(x) == /\ x # <<>> /\ Lower(x[1]) /\ x[Len(x)] # USCORE
            /\ \A i \in DOMAIN x : /\ Lower(x[i]) \/ Digit(x[i]) \/ x[i] = USCORE
                                   /\ x[i] = USCORE => i < Len(x) /\ Lower(x[i + 1])
                                   /\ (~Loose /\ Digit(x[i]) /\ i < Len(x)) => ~Lower(x[i + 1]) 
                                   /\ (~Loose /\ x[i] = USCORE) => Letter(x[i - 1])
All == UNION {[1..n -> Chars] : n \in 1..Most}
Styled == {x \in UNION {[1..n -> {97, 98, 49, USCORE}] : n \in 1..Most} : Style(x)}
NInit == \/ s \in {x \in All : ProtoName(x)} /\ u = <<>>
         \/ s \in Styled /\ u \in Styled
NSpec == NInit /\ [][FALSE]_<<s, u>>
Usable   == Exported(GoName(s)) /\ Exported(FieldName(s)) /\ FieldName(s) \notin Methods
Stable   == GoName(GoName(s)) = GoName(s)
Snakes   == LET r == RustField(s) IN ProtoName(r) /\ RustField(r) = r /\ (\A i \in DOMAIN r : ~Upper(r[i])) /\ ((\A i \in DOMAIN s : ~Upper(s[i])) => r = s)
Scoped   == Exported(GoName(s \o <<DOT>> \o s)) /\ (Lower(s[1]) => GoName(s \o <<DOT>> \o s) = GoName(s) \o GoName(s))
Packages == LET x == s \o <<DOT>> \o s IN LastPart(x) = s /\ (PackageOf(x, s) <=> s # <<USCORE>>)
Distinct == u # <<>> /\ s # u => GoName(s) # GoName(u)
=============================================================================
