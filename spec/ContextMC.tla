----------------------------- MODULE ContextMC -----------------------------
(* Reading of options step by step: arguments one by one (in any order, repeated), then the commands file, then defaults.
   Rule: how an option is found to be missing
     none: it was not given    falsy: it is zero or empty as well    default: it is the default value as well *)
EXTENDS Context, TLC
CONSTANTS Options, Values, MaxArgs, Rule, Alphabet, MaxText
VARIABLES args, json, i, got, done
vars == <<args, json, i, got, done>>
Default(o) == "1"
Pairs == [o : Options, v : Values]
Init == /\ args \in UNION {[1 .. n -> Pairs] : n \in 0 .. MaxArgs}
        /\ json \in [Options -> Values \cup {NONE}]
        /\ i = 0 /\ got = [o \in Options |-> NONE] /\ done = {}
Missing(o, v) == CASE Rule = "none" -> v = NONE
                   [] Rule = "falsy" -> v \in {NONE, "0"}
                   [] Rule = "default" -> v \in {NONE, Default(o)}
Parse == i < Len(args) /\ i' = i + 1 /\ got' = [got EXCEPT ![args[i + 1].o] = args[i + 1].v] /\ UNCHANGED <<args, json, done>>
Merge == /\ i = Len(args)
         /\ \E o \in Options \ done :
              /\ done' = done \cup {o}
              /\ got' = [got EXCEPT ![o] = IF ~Missing(o, @) THEN @ ELSE IF json[o] = NONE \/ (Rule = "falsy" /\ json[o] = "0") THEN Default(o) ELSE json[o]]
         /\ UNCHANGED <<args, json, i>>
Spec == Init /\ [][Parse \/ Merge]_vars
RECURSIVE AsSeq(_, _)
AsSeq(f, S) == IF S = {} THEN << >> ELSE LET o == CHOOSE o \in S : TRUE IN <<[o |-> o, v |-> f[o]]>> \o AsSeq(f, S \ {o})
Defaults == AsSeq([o \in Options |-> Default(o)], Options)
Inv == \A o \in done : got[o] = Effective(args, AsSeq(json, Options), Defaults, o)
(* options are independent: the value of one depends only on its own *)
Own(o) == SelectSeq(args, LAMBDA a : a.o = o)
Independent == \A o \in done : got[o] = Effective(Own(o), <<[o |-> o, v |-> json[o]]>>, <<[o |-> o, v |-> Default(o)]>>, o)
(* order of arguments of different options does not matter *)
Swapped(q, k) == [q EXCEPT ![k] = q[k + 1], ![k + 1] = q[k]]
AnyOrder == \A k \in 1 .. Len(args) - 1 : args[k].o # args[k + 1].o =>
               \A o \in Options : Given(args, o) = Given(Swapped(args, k), o)

(* texts *)
Texts == UNION {[1 .. n -> Alphabet] : n \in 0 .. MaxText}
V == <<"V">>
ASSUME \A t \in Texts :
    LET line == <<"V", " ", "=">> \o t
        vs == Vars(<< <<"#", "V", "=", "x">>, line, << >>, <<"n">> >>)
    IN /\ Len(vs) = 1 /\ vs[1].n = V
       \* values keep all their characters, apart from surrounding blanks and quotes
       /\ \E a, b \in 0 .. Len(t) : a + b <= Len(t) /\ vs[1].v = SubSeq(t, a + 1, Len(t) - b)
                                    /\ \A k \in (1 .. a) \cup (Len(t) - b + 1 .. Len(t)) : t[k] \in {" ", "\t", "\""}
       \* paths with variables: nothing else changes, the last definition is used
       /\ Expand(<<"{", "V", "}", "/", "a">>, vs) = vs[1].v \o <<"/", "a">>
       /\ Expand(<<"a", "{", "V", "}", "{", "V", "}">>, vs) = <<"a">> \o vs[1].v \o vs[1].v
       /\ Expand(<<"{", "V", "}">>, vs \o <<[n |-> V, v |-> <<"z">>]>>) = <<"z">>
       /\ (~\E k \in 1 .. Len(t) : t[k] = "{") => Expand(t, vs) = t
       /\ Expand(<<"{", "U", "}">>, vs) = UNDEFINED
Def(sn, u) == [sn |-> sn, unit |-> u, convs |-> <<[id |-> "k", unit |-> "c" \o u, k |-> 7]>>]
ASSUME \A user, global \in {<< >>, <<Def("a", "u")>>, <<Def("b", "v"), Def("a", "w")>>} : \A sn \in {"a", "b"}, id \in {NONE, "k", "other"} :
    LET c == Converted(user, global, sn, id) d == Defined(user, sn)
    IN /\ c.ok = ((\E q \in {user, global} : \E j \in 1 .. Len(q) : q[j].sn = sn) /\ id # "other")
       /\ (d # NODEF /\ id = NONE) => c.unit = d.unit
============================================================================
