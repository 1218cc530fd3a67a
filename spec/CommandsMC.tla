----------------------------- MODULE CommandsMC -----------------------------
(* A command keeps a mapping from options (as spelled) to values, is rendered as text in order of option, and the text is given to
   the parser of arguments. Properties: rendering and reading again a command changes nothing, and its effect is the one of its arguments.
   Rule: how words of a text are found to be options
     known: (options have a letter after dashes)   dash: (any word beginning with a dash: wrong for negative numbers) *)
EXTENDS Commands, Context
CONSTANTS Rule, MaxWords, MaxEdits, Spellings
Opts == IF Spellings THEN {"-s", "--start", "-O"} ELSE {"-s", "-O", "-B"}
Order == <<"--start", "-B", "-O", "-s">>
Vals == {"1", "-5"}
Methods == {"tstart", "offset", "create_intertable"}
Short == [tstart |-> "-s", offset |-> "-O", create_intertable |-> "-B"]
VARIABLES words, edits, d, phase
vars == <<words, edits, d, phase>>
Value(o) == IF o \in Flags THEN {""} ELSE Vals
Init == words = << >> /\ edits = << >> /\ d = << >> /\ phase = "text"
(* the mapping is a sequence of pairs with different options, the value replaced when an option is already there *)
Put(m, o, v) == IF \E k \in 1 .. Len(m) : m[k].o = o
                THEN [k \in 1 .. Len(m) |-> IF m[k].o = o THEN [o |-> o, v |-> v] ELSE m[k]]
                ELSE Append(m, [o |-> o, v |-> v])
IsOption(w) == CASE Rule = "known" -> w \in Opts \cup {"-B"}
                 [] Rule = "dash" -> w \in Opts \cup {"-B", "-5"}
RECURSIVE ToDict(_, _)
ToDict(w, m) ==
    IF w = << >> THEN m
    ELSE IF Len(w) = 1 \/ IsOption(w[2]) THEN ToDict(Tail(w), Put(m, w[1], ""))
    ELSE ToDict(SubSeq(w, 3, Len(w)), Put(m, w[1], w[2]))
RECURSIVE Render(_, _)
Render(m, ord) == IF ord = << >> THEN << >>
                  ELSE LET q == SelectSeq(m, LAMBDA p : p.o = Head(ord))
                       IN (IF q = << >> THEN << >> ELSE IF q[1].v = "" THEN <<q[1].o>> ELSE <<q[1].o, q[1].v>>) \o Render(m, Tail(ord))
Write == /\ phase = "text" /\ Len(words) < MaxWords
         /\ \E o \in Opts : \E v \in Value(o) : words' = words \o (IF v = "" THEN <<o>> ELSE <<o, v>>)
         /\ UNCHANGED <<edits, d, phase>>
Build == phase = "text" /\ phase' = "built" /\ d' = ToDict(words, << >>) /\ UNCHANGED <<words, edits>>
Edit == /\ phase = "built" /\ Len(edits) < MaxEdits
        /\ \E m \in Methods : \E v \in Value(Short[m]) : edits' = Append(edits, [m |-> m, v |-> v]) /\ d' = Put(d, Short[m], v)
        /\ UNCHANGED <<words, phase>>
Next == Write \/ Build \/ Edit
Spec == Init /\ [][Next]_vars
Meanings == {"start", "offset", "create"}
Effect == phase = "built" => \A o \in Meanings :
              Given(Arguments(Render(d, Order), << >>), o) = Given(Arguments(words, edits), o)
Stable == phase = "built" => Render(ToDict(Render(d, Order), << >>), Order) = Render(d, Order)
=============================================================================
