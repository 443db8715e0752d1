------------------------------ MODULE CtfLine ------------------------------
(***************************************************************************)
(* The lines babeltrace prints for events, character by character, and the *)
(* way they are taken apart by searching for delimiters. A line is         *)
(*   [time] host domain:name: { k = v, .. }, { k = v, .. }, { k = v, .. }  *)
(* Checked for every line with few fields: the whole line yields exactly   *)
(* its parts, a line cut anywhere yields nothing else than the whole one,  *)
(* and a line with any one character replaced is never read out of bounds. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Bug, Cuts, Subst, Max1, Max2, Max3
VARIABLES a,      \* the event
          how     \* <<"whole">>, <<"cut", n>>, <<"subst", n, c>>
vars == <<a, how>>
Q == "quote"
\* values: text as printed and whether it is a decimal integer
Values == {<<"1">>, <<"1", "1">>, <<"-", "1">>, <<"1", ".", "1">>, <<Q, "1", Q>>, <<Q, ",", " ", "a", " ", "=", " ", "1", Q>>, <<Q, "}", Q>>}
Digits(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] = "1"
IsInt(s) == Digits(s) \/ (s # <<>> /\ s[1] = "-" /\ Digits(Tail(s)))
Keys == <<"a", "b">>
Fields(n) == UNION {[1..m -> Values] : m \in 0..n}      \* the key of the i-th field is Keys[i]
RECURSIVE Join(_, _)
Join(f, i) == IF i > Len(f) THEN <<>> ELSE (IF i > 1 THEN <<",", " ">> ELSE <<>>) \o <<Keys[i], " ", "=", " ">> \o f[i] \o Join(f, i + 1)
Braces(f) == IF f = <<>> THEN <<"{", " ", "}">> ELSE <<"{", " ">> \o Join(f, 1) \o <<" ", "}">>
Render(e) == <<"[">> \o e.ts \o <<"]", " ", "h", " ", "d", ":">> \o e.name \o <<":", " ">> \o Braces(e.c[1]) \o <<",", " ">> \o Braces(e.c[2]) \o <<",", " ">> \o Braces(e.c[3])
Ints(f) == {<<<<Keys[i]>>, f[i]>> : i \in {j \in DOMAIN f : IsInt(f[j])}}
Whole(e) == [ts |-> e.ts, dom |-> <<"d">>, name |-> e.name, c |-> <<Ints(e.c[1]), Ints(e.c[2]), Ints(e.c[3])>>, safe |-> TRUE]

\* -- taking it apart
None == 0
RECURSIVE Find(_, _, _, _)   \* position of the text w in s at or after p, None if there is none; not in quotes if q
Find(s, w, p, q) ==
  IF p + Len(w) - 1 > Len(s) THEN None
  ELSE IF q /\ s[p] = Q THEN LET e == Find(s, <<Q>>, p + 1, FALSE) IN IF e = None THEN None ELSE Find(s, w, e + 1, q)
  ELSE IF SubSeq(s, p, p + Len(w) - 1) = w THEN p ELSE Find(s, w, p + 1, q)
Mid(s, from, to) == IF from > to THEN <<>> ELSE SubSeq(s, from, to)
Quoted == Bug # "unquoted"
RECURSIVE Pairs(_)
Pairs(s) == IF s = <<>> THEN {}
            ELSE LET e == Find(s, <<",", " ">>, 1, Quoted)
                     kv == IF e = None THEN s ELSE SubSeq(s, 1, e - 1)
                     rest == IF e = None THEN <<>> ELSE Mid(s, e + 2, Len(s))
                     sp == Find(kv, <<" ", "=", " ">>, 1, FALSE)
                     v == IF sp = None THEN <<>> ELSE Mid(kv, sp + 3, Len(kv))
                     n == IF Bug = "prefix" /\ v # <<>> /\ v[1] = "1" THEN <<"1">> ELSE v IN
                 IF Bug = "short" /\ Len(kv) <= 5 THEN {} ELSE
                 (IF sp # None /\ sp > 1 /\ IsInt(n) THEN {<<SubSeq(kv, 1, sp - 1), n>>} ELSE {}) \cup Pairs(rest)
\* the three contexts from position p: all or nothing
RECURSIVE Contexts(_, _, _)
Contexts(s, p, n) ==
  IF n = 0 THEN [ok |-> TRUE, c |-> <<>>, safe |-> TRUE]
  ELSE LET o == Find(s, <<"{">>, p, FALSE)
           c == IF o = None THEN None ELSE Find(s, <<"}">>, o + 1, Quoted) IN
       IF o = None \/ c = None THEN [ok |-> FALSE, c |-> <<>>, safe |-> Bug # "nocheck"]
       ELSE LET r == Contexts(s, c, n - 1) IN
            [r EXCEPT !.c = <<(Pairs(Mid(s, o + 2, c - 2)))>> \o @]
Parse(s) ==
  LET nothing == [ts |-> <<>>, dom |-> <<>>, name |-> <<>>, c |-> <<{}, {}, {}>>, safe |-> TRUE]
      b == Find(s, <<"[">>, 1, FALSE)
      e == IF b = None THEN None ELSE Find(s, <<"]">>, b, FALSE)
      ts == Mid(s, b + 1, e - 1)
      h == Find(s, <<" ">>, e, FALSE)
      h2 == IF h = None THEN None ELSE Find(s, <<" ">>, h + 1, FALSE)
      t == IF h2 = None THEN None ELSE Find(s, <<" ">>, h2 + 1, FALSE)
      tp == Mid(s, h2 + 1, t - 2)
      colon == Find(tp, <<":">>, 1, FALSE)
      cs == Contexts(s, t, 3) IN
  IF b = None \/ e = None THEN [nothing EXCEPT !.safe = (Bug # "nocheck" \/ b # None)]
  ELSE IF ~Digits(ts) THEN nothing
  ELSE IF t = None \/ colon = None THEN [nothing EXCEPT !.ts = ts]
  ELSE [ts |-> ts, dom |-> Mid(tp, 1, colon - 1), name |-> Mid(tp, colon + 1, Len(tp)),
        c |-> IF cs.ok THEN cs.c ELSE <<{}, {}, {}>>, safe |-> cs.safe]

Init == /\ a \in [ts : {<<"1">>, <<"1", "1">>}, name : {<<"n">>, <<"n", ":">>}, c : Fields(Max1) \X Fields(Max2) \X Fields(Max3)]
        /\ how = <<"start">>
Chars == {"[", "]", " ", ":", "{", "}", ",", "=", Q, "1", "a", "-"}
Next == /\ how = <<"start">> /\ UNCHANGED a
        /\ \/ how' = <<"whole">>
           \/ Cuts /\ \E n \in 0..(Len(Render(a)) - 1) : how' = <<"cut", n>>
           \/ Subst /\ \E n \in 1..Len(Render(a)), c \in Chars : how' = <<"subst", n, c>>
Spec == Init /\ [][Next]_vars
Text == CASE how[1] = "cut" -> SubSeq(Render(a), 1, how[2])
          [] how[1] = "subst" -> [Render(a) EXCEPT ![how[2]] = how[3]]
          [] OTHER -> Render(a)
Exact == how = <<"whole">> => Parse(Text) = Whole(a)
Part(x, y) == x = <<>> \/ x = y
NoMore == how[1] = "cut" => LET p == Parse(Text)  w == Whole(a) IN
            Part(p.ts, w.ts) /\ Part(p.dom, w.dom) /\ Part(p.name, w.name) /\ \A i \in 1..3 : p.c[i] = {} \/ p.c[i] = w.c[i]
Safe == Parse(Text).safe
=============================================================================
