------------------------------ MODULE CtfGen ------------------------------
(* Events as babeltrace may print them. *)
EXTENDS CtfText, TLC, Json
CONSTANT MaxLen
VARIABLES script, cur, done
vars == <<script, cur, done>>
R(s) == RandomElement(s)
Strs == {"\"\"", "\"a\"", "\"12\"", "\"1, id = 5\"", "\"x }, { id = 7 }\"", "\" = \"", "\"{\"", "\"}\"", "\"\\\"\"", "\"a\\\\\"", "\"a\\\"}, { vpid = 3\\\"\"", "\"[12] a b:c: \"", "\"~~ ~\"", "\"'\"", "\", \"", "\"] \"",
         "\"\\n\"", "\"\\\\\\\"\"", "\"k = 1\""}
Ints == {"0", "1", "7", "42", "2147483647", "2147483648", "4294967295", "4294967296", "14897", "139688084124608", "9223372036854775807", "9223372036854775808", "18446744073709551615"}
Negs == {"-1", "-2", "-2147483648", "-2147483649", "-9223372036854775807", "-9223372036854775808"}
Others == {"0.5", "1.25", "12.0", "-3.5", "1e+20", "5e-324", "inf", "-nan", "0x1F", "0xFFFFFFFFFFFFFFFF", "3000000000.25", "-1.0"}
Ids == {"a", "b", "id", "vpid", "pthread_id", "cpu_id", "value", "v", "_x", "aVeryLongNameOfAFieldThatGoesOnAndOn", "Id", "vpid_", "k1", "k2", "len"}
Times == {"0", "0.0", "1", "1.5", "0.000000001", "1544361620.739021131", "1544361620.000000000", "1544361620.999999999", "4102444800.123456789", "18446744073.709551615", "0000000012.000000500", "1700000000.000000001"}
Hosts == {"eagle", "h", "host-1.example.org", "(none)", "~~", "[x]", "10.0.0.1", "a:b"}
Doms == {"scalopus_scope_id", "d", "scalopus_counter", "Scalopus"}
Names == {"entry", "exit", "n", "mark", "a:b", "begin_x", "~", "e"}
Start == \E t \in {R(Times)}, h \in {R(Hosts)}, d \in {R(Doms)}, n \in {R(Names)}, s \in {R({2, 3, 3, 3, 4, 5, 9})} :
           cur' = [ts |-> t, host |-> h, dom |-> d, name |-> n, c |-> <<<<>>, <<>>, <<>>>>, size |-> s]
Used(i) == {cur.c[i][j].k : j \in DOMAIN cur.c[i]}
Size == Len(cur.c[1]) + Len(cur.c[2]) + Len(cur.c[3])
Init == script = <<>> /\ cur = [size |-> 0] /\ done = FALSE
Field == \E i \in {R({1, 2, 2, 3, 3})} : \E k \in {R(Ids \ Used(i))}, w \in {R(1..100)} :
           \E v \in {IF w <= 55 THEN R(Ints) ELSE IF w <= 68 THEN R(Negs) ELSE IF w <= 80 THEN R(Others) ELSE R(Strs)} :
           cur' = [cur EXCEPT !.c[i] = Append(@, [k |-> k, v |-> v, i |-> IF w <= 55 THEN "u" ELSE IF w <= 68 THEN "n" ELSE "x"])]
Next == ~done /\ IF Len(script) >= MaxLen THEN done' = TRUE /\ UNCHANGED <<script, cur>>
        ELSE IF cur.size = 0 THEN Start /\ UNCHANGED <<script, done>>
        ELSE IF Size < cur.size THEN Field /\ UNCHANGED <<script, done>>
        ELSE script' = Append(script, [a |-> cur, line |-> Render(cur)]) /\ cur' = [size |-> 0] /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(script))
=============================================================================
