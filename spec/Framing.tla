------------------------------ MODULE Framing ------------------------------
(***************************************************************************)
(* Messages on a byte stream: several threads write length prefixed        *)
(* messages to one socket, the kernel takes and hands out the bytes in     *)
(* arbitrary pieces, signals interrupt calls, and the sender can die after *)
(* any byte. The receiver has to reconstruct exactly the messages. A byte  *)
(* is a small number, so that payloads can look like headers.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
  Writers, MsgsOf,  \* writer -> sequence of messages [id, name, data]; name and data are sequences of bytes
  Window,           \* capacity of the kernel's buffer
  CanDie,
  Locked,           \* a message is written under a lock
  LoopSend, LoopRecv,\* short transfers are continued
  EofFails          \* the end of the stream inside of a message discards it

VARIABLES out,      \* writer -> bytes of the current message that are left to write
          nxt,      \* writer -> index of the next message
          lock,     \* writer that holds the lock, 0 if none
          stream,   \* bytes in the kernel
          open,     \* the sender is alive
          order,    \* messages in the order their writing began, completed or not: [w, i]
          complete, \* set of completely written messages
          fld, buf, cur, \* receiver: field being read, bytes of it so far, fields read so far
          got,      \* messages delivered
          rst       \* receiver: "run", "closed"
vars == <<out, nxt, lock, stream, open, order, complete, fld, buf, cur, got, rst>>

Encode(m) == <<m.id, Len(m.name)>> \o m.name \o <<Len(m.data)>> \o m.data
None == [id |-> 0, nlen |-> 0, name |-> <<>>, dlen |-> 0]
Init == /\ out = [w \in Writers |-> <<>>] /\ nxt = [w \in Writers |-> 1] /\ lock = 0 /\ stream = <<>> /\ open = TRUE
        /\ order = <<>> /\ complete = {} /\ fld = "id" /\ buf = <<>> /\ cur = None /\ got = <<>> /\ rst = "run"

recv == <<fld, buf, cur, got, rst>>
Start(w) ==
  /\ open /\ out[w] = <<>> /\ nxt[w] <= Len(MsgsOf[w]) /\ (Locked => lock = 0)
  /\ \A k \in DOMAIN order : order[k].w = w => [w |-> w, i |-> order[k].i] \in complete
  /\ lock' = w /\ out' = [out EXCEPT ![w] = Encode(MsgsOf[w][nxt[w]])]
  /\ order' = Append(order, [w |-> w, i |-> nxt[w]]) /\ nxt' = [nxt EXCEPT ![w] = @ + 1]
  /\ UNCHANGED <<stream, open, complete>> /\ UNCHANGED recv
\* one call of send: some of the bytes fit
Put(w) == \E n \in 1..Len(out[w]) :
  /\ open /\ Len(stream) + n <= Window
  /\ stream' = stream \o SubSeq(out[w], 1, n)
  /\ LET rest == IF LoopSend THEN SubSeq(out[w], n + 1, Len(out[w])) ELSE <<>> IN
     /\ out' = [out EXCEPT ![w] = rest]
     /\ IF rest = <<>> THEN /\ lock' = 0 /\ complete' = complete \cup {[w |-> w, i |-> nxt[w] - 1]}
        ELSE UNCHANGED <<lock, complete>>
  /\ UNCHANGED <<nxt, open, order>> /\ UNCHANGED recv
Die == CanDie /\ open /\ open' = FALSE /\ UNCHANGED <<out, nxt, lock, stream, order, complete>> /\ UNCHANGED recv

Want == CASE fld \in {"id", "nlen", "dlen"} -> 1 [] fld = "name" -> cur.nlen [] fld = "data" -> cur.dlen
\* the bytes b are taken for the current field
Field(b) ==
  CASE fld = "id"   -> cur' = [None EXCEPT !.id = b[1]] /\ fld' = "nlen" /\ got' = got
    [] fld = "nlen" -> cur' = [cur EXCEPT !.nlen = b[1]] /\ fld' = "name" /\ got' = got
    [] fld = "name" -> cur' = [cur EXCEPT !.name = b] /\ fld' = "dlen" /\ got' = got
    [] fld = "dlen" -> cur' = [cur EXCEPT !.dlen = b[1]] /\ fld' = "data" /\ got' = got
    [] fld = "data" -> cur' = None /\ fld' = "id" /\ got' = Append(got, [id |-> cur.id, name |-> cur.name, data |-> b])
Pad(b) == b \o [k \in 1..(Want - Len(b)) |-> 0]
Take ==
  /\ rst = "run"
  /\ IF Want = Len(buf) THEN Field(buf) /\ buf' = <<>> /\ UNCHANGED stream
     ELSE /\ stream # <<>>
          /\ \E n \in 1..Want : /\ n <= Len(stream) /\ n <= Want - Len(buf)
                                /\ stream' = SubSeq(stream, n + 1, Len(stream))
                                /\ LET b == buf \o SubSeq(stream, 1, n) IN
                                   IF LoopRecv THEN buf' = b /\ UNCHANGED <<fld, cur, got>>
                                   ELSE buf' = <<>> /\ Field(Pad(b))
  /\ UNCHANGED <<out, nxt, lock, open, order, complete, rst>>
Eof ==
  /\ rst = "run" /\ ~open /\ stream = <<>> /\ Want # Len(buf)
  /\ rst' = "closed"
  /\ IF EofFails \/ fld # "data" THEN UNCHANGED <<fld, buf, cur, got>> ELSE Field(Pad(buf)) /\ buf' = <<>>
  /\ UNCHANGED <<out, nxt, lock, stream, open, order, complete>>

Next == (\E w \in Writers : Start(w) \/ Put(w)) \/ Die \/ Take \/ Eof
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
MsgOf(o) == MsgsOf[o.w][o.i]
\* What was delivered are the messages in the order their writing began, whole and unchanged, and only complete ones.
Exact == /\ Len(got) <= Len(order)
         /\ \A k \in DOMAIN got : got[k] = MsgOf(order[k]) /\ order[k] \in complete
Arrived == ~ENABLED Next => Len(got) = Cardinality(complete)
=============================================================================
