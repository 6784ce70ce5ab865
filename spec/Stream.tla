------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The incremental decoder's call contract.                                 *)
(*                                                                         *)
(* A run is: a stream of N bytes whose one-shot result is either a file of  *)
(* L bytes (good = TRUE) or a rejection (good = FALSE).  One call offers    *)
(* ain input bytes and aout bytes of output room; the decoder answers with  *)
(* used, made and a status.  CallOk is the contract for a single call and   *)
(* is the predicate that StreamTrace applies to every recorded call of the  *)
(* real decoder.  Here it is composed with a client, and TLC checks that    *)
(* the contract is strong enough for what users rely on:                    *)
(*   - whatever pieces the client chooses, it obtains the whole result,     *)
(*     exactly once, and then DONE (Complete, Fair);                        *)
(*   - a stream that one-shot decoding rejects never reaches DONE, unless   *)
(*     what was offered so far is itself complete (Sound).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

NEEDIN == 0
NEEDOUT == 1
ERROR == 2
DONE == 3

(* r: run [N, L, good, whole]; s: state [pos, out, fin] (fin = -1 while running);  *)
(* a: answer [ain, aout, used, made, st].                                   *)
CallOk(r, s, a) ==
  /\ a.used >= 0 /\ a.used <= a.ain
  /\ a.made >= 0 /\ a.made <= a.aout
  /\ a.st \in {NEEDIN, NEEDOUT, ERROR, DONE}
  /\ IF s.fin # -1
     THEN a.st = s.fin /\ a.made = 0 /\ a.used = 0        \* final states are final
     ELSE /\ a.st = NEEDIN => a.used = a.ain               \* asks for input only when it took all
          /\ a.st = NEEDOUT => a.made = a.aout             \* asks for room only when it filled all
          /\ IF r.good
             THEN /\ s.out + a.made <= r.L
                  /\ a.st # ERROR
                  /\ a.st = DONE => s.out + a.made = r.L /\ s.pos + a.used = r.N
                  (* with everything supplied, it never asks for more input *)
                  /\ s.pos + a.used = r.N => a.st # NEEDIN
                  (* with everything supplied and room to spare, it completes *)
                  /\ (s.pos + a.ain = r.N /\ a.aout > r.L - s.out) => a.st = DONE
             (* a rejected stream: done only if what was offered so far is     *)
             (* by itself a complete stream (the rest has not been seen yet)   *)
             ELSE a.st = DONE => r.whole = s.pos + a.ain
          (* progress: input and room both available *)
          /\ (a.ain > 0 /\ a.aout > 0 /\ a.st \in {NEEDIN, NEEDOUT}) => a.used + a.made > 0

After(s, a) == [pos |-> s.pos + a.used, out |-> s.out + a.made,
                fin |-> IF a.st \in {ERROR, DONE} THEN a.st ELSE -1]
Start == [pos |-> 0, out |-> 0, fin |-> -1]

-----------------------------------------------------------------------------
(* Composition with a client that offers arbitrary pieces of what it has    *)
(* left (it re-offers what was not taken) and arbitrary rooms, and obeys    *)
(* the status eventually: offers a new byte after NEEDIN if it has any,     *)
(* and non-empty room after NEEDOUT.                                        *)
CONSTANTS MaxN, MaxL, MaxRoom
VARIABLES run, s, given, last
vars == <<run, s, given, last>>

(* whole: length of a proper prefix that is itself a complete stream, -1 if  *)
(* there is none.  A good stream has none.                                   *)
Runs == {r \in [N : 1..MaxN, L : 0..MaxL, good : BOOLEAN, whole : {-1} \cup 1..MaxN] :
            r.whole # -1 => ~r.good /\ r.whole < r.N}
TypeOK == /\ run \in Runs
          /\ given \in 0..MaxN /\ s.pos \in 0..given
Init == /\ run \in Runs
        /\ s = Start /\ given = 0 /\ last = NEEDIN

Answers(ain, aout) == [ain : {ain}, aout : {aout}, used : 0..ain, made : 0..aout, st : {NEEDIN, NEEDOUT, ERROR, DONE}]
Call(more, room) ==
  /\ given + more <= run.N
  /\ given' = given + more
  /\ \E a \in Answers(given + more - s.pos, room) :
        /\ CallOk(run, s, a)
        /\ s.out + a.made <= MaxL                           \* keeps the model finite
        /\ s' = After(s, a)
        /\ last' = a.st
  /\ UNCHANGED run

Giveup == s.fin # -1 \/ (last = NEEDIN /\ given = run.N)
Step == ~Giveup /\ \E more \in 0..MaxN, room \in 0..MaxRoom : Call(more, room)
(* a helpful call: does what the last status asked for *)
Helpful == ~Giveup /\ Call(IF given < run.N THEN 1 ELSE 0, MaxRoom)
Stop == Giveup /\ UNCHANGED vars
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Helpful) /\ SF_vars(Helpful)

Sound == /\ (last = DONE => run.good \/ given = run.whole)
         /\ (run.good => last # ERROR)
Complete == (last = DONE /\ run.good) => s.out = run.L /\ s.pos = run.N
NotStarved == (run.good /\ Giveup) => last = DONE
(* the decoder can always answer: the contract is realisable *)
Realisable == \A more \in 0..(run.N - given), room \in 0..MaxRoom :
                 Giveup \/ \E a \in Answers(given + more - s.pos, room) : CallOk(run, s, a)
Fair == <>(s.fin # -1 \/ ~run.good)
=============================================================================
