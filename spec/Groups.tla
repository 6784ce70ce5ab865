------------------------------- MODULE Groups -------------------------------
(***************************************************************************)
(* Groups mode as seen by its callers.  Which executor runs the tasks, and *)
(* in which order, is no input of the result:                               *)
(*   gk.enc  <<image, ac, dc>> |-> the stream it is encoded to              *)
(*   gk.img  <<stream, ac, dc>> |-> the image it was made of                *)
(*   gk.dec  <<stream, ac, dc>> |-> what decoding it gave                   *)
(* and a task that fails makes the whole call fail.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
EmptyG == [enc |-> <<>>, img |-> <<>>, dec |-> <<>>, file |-> <<>>]
GHas(f, x) == x \in DOMAIN f
GPut(f, x, v) == (x :> v) @@ f
Pow(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512}
(* dims: powers of two, ac divides dc, and ac a multiple of the sampling     *)
DimsOk(ac, dc, mh, mv) == Pow(ac) /\ Pow(dc) /\ dc >= ac /\ ac % mh = 0 /\ ac % mv = 0
GEncOk(k, F, e) ==
  LET key == <<e.dig, e.ac, e.dc>> IN
  /\ e.same /\ e.fits
  /\ e.expect = "fail" => ~e.ok
  /\ e.expect = "ok" => e.ok
  /\ (e.expect = "ok" /\ e.ok /\ GHas(k.enc, key)) => k.enc[key] = e.out
  /\ e.ok /\ GHas(k.img, <<e.out, e.ac, e.dc>>) => k.img[<<e.out, e.ac, e.dc>>] = e.dig
GEncUpd(k, e) == IF e.ok THEN [k EXCEPT !.enc = GPut(@, <<e.dig, e.ac, e.dc>>, e.out), !.img = GPut(@, <<e.out, e.ac, e.dc>>, e.dig)] ELSE k
GDecOk(k, e) ==
  LET key == <<e["in"], e.ac, e.dc>> IN
  /\ GHas(k.img, key) => e.ok /\ e.dig = k.img[key] /\ (GHas(k.file, e.dig) => e.out = k.file[e.dig])
  /\ e.expect = "fail" => ~e.ok
  /\ GHas(k.dec, key) => k.dec[key] = <<e.ok, e.dig, e.out>>
GDecUpd(k, e) == [k EXCEPT !.dec = GPut(@, <<e["in"], e.ac, e.dc>>, <<e.ok, e.dig, e.out>>)]
=============================================================================
