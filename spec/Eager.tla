------------------------------- MODULE Eager -------------------------------
(***************************************************************************)
(* The identity.  TLC evaluates function constructors lazily, and again at *)
(* every application; java/Eager.java overrides E with "evaluate completely*)
(* now", which changes nothing but the running time.                       *)
(***************************************************************************)
E(x) == x
=============================================================================
