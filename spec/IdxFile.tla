------------------------------ MODULE IdxFile ------------------------------
(***************************************************************************)
(* Reading image and label files in batches.  The state is the number of   *)
(* records delivered so far and the position counter of the caller.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Header == 8                          \* bytes before the first label
Records(images, labels) == IF images < labels THEN images ELSE labels
Min(a, b) == IF a < b THEN a ELSE b

(* records delivered by a batch of n when k of m records are delivered *)
Batch(k, m, n) == Min(n, m - k)
Counter(k) == Header + k

(* contents of record n (from 0): pixels in row order, label one-hot *)
Pixel(f, n, k) == (f.a * n + f.b * k + f.c) % 256
Label(f, n) == (f.d * n + f.e) % 10
=============================================================================
