------------------------------ MODULE LaserMsg ------------------------------
(* From a laser scan message to a scan. Readings in 1/64 m; a reading may also be no number, or
   infinite either way. Reading i (from 0) looks in the direction lo + i * inc. *)
EXTENDS Integers, Sequences
Nan == 2000000001
Inf == 2000000002
\* what one reading says: nothing, an obstacle at its range, or free space up to the scanner's limit
Point(v, i, rmin, rmax, skip) ==
  IF v = Nan \/ v < rmin THEN <<>>
  ELSE IF v >= rmax THEN (IF skip THEN <<>> ELSE <<<<rmax, i, 0>>>>)
  ELSE <<<<v, i, 1>>>>
RECURSIVE From(_, _, _, _, _)
From(rays, k, rmin, rmax, skip) ==
  IF k > Len(rays) THEN <<>> ELSE Point(rays[k], k - 1, rmin, rmax, skip) \o From(rays, k + 1, rmin, rmax, skip)
Points(rays, rmin, rmax, skip) == From(rays, 1, rmin, rmax, skip)
=============================================================================
