------------------------------- MODULE Payload -------------------------------
(* The encoding of a payload: marker, length of the header, header, and the   *)
(* ciphertext up to the end.                                                  *)
EXTENDS Naturals, Sequences

\* A payload is readable if the marker is there, the length is there, the
\* header is there in full, and it is a header through and through.
Readable(e) == e.magic /\ e.whole /\ e.fits /\ e.good
Decodes(e) ==
  IF Readable(e) THEN e.st = "OK" /\ e.out = e.h /\ e.rest = e.tail /\ e.suffix
  ELSE e.st # "OK"
=============================================================================
