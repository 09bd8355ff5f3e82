------------------------------ MODULE TraceLib ------------------------------
(* Shared by all trace specifications.  A trace is an ndjson file; each line *)
(* is an event with field e.  A line with e = "reset" starts a new run.      *)
(* The variable l of a trace specification is the index of the next event;   *)
(* the highest l reached is kept in TLC register 42.                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

ASSUME TLCSet(42, 0)

Track(l) == TLCSet(42, IF TLCGet(42) < l THEN l ELSE TLCGet(42))

Report == PrintT(<<"MAXL", TLCGet(42), Len(Trace)>>)

Has(r, f) == f \in DOMAIN r

SeqToSet(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
