-------------------------------- MODULE Conf --------------------------------
(* The frame of every conformance check: one behaviour per recorded          *)
(* observation of the real code, whose only step is taken through the        *)
(* specification; a step the specification forbids is reported.              *)
EXTENDS Json, IOUtils, TLC, Naturals, Sequences
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
ConfInit == l \in 1..Len(Trace) /\ done = FALSE
Report(i, bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", i, bad>>)
=============================================================================
