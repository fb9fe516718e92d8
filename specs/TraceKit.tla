---------------------------- MODULE TraceKit ----------------------------
(* Common part of all trace specifications: a recorded execution of the    *)
(* implementation is a sequence of events; the trace specification walks   *)
(* through it one event per step, taking the action of the system          *)
(* specification the event names, with the logged arguments and results.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l          \* next event to explain

TKInit == l = 1
Ev     == Trace[l]
Is(e)  == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=========================================================================
