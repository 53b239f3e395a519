------------------------------- MODULE Notes -------------------------------
(* Messages from TLC to the orchestrator: one line, "TAG json".             *)
EXTENDS TLC, Json, Sequences
Note(tag, rec) == PrintT(tag \o " " \o ToJson(rec))
=============================================================================
