------------------------------ MODULE CaseData ------------------------------
(***************************************************************************)
(* The environments of the commands to run, read from the JSON file named   *)
(* by the environment variable CASES.  (A plain definition rather than an    *)
(* overridden constant, because TLC evaluates it only once.)                 *)
(***************************************************************************)
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
=============================================================================
