------------------------------ MODULE FileSync ------------------------------
(* The output tree as a state machine: generator runs, and what users and    *)
(* other tools do to the tree in between.                                    *)
(*                                                                           *)
(* Contents are abstract classes.  Class 0 is "no such file".  Out[d][f] is  *)
(* the class of the content that a run over description d gives to file f in *)
(* an EMPTY directory (0: d has no output f).  The table is measured on the  *)
(* implementation before checking, so that the specification speaks about    *)
(* histories and not about the text of files.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Out,        \* <<[file |-> class, ...], ...>> : one record per description
          Files,      \* every file name in play
          GenExt,     \* files directly in the output directory with a generated extension
          Editable,   \* files that the environment may edit, touch or remove
          UserFiles,  \* files that only the environment creates
          Kinds,      \* ways to edit a file: where the change lies and whether the length stays
          MaxEnv,     \* environment steps between two runs
          Dst,        \* the Rust glue file
          Bad,        \* indices of descriptions that are invalid (the run must fail)
          EnvBad      \* indices of valid descriptions whose run fails because rustfmt cannot be run

VARIABLES disk,       \* [Files -> content class]
          env,        \* environment steps since the last run
          act         \* last action and its expected observation (not in VIEW)

vars == <<disk, env, act>>
view == <<disk, env>>

Absent == 0
Edited == 1000        \* content that no run produces
User   == 1001

Descs == DOMAIN Out

Init == /\ disk = [f \in Files |-> Absent]
        /\ env = MaxEnv
        /\ act = [op |-> "init"]

IsOutput(d, f) == Out[d][f] # Absent

(* What one successful run does to one file. *)
After(d, rm, f) ==
    IF IsOutput(d, f) THEN Out[d][f]
    ELSE IF rm /\ f \in GenExt THEN Absent
    ELSE disk[f]

Written(d) == { f \in Files : IsOutput(d, f) /\ disk[f] # Out[d][f] }

Run(d, rm) ==
    /\ d \notin Bad \cup EnvBad
    /\ disk' = [f \in Files |-> After(d, rm, f)]
    /\ env' = 0
    /\ act' = [op |-> "run", d |-> d, rm |-> rm, ok |-> TRUE, written |-> Written(d)]

(* A rejected description.  For a bad d, Out[d] is what the failing run       *)
(* leaves in an empty directory.  Files of items processed before the error   *)
(* may already have been brought up to date; the Rust file must not be        *)
(* touched and nothing may be deleted.                                        *)
FailRun(d, rm) ==
    /\ d \in Bad
    /\ \E W \in SUBSET {f \in Files : IsOutput(d, f) /\ disk[f] # Out[d][f]} :
         /\ Dst \notin W
         /\ disk' = [f \in Files |-> IF f \in W THEN Out[d][f] ELSE disk[f]]
         /\ act' = [op |-> "run", d |-> d, rm |-> rm, ok |-> FALSE, written |-> W]
    /\ env' = 0

(* The description is good but the glue cannot be formatted: the foreign side *)
(* may be brought up to date, stale files included, but never the Rust file.  *)
EnvFailRun(d, rm) ==
    /\ d \in EnvBad
    /\ \E W \in SUBSET {f \in Files : IsOutput(d, f) /\ disk[f] # Out[d][f]} :
       \E D \in (IF rm THEN {{}, {f \in GenExt : ~IsOutput(d, f)}} ELSE {{}}) :
         /\ Dst \notin W
         /\ disk' = [f \in Files |-> IF f \in W THEN Out[d][f] ELSE IF f \in D THEN Absent ELSE disk[f]]
         /\ act' = [op |-> "run", d |-> d, rm |-> rm, ok |-> FALSE, written |-> W]
    /\ env' = 0

(* However small the edit and wherever it lies, the file is no longer right.  *)
Edit(f, k) ==
    /\ env < MaxEnv /\ f \in Editable /\ disk[f] \notin {Absent, Edited}
    /\ disk' = [disk EXCEPT ![f] = Edited]
    /\ env' = env + 1
    /\ act' = [op |-> "edit", f |-> f, k |-> k]

Remove(f) ==
    /\ env < MaxEnv /\ f \in Editable \cup UserFiles /\ disk[f] # Absent
    /\ disk' = [disk EXCEPT ![f] = Absent]
    /\ env' = env + 1
    /\ act' = [op |-> "rm", f |-> f]

Create(f) ==
    /\ env < MaxEnv /\ f \in UserFiles /\ disk[f] = Absent
    /\ disk' = [disk EXCEPT ![f] = User]
    /\ env' = env + 1
    /\ act' = [op |-> "create", f |-> f]

Next == \/ \E d \in Descs, rm \in BOOLEAN : Run(d, rm) \/ FailRun(d, rm) \/ EnvFailRun(d, rm)
        \/ \E f \in Files : (\E k \in Kinds : Edit(f, k)) \/ Remove(f) \/ Create(f)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ \A f \in Files : disk[f] \in Nat
          /\ env \in 0..MaxEnv

(* G01: after a run the outputs are those of a fresh directory ...           *)
Synced == [][act'.op = "run" /\ act'.ok =>
             \A f \in Files : IsOutput(act'.d, f) => disk'[f] = Out[act'.d][f]]_vars
(* ... right files are not written ...                                       *)
NoRewrite == [][act'.op = "run" =>
             \A f \in Files : disk[f] = disk'[f] => f \notin act'.written]_vars
(* ... nothing is deleted without the option or outside its scope ...        *)
DeleteScope == [][act'.op = "run" =>
             \A f \in Files : disk[f] # Absent /\ disk'[f] = Absent =>
                 (act'.ok \/ act'.d \in EnvBad) /\ act'.rm /\ f \in GenExt /\ ~IsOutput(act'.d, f)]_vars
(* ... and a second identical run changes nothing.                           *)
Idempotent == [][\A d \in Descs \ (Bad \cup EnvBad), rm \in BOOLEAN :
             act'.op = "run" /\ act'.ok /\ act'.d = d /\ act'.rm = rm =>
                 Written(d)' = {} /\ \A f \in Files : After(d, rm, f)' = disk'[f]]_vars
(* G02: a failed run keeps the glue and every file that is there, and the    *)
(* next good run is not influenced by it: its result is that of Synced.       *)
FailKeeps == [][act'.op = "run" /\ ~act'.ok =>
             /\ disk'[Dst] = disk[Dst]
             /\ act'.d \in Bad => \A f \in Files : disk[f] # Absent => disk'[f] # Absent]_vars

-----------------------------------------------------------------------------
St(d, e) == [disk |-> d, env |-> e]
EmitInit == (TLCGet("level") > 1) \/ PrintT("I " \o ToJson(St(disk, env)))
EmitEdge == PrintT("E " \o ToJson([f |-> St(disk, env), a |-> act', t |-> St(disk', env')]))
=============================================================================
