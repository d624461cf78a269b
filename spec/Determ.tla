-------------------------------- MODULE Determ --------------------------------
(* Generation as a function of its inputs: histories of runs over inputs, processes and directories.  *)
(* Result is uninterpreted: input i has outcome i, whatever the history; the table of outcomes is        *)
(* measured once, each in a fresh process and an empty directory, before the histories are replayed.        *)
(* mem: inputs given earlier to the process that runs now (the last Mem of them); dir: the input whose          *)
(* output the directory holds (0: empty).                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,      \* inputs 1..N of which
          Bad,    \* these are refused,
          Mem     \* how far back a process may remember

VARIABLES mem, dir, act
vars == <<mem, dir, act>>
Inputs == 1..N
Good == Inputs \ Bad
Init == mem = <<>> /\ dir = 0 /\ act = [op |-> "init"]
Keep(s) == IF Len(s) <= Mem THEN s ELSE SubSeq(s, Len(s) - Mem + 1, Len(s))
After(i) == IF i \in Good THEN i ELSE dir
Run(i) == mem' = Keep(Append(mem, i)) /\ dir' = After(i) /\ act' = [op |-> "run", i |-> i]
(* two generators at the same time in one process, the second one in a directory of its own *)
Both(i, j) == mem' = Keep(mem \o <<j, i>>) /\ dir' = After(i) /\ act' = [op |-> "both", i |-> i, j |-> j]
(* a new process, in another working directory and environment *)
Restart == mem # <<>> /\ mem' = <<>> /\ dir' = dir /\ act' = [op |-> "restart"]
Wipe == dir # 0 /\ dir' = 0 /\ mem' = mem /\ act' = [op |-> "wipe"]
Next == \/ \E i \in Inputs : Run(i) \/ Both(i, i) \/ Both(i, 1 + (i % N))
        \/ Restart \/ Wipe
Spec == Init /\ [][Next]_vars

TypeOK == dir \in Good \cup {0} /\ mem \in UNION {[1..k -> Inputs] : k \in 0..Mem}
(* what a run leaves depends on its input alone *)
Function == [][act'.op \in {"run", "both"} => dir' = IF act'.i \in Good THEN act'.i ELSE dir]_vars
Others == [][dir' # dir => act'.op # "restart"]_vars

St == [mem |-> mem, dir |-> dir]
view == St
EmitInit == (TLCGet("level") > 1) \/ PrintT("I " \o ToJson(St))
EmitEdge == PrintT("E " \o ToJson([f |-> St, a |-> act', t |-> St']))
===============================================================================
