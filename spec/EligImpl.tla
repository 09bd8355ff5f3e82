----------------------------- MODULE EligImpl -----------------------------
(* The decider: unsupported policies first, then one policy after the other  *)
(* on the tasks still eligible.  Checked against the definition that every   *)
(* attached policy allows the task, for all verdicts, attachments and names. *)
(* With ByName = TRUE the tasks of a policy are found by its name, as the    *)
(* original code did; two policies of one name then refute it.               *)
EXTENDS Naturals, FiniteSets

CONSTANTS Tasks, Policies, Names, ByName

VARIABLES allow, supported, uses, name, users, i, elig, pc
vars == <<allow, supported, uses, name, users, i, elig, pc>>
N == Cardinality(Policies)

Init == /\ allow \in [Policies -> SUBSET Tasks] /\ supported \in SUBSET Policies
        /\ uses \in [Tasks -> SUBSET Policies] /\ name \in [Policies -> Names]
        /\ users = [k \in {} |-> {}] /\ i = 1 /\ elig = Tasks /\ pc = "scan"
Key(p) == IF ByName THEN name[p] ELSE p
UsersOf(p) == {t \in Tasks : p \in uses[t]}
Scan == /\ pc = "scan" /\ i <= N
        /\ IF i \in supported
           THEN /\ users' = [k \in DOMAIN users \cup {Key(i)} |-> IF k = Key(i) THEN UsersOf(i) ELSE users[k]]
                /\ elig' = elig
           ELSE users' = users /\ elig' = elig \ UsersOf(i)
        /\ i' = i + 1 /\ UNCHANGED <<allow, supported, uses, name, pc>>
ScanEnd == pc = "scan" /\ i > N /\ i' = 1 /\ pc' = "eval" /\ UNCHANGED <<allow, supported, uses, name, users, elig>>
Eval == /\ pc = "eval" /\ i <= N
        /\ elig' = (IF elig = {} \/ Key(i) \notin DOMAIN users THEN elig
                    ELSE elig \ ((users[Key(i)] \cap elig) \ allow[i]))
        /\ i' = i + 1 /\ UNCHANGED <<allow, supported, uses, name, users, pc>>
EvalEnd == pc = "eval" /\ i > N /\ pc' = "done" /\ UNCHANGED <<allow, supported, uses, name, users, elig, i>>
Next == Scan \/ ScanEnd \/ Eval \/ EvalEnd
Spec == Init /\ [][Next]_vars

Right == pc = "done" => elig = {t \in Tasks : \A p \in uses[t] : p \in supported /\ t \in allow[p]}
=============================================================================
