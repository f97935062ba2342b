------------------------------ MODULE SmtJudge ------------------------------
(* Sessions recorded from the real solver, judged by SmtSession. Each job is   *)
(* [id, cmds, out, end]: the commands, what was printed for each check and    *)
(* model, and how the process ended. A violated rule is printed as             *)
(* <<"VIOL", job, command, rule>>.                                            *)
EXTENDS SmtSession, Json, IOUtils, Integers
CONSTANT Fuel
Jobs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, pos, out
vars == <<svars, tid, pos, out>>

Cmd == Jobs[tid].cmds[pos]
HasCmd == pos <= Len(Jobs[tid].cmds)
HasOut(kind) == out <= Len(Jobs[tid].out) /\ Jobs[tid].out[out].o = kind
Out == Jobs[tid].out[out]
Say(rule) == PrintT(<<"VIOL", Jobs[tid].id, pos, rule>>)
Report(rule) == Say(rule)
Must(b, rule) == IF b THEN TRUE ELSE Say(rule)
Note(n) == PrintT(<<"NOTE", Jobs[tid].id, pos, n>>)

Init == SessionInit /\ tid \in 1..Len(Jobs) /\ pos = 1 /\ out = 1
(* messages that no command of the script calls for *)
Expected == HasCmd /\ Cmd.c = "model" /\ answer # "sat" /\ Out.o = "error"
Noise == out <= Len(Jobs[tid].out) /\ Out.o \in {"error", "junk"} /\ ~Expected
DoNoise == Noise /\ Report("error-output") /\ out' = out + 1 /\ UNCHANGED <<svars, tid, pos>>
Is(c) == ~Noise /\ HasCmd /\ Cmd.c = c /\ pos' = pos + 1 /\ tid' = tid
DoDecl   == Is("decl") /\ Declare(Cmd.n, Cmd.as, Cmd.s) /\ out' = out
DoDef    == Is("def") /\ Define(Cmd.n, Cmd.p, Cmd.t) /\ out' = out
DoAssert == Is("assert") /\ AssertTerm(Cmd.t) /\ out' = out

(* the model printed for this check, if the next command asks for one *)
ModelNext == pos < Len(Jobs[tid].cmds) /\ Jobs[tid].cmds[pos + 1].c = "model"
             /\ out < Len(Jobs[tid].out) /\ Jobs[tid].out[out + 1].o = "model"
             /\ Jobs[tid].out[out + 1].ok
TheModel == Jobs[tid].out[out + 1].m
ModelOk == ModelNext /\ ModelForm(TheModel) /\ ModelSatisfies(TheModel)
(* A check may carry a model or the positions of contradictory assertions as a *)
(* hint: what holds is still decided here.                                    *)
TheTruth == IF "w" \in DOMAIN Cmd
            THEN IF ModelForm(Cmd.w) /\ ModelSatisfies(Cmd.w) THEN "sat" ELSE "unknown"
            ELSE IF "core" \in DOMAIN Cmd
            THEN IF TruthOf([i \in 1..Len(Cmd.core) |-> asserted[Cmd.core[i]]], Fuel) = "unsat" THEN "unsat" ELSE "unknown"
            ELSE Truth(Fuel)
JudgeSat == IF ModelOk THEN TRUE
            ELSE LET t == TheTruth
                 IN IF t = "unsat" THEN Report("verdict-sat")
                    ELSE IF t = "unknown" THEN Note("undecided") ELSE TRUE
JudgeUnsat == LET t == TheTruth
              IN IF t = "sat" THEN Report("verdict-unsat")
                 ELSE IF t = "unknown" THEN Note("undecided") ELSE TRUE
(* asking again without a new assertion, and asking after unsat *)
Again(a) == Must(answer \in {"none", a}, "not-repeatable")
DoCheck ==
    /\ Is("check")
    /\ IF HasOut("answer")
       THEN /\ CASE Out.a = "sat" -> JudgeSat
                 [] Out.a = "unsat" -> JudgeUnsat
                 [] OTHER -> Report("no-answer")
            /\ Again(Out.a)
            /\ CheckSat(Out.a)
            /\ out' = out + 1
       ELSE Report("no-answer") /\ CheckSat("none") /\ out' = out
DoModel ==
    /\ Is("model")
    /\ IF HasOut("model")
       THEN /\ IF answer # "sat" THEN TRUE
               ELSE IF ~Out.ok \/ ~ModelForm(Out.m) THEN Report("model-form")
               ELSE /\ Must(ModelSatisfies(Out.m), "model-value")
                    /\ Must(FollowsPhase(Out.m, Jobs[tid].phase), "model-phase")
            /\ out' = out + 1
       ELSE /\ Must(answer # "sat", "no-model")
            /\ out' = IF HasOut("error") THEN out + 1 ELSE out
    /\ UNCHANGED svars
DoEnd ==
    /\ ~Noise /\ pos = Len(Jobs[tid].cmds) + 1
    /\ pos' = pos + 1
    /\ Must(Jobs[tid].end = "ok", "end-" \o Jobs[tid].end)
    /\ Must(out = Len(Jobs[tid].out) + 1, "extra-output")
    /\ UNCHANGED <<svars, tid, out>>
Next == DoNoise \/ DoDecl \/ DoDef \/ DoAssert \/ DoCheck \/ DoModel \/ DoEnd
View == <<tid, pos, out>>
Post == PrintT(<<"DONE", TLCGet("stats").distinct>>)
=============================================================================
