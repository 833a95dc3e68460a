-------------------------------- MODULE RecursionAlg --------------------------------
(* Every call tree of up to MaxCalls invocations, of every arity: the stack machine  *)
(* makes exactly the reports of the recursive function, given denotationally by      *)
(* Denote: an invocation reports its entry, then for each call it makes everything    *)
(* that call reports and the resumption with its value, then its return.              *)
EXTENDS GenLib, Recursion
CONSTANTS Arities, MaxCalls
VARIABLES arity, tape, open, calls, mach, log
vars == << arity, tape, open, calls, mach, log >>
Args(k) == [p \in 1 .. arity |-> 10 * k + p]
Init == /\ arity \in Arities /\ tape = << >> /\ open = 1 /\ calls = 1
        /\ mach = [stack |-> << >>, t |-> 0, mode |-> "plan", val |-> 0] /\ log = << >>
\* choose the tape
PlanCall == mach.mode = "plan" /\ open > 0 /\ calls < MaxCalls /\ calls' = calls + 1 /\ open' = open + 1
            /\ tape' = Append(tape, << 1, Args(calls) >>) /\ UNCHANGED << arity, mach, log >>
PlanReturn == mach.mode = "plan" /\ open > 0 /\ open' = open - 1
              /\ tape' = Append(tape, << 0, 100 + Len(tape) >>) /\ UNCHANGED << arity, calls, mach, log >>
Run == mach.mode = "plan" /\ open = 0 /\ mach' = Start(Args(0)) /\ UNCHANGED << arity, tape, open, calls, log >>
Step == /\ mach.mode # "plan" /\ ~Ended(mach)
        /\ log' = Append(log, Reported(mach, tape, Len(log))) /\ mach' = After(mach, tape)
        /\ UNCHANGED << arity, tape, open, calls >>
Over == mach.mode = "resume" /\ Ended(mach)
\* denotation: the reports of the invocation with args whose body starts at tape position t, when
\* n reports have been made: << reports, position after it, value >>
RECURSIVE Body(_, _, _, _)
Body(args, t, n, acc) ==
  IF tape[t][1] = 0 THEN << Append(acc, << 2, n + Len(acc), args, tape[t][2] >>), t + 1, tape[t][2] >>
  ELSE LET inner == Body(tape[t][2], t + 1, n + Len(acc), << << 0, n + Len(acc), tape[t][2] >> >>)
           all   == acc \o inner[1] IN
       Body(args, inner[2], n, Append(all, << 1, n + Len(all), args, inner[3] >>))
Denote == Body(Args(0), 1, 0, << << 0, 0, Args(0) >> >>)
Report == /\ Over
          /\ Emit([k |-> 0], << E("new", << arity >>, << >>), E("call", << Args(0), tape >>, << log, << mach.val >> >>) >>)
          /\ UNCHANGED vars
Next == PlanCall \/ PlanReturn \/ Run \/ Step \/ Report
Spec == Init /\ [][Next]_vars
Faithful == Over => log = Denote[1] /\ mach.val = Denote[3] /\ Denote[2] = Len(tape) + 1
\* at every moment: one frame per unfinished invocation, each with the arguments of its call
Frames == mach.mode # "plan" =>
  \A k \in DOMAIN log : log[k][1] = 0 =>
    LET later == {j \in k + 1 .. Len(log) : log[j][1] = 2 /\ log[j][3] = log[k][3]} IN
    arity > 0 /\ later = {} => \E f \in DOMAIN mach.stack : mach.stack[f] = log[k][3]
===================================================================================
