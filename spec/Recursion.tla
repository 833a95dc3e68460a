--------------------------------- MODULE Recursion ---------------------------------
(* A recursive closure as a stack machine.  The body follows a tape of            *)
(* instructions shared by all invocations: << 1, args >> calls the closure again,  *)
(* << 0, value >> returns.  It reports what it sees as it goes:                    *)
(*   << 0, count, args >>         on entry,                                        *)
(*   << 1, count, args, result >> after a call it made has returned,               *)
(*   << 2, count, args, value >>  just before it returns,                          *)
(* where args are its own arguments, read again each time, and count is the number *)
(* of reports made so far by all invocations, kept in the captured state.          *)
EXTENDS Integers, Sequences
Top(stack) == stack[Len(stack)]
Pop(stack) == SubSeq(stack, 1, Len(stack) - 1)
\* machine: stack of argument lists, tape position t, count, what just happened
Start(args) == [stack |-> << args >>, t |-> 1, mode |-> "enter", val |-> 0]
Ended(m) == m.stack = << >>
\* the report the machine makes next, and the machine after it
Reported(m, tape, count) ==
  CASE m.mode = "enter"  -> << 0, count, Top(m.stack) >>
    [] m.mode = "resume" -> << 1, count, Top(m.stack), m.val >>
    [] m.mode = "leave"  -> << 2, count, Top(m.stack), m.val >>
\* after entry and after a resumption the body takes its next instruction
Follow(m, tape) ==
  IF tape[m.t][1] = 1 THEN [m EXCEPT !.stack = Append(@, tape[m.t][2]), !.t = @ + 1, !.mode = "enter"]
  ELSE [m EXCEPT !.t = @ + 1, !.mode = "leave", !.val = tape[m.t][2]]
After(m, tape) == IF m.mode = "leave" THEN [m EXCEPT !.stack = Pop(@), !.mode = "resume"] ELSE Follow(m, tape)
===================================================================================
