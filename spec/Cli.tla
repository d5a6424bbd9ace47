-------------------------------- MODULE Cli --------------------------------
(* The command line program: its arguments are read one by one, then the file *)
(* is read and parsed, and something is printed.                              *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Alphabet,         \* arguments
          Files             \* [name, state]: what there is for the file argument
VARIABLES args, want, ended, file, format, check, bad,    \* reading of the arguments
          phase, is, out, err, code                        \* "args", "read", "parse", "print", "done"
vars == <<args, want, ended, file, format, check, bad, phase, is, out, err, code>>

(* An argument: what is given, and how it is read. *)
Formats == {"pretty", "minified"}
Short(a) == CASE a = "-f" -> [opt |-> "f", val |-> ""] [] a = "--format" -> [opt |-> "f", val |-> ""]
              [] a \in {"-fpretty", "-f=pretty", "--format=pretty"} -> [opt |-> "f", val |-> "pretty"]
              [] a \in {"-fminified", "-f=minified", "--format=minified"} -> [opt |-> "f", val |-> "minified"]
              [] a \in {"--format=tiny", "-ftiny", "-fc"} -> [opt |-> "f", val |-> "tiny"]
              [] a \in {"-c", "--check"} -> [opt |-> "c", val |-> ""]
              [] a \in {"-cf"} -> [opt |-> "cf", val |-> ""]
              [] a = "-cfminified" -> [opt |-> "cf", val |-> "minified"]
              [] a \in {"-x", "--chck", "--check=1", "-cc"} -> [opt |-> "?", val |-> ""]
              [] OTHER -> [opt |-> "", val |-> a]
Dashed(a) == Short(a).opt # "" \/ a = "--"

Init == /\ args = <<>> /\ want = FALSE /\ ended = FALSE /\ file = "" /\ format = "" /\ check = FALSE /\ bad = FALSE
        /\ phase = "args" /\ is \in Files /\ out = "nothing" /\ err = "nothing" /\ code = 0

(* One more argument, which is read as the value of the option before it if that wants one. *)
Value(v) == /\ bad' = (v \notin Formats) /\ format' = v /\ want' = FALSE /\ UNCHANGED <<ended, file, check>>
Name(a) == /\ IF file = "" THEN file' = a /\ bad' = FALSE ELSE bad' = TRUE /\ UNCHANGED file
           /\ UNCHANGED <<want, ended, format, check>>
Option(r) ==
  LET c == r.opt \in {"c", "cf"}  f == r.opt \in {"f", "cf"} IN
  /\ bad' = (r.opt = "?" \/ (c /\ check) \/ (f /\ format # "") \/ (f /\ r.val \notin Formats \cup {""}))
  /\ check' = (check \/ c) /\ want' = (f /\ r.val = "") /\ format' = IF f /\ r.val # "" THEN r.val ELSE format
  /\ UNCHANGED <<ended, file>>
Arg(a) ==
  /\ phase = "args" /\ ~bad /\ args' = Append(args, a) /\ UNCHANGED <<phase, is, out, err, code>>
  /\ IF ended THEN Name(a)
     ELSE IF want THEN (IF Dashed(a) THEN bad' = TRUE /\ UNCHANGED <<want, ended, file, format, check>> ELSE Value(a))
     ELSE IF a = "--" THEN ended' = TRUE /\ UNCHANGED <<want, file, format, check, bad>>
     ELSE IF Dashed(a) THEN Option(Short(a)) ELSE Name(a)

Fail(e) == phase' = "done" /\ out' = "nothing" /\ err' = e /\ code' = 1
Rest == UNCHANGED <<args, want, ended, file, format, check, bad, is>>
Read == phase = "args" /\ Rest /\ IF bad \/ want \/ file = "" THEN Fail("usage")
        ELSE phase' = "read" /\ UNCHANGED <<out, err, code>>
(* Only the file "F" is there, and it may not be text. *)
Open == phase = "read" /\ Rest /\ IF file # "F" \/ is.state = "unreadable" THEN Fail("some")
        ELSE phase' = "parse" /\ UNCHANGED <<out, err, code>>
ModuleNames == {"m.mjs", "m.module.js", ".mjs", "dir.js/m.mjs", "a.js.mjs", "x.min.module.js", ".module.js"}
Goal == IF is.name \in ModuleNames THEN "module" ELSE "script"
Valid == is.state \in {"both", Goal}
Parse == phase = "parse" /\ Rest /\ IF ~Valid THEN Fail("report") ELSE phase' = "print" /\ UNCHANGED <<out, err, code>>
Print == /\ phase = "print" /\ Rest /\ phase' = "done" /\ UNCHANGED <<err, code>>
         /\ out' = IF check THEN "success" ELSE IF format # "" THEN format ELSE "tree"

Next == (\E a \in Alphabet : Arg(a)) \/ Read \/ Open \/ Parse \/ Print

(* What is promised: never both an error and output; what is printed is what was asked for. *)
Laws ==
  /\ phase = "done" => (code # 0 <=> err # "nothing") /\ (code # 0 <=> out = "nothing")
  /\ out = "success" => check
  /\ out \in Formats => ~check /\ \E i \in DOMAIN args : args[i] = out \/ Short(args[i]).val = out
  /\ out = "tree" => \A i \in DOMAIN args : args[i] \in {"F", "--"}
  /\ out # "nothing" => Valid /\ \E i \in DOMAIN args : args[i] = "F"
=============================================================================
