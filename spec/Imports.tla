------------------------------- MODULE Imports --------------------------------
(* Import of the library (P01): modules are loaded by running their import      *)
(* statements one after the other, failures unwind to the statement that        *)
(* catches them, and a failed module is forgotten again (its loaded submodules  *)
(* are kept).                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Mistake    \* "none", or a mistake put into the import statements

VARIABLES env,       \* [torch, ot, due, root]
          loaded,    \* modules that are loaded or being loaded
          stack,     \* modules being loaded, innermost last: [m, pc, torched]
          exc,       \* exception on its way up, or ""
          live,      \* duecredit's collector is used instead of the stand-in
          exports    \* what the main module exports
ivars == <<env, loaded, stack, exc, live, exports>>

DueKinds == {"absent", "importerror", "runtimeerror", "attributeerror", "nocite", "nonames", "usable"}
Roots == {"package", "top"}
Envs == [torch : BOOLEAN, ot : BOOLEAN, due : DueKinds, root : Roots]
DueError == [absent |-> "ImportError", importerror |-> "ImportError", runtimeerror |-> "RuntimeError",
             attributeerror |-> "AttributeError", nocite |-> "RuntimeError", nonames |-> "ImportError", usable |-> ""]
AllErrors == {"ImportError", "RuntimeError", "AttributeError"}

(* a module is loaded after the packages it lies in                             *)
Parents(m) == CASE m = "pkg" -> <<"pkg">>
                [] m = "main" -> <<"main">>
                [] m \in {"est", "rew", "due", "kern", "utils"} -> <<m>>
                [] m \in {"est.np", "est.torch"} -> <<"est", m>>
                [] m = "rew.ot" -> <<"rew", m>>
                [] m = "kern.rbf" -> <<"kern", m>>
                [] m = "utils.dev" -> <<"utils", m>>
Path(m) == IF env.root = "package" /\ m # "pkg" THEN <<"pkg">> \o Parents(m) ELSE Parents(m)

Ext(lib, catch) == [op |-> "ext", arg |-> lib, catch |-> catch, when |-> "always"]
Mod(m) == [op |-> "mod", arg |-> m, catch |-> {}, when |-> "always"]
ModT(m) == [op |-> "mod", arg |-> m, catch |-> {}, when |-> "torched"]
Rel(m, catch) == [op |-> "rel", arg |-> m, catch |-> catch, when |-> "always"]   \* relative to the package above
Abs(m, w) == [op |-> "abs", arg |-> m, catch |-> {}, when |-> w]                 \* top-level name
Soft == {"ImportError"}

Program(m) ==
  CASE m = "pkg" -> <<Mod("main")>>
    [] m = "main" -> <<Ext("ot", Soft), Ext("torch", Soft), Mod("est.np"), Mod("rew.ot"), ModT("est.torch")>>
                     \o (IF Mistake = "harddue" THEN <<Ext("duecredit", {})>> ELSE <<Mod("due")>>)
    [] m = "est" -> <<Mod("est.np")>> \o (IF Mistake = "hardtorch" THEN <<Mod("est.torch")>>
                                          ELSE <<Ext("torch", Soft), ModT("est.torch")>>)
    [] m = "est.np" -> <<>>
    [] m = "est.torch" -> <<Ext("torch", {})>>
          \o (CASE Mistake = "topkern" -> <<Abs("kern.rbf", "always")>>
                [] Mistake = "relkern" -> <<Rel("kern.rbf", {})>>
                [] OTHER -> <<Rel("kern.rbf", Soft), Abs("kern.rbf", "failed")>>)
    [] m = "rew" -> <<Mod("rew.ot")>>
    [] m = "rew.ot" -> <<>>
    [] m = "due" -> <<Ext("duecredit", IF Mistake = "narrowdue" THEN Soft ELSE AllErrors)>>
    [] m = "kern" -> <<Mod("kern.rbf")>>
    [] m = "kern.rbf" -> <<Ext("torch", {})>>
    [] m = "utils" -> <<Mod("utils.dev")>>
    [] m = "utils.dev" -> <<Ext("torch", {})>>

ExtError(lib) == CASE lib = "torch" -> IF env.torch THEN "" ELSE "ImportError"
                   [] lib = "ot" -> IF env.ot THEN "" ELSE "ImportError"
                   [] lib = "duecredit" -> DueError[env.due]
Top == stack[Len(stack)]
Frame(m) == [m |-> m, pc |-> 1, torched |-> FALSE, failed |-> FALSE]
Advance(st, tor, fail) == [st EXCEPT ![Len(st)].pc = @ + 1, ![Len(st)].torched = @ \/ tor, ![Len(st)].failed = fail]
Missing(path) == {i \in 1..Len(path) : path[i] \notin loaded}
First(s) == CHOOSE i \in s : \A j \in s : i <= j

(* an exception in the statement the innermost module is at                     *)
Raise(e) == LET ins == Program(Top.m)[Top.pc] IN
  IF e \in ins.catch THEN /\ stack' = Advance(stack, FALSE, TRUE) /\ exc' = ""
                          /\ UNCHANGED <<env, loaded, live, exports>>
  ELSE /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ exc' = e /\ loaded' = loaded \ {Top.m}
       /\ UNCHANGED <<env, live, exports>>

Skip == stack' = Advance(stack, FALSE, FALSE) /\ UNCHANGED <<env, loaded, exc, live, exports>>
Statement ==
  /\ stack # <<>> /\ exc = "" /\ Top.pc <= Len(Program(Top.m))
  /\ LET ins == Program(Top.m)[Top.pc] IN
     IF (ins.when = "torched" /\ ~Top.torched) \/ (ins.when = "failed" /\ ~Top.failed) THEN Skip
     ELSE IF ins.op = "ext" THEN
       IF ExtError(ins.arg) # "" THEN Raise(ExtError(ins.arg))
       ELSE /\ stack' = Advance(stack, ins.arg = "torch", FALSE)
            /\ live' = IF ins.arg = "duecredit" THEN TRUE ELSE live
            /\ UNCHANGED <<env, loaded, exc, exports>>
     ELSE IF (ins.op = "rel" /\ env.root = "top") \/ (ins.op = "abs" /\ env.root = "package") THEN Raise("ImportError")
     ELSE LET p == Path(ins.arg) IN
          IF Missing(p) = {} THEN Skip
          ELSE LET m == p[First(Missing(p))] IN
               /\ stack' = Append(stack, Frame(m)) /\ loaded' = loaded \cup {m}
               /\ UNCHANGED <<env, exc, live, exports>>
Loaded ==
  /\ stack # <<>> /\ exc = "" /\ Top.pc > Len(Program(Top.m))
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ exports' = IF Top.m = "main" THEN {"DPFC"} \cup (IF Top.torched \/ Mistake = "exportall" THEN {"torched_DPFC"} ELSE {})
                ELSE exports
  /\ UNCHANGED <<env, loaded, exc, live>>
Unwind == stack # <<>> /\ exc # "" /\ Raise(exc)
Internal == Statement \/ Loaded \/ Unwind

(* what a user imports                                                          *)
Entries == {"main", "est", "est.np", "est.torch", "rew", "due", "kern", "utils"}
NeedsTorch(e) == e \in {"est.torch", "kern", "utils"}
IInit == env \in Envs /\ loaded = {} /\ stack = <<>> /\ exc = "" /\ live = FALSE /\ exports = {}
(* the import of e is under way until every module on its path is loaded or an   *)
(* exception has come up                                                         *)
Begin(e) == LET p == Path(e) IN
  /\ Missing(p) # {}
  /\ LET m == p[First(Missing(p))] IN stack' = <<Frame(m)>> /\ loaded' = loaded \cup {m}
  /\ exc' = "" /\ UNCHANGED <<env, live, exports>>
Complete(e) == stack = <<>> /\ (exc # "" \/ Missing(Path(e)) = {})

(* what has to be offered by the modules                                        *)
Names(e) == CASE e = "main" -> {"DPFC"} \cup IF env.torch THEN {"torched_DPFC"} ELSE {}
              [] e \in {"est", "est.np"} -> {"my_cdist", "score_function_multid_seperate", "score_function_multid_seperate_all_dims",
                                             "score_function_multid_seperate_old"}
                     \cup IF env.torch /\ e = "est" THEN {"torched_score_function_multid_seperate_all_dims"} ELSE {}
              [] e = "est.torch" -> IF env.torch THEN {"torched_score_function_multid_seperate_all_dims"} ELSE {}
              [] e = "kern" -> IF env.torch THEN {"RBF"} ELSE {}
              [] e = "utils" -> IF env.torch THEN {"set_device"} ELSE {}
              [] e = "rew" -> {"reweight_optimal_transport_multidim"}
              [] e = "due" -> {"due", "BibTeX", "Doi", "Url"}
(* which of the optional names may be there                                     *)
TorchNames == {"torched_DPFC", "torched_score_function_multid_seperate_all_dims", "RBF", "set_device"}
=============================================================================
