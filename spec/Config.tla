------------------------------- MODULE Config -------------------------------
(* Which configurations are acceptable.  A construction runs the checks of    *)
(* its component in any order; it refuses as soon as one fails and accepts    *)
(* when all have passed.  The declarative verdict Valid is what the user may  *)
(* rely on; every configuration of the model is replayed into the real code.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Comps, Sizes, Emit, Bug

Subpop == [creators : {"none", "empty", "one", "list1", "list2", "list3", "list6", "mixed", "string"},
           pcr : {"default", "even", "uneven", "short", "long", "less", "more"},
           ops : {"none", "empty", "some"}]
Algo == [alg : {"simple", "nsga"},
         pop : {"none", "population", "subpop", "list", "empty", "mixed", "string"},
         stats : {"default", "one", "list", "empty", "mixed", "string"},
         exec : {"thread", "process", "other", "none"},
         breeder : {"default", "simple", "none", "string", "abstract"},
         eval : {"default", "simple", "none", "string", "abstract"}]
Run == [n : Sizes, a : {1, 2, 3, 4}, b : {0, 1, 2, 3, 6}, subs : {1, 2}]
Vec == [n : {1, 2, 3, 5}, bounds : {"pair", "single", "triple", "percell", "fewer", "more"},
        content : {"none", "right", "short", "long", "tuple", "string"}, kind : {"bit", "int", "float"}]
TreeC == [fset : {"none", "empty", "uncallable", "untyped", "float", "floatbool", "mixed"},
          tset : {"none", "tuple", "list", "emptylist", "float", "floatbool", "bool", "int", "emptydict", "badvalue"},
          root : {"none", "float", "bool", "int"}, erc : {"none", "float", "int"}, maker : {"full", "grow"}]
Fail == [attempts : {-3, -1, 0, 1, 2, 7}, kind : {"user", "gauss", "npoint"}]
Meth == [m : {"map", "submit", "Map", "", "apply", "none"}]

Cases(c) == CASE c = "subpop" -> Subpop [] c = "algo" -> Algo [] c = "run" -> Run [] c = "vec" -> Vec
              [] c = "tree" -> TreeC [] c = "fail" -> Fail [] c = "meth" -> Meth

NCreators(o) == CASE o.creators \in {"one", "list1"} -> 1 [] o.creators = "list2" -> 2 [] o.creators = "list3" -> 3
                  [] o.creators = "list6" -> 6 [] OTHER -> 0
\* terminals available to a typed tree, by type
TermTypes(o) == (CASE o.tset = "float" -> {"float"} [] o.tset = "floatbool" -> {"float", "bool"} [] o.tset = "bool" -> {"bool"}
                   [] o.tset = "int" -> {"int"} [] OTHER -> {}) \cup (IF o.erc = "none" THEN {} ELSE {o.erc})
ArgTypes(o) == CASE o.fset = "float" -> {"float"} [] o.fset = "floatbool" -> {"float", "bool"} [] OTHER -> {"?"}
Dict(o) == o.tset \in {"float", "floatbool", "bool", "int", "emptydict"}

\* the named checks of each component: TRUE when passed
Ok(c, o, k) ==
  CASE c = "subpop" /\ k = "creators" -> NCreators(o) > 0
    [] c = "subpop" /\ k = "pcrlen"   -> NCreators(o) = 0 \/ o.pcr \notin {"short", "long"}
    [] c = "subpop" /\ k = "pcrsum"   -> o.pcr \notin {"less", "more"}
    [] c = "subpop" /\ k = "ops"      -> o.ops # "none"
    [] c = "algo" /\ k = "pop"        -> o.pop \in {"population", "subpop", "list"}
    [] c = "algo" /\ k = "stats"      -> o.stats \notin {"mixed", "string"}
    [] c = "algo" /\ k = "exec"       -> o.exec \in {"thread", "process"}
    [] c = "algo" /\ k = "breeder"    -> o.alg # "simple" \/ o.breeder \notin {"string", "abstract"}
    [] c = "algo" /\ k = "eval"       -> o.alg # "simple" \/ o.eval \notin {"string", "abstract"}
    [] c = "run" /\ k = "arity"       -> o.n % o.a = 0 /\ (o.b = 0 \/ o.n % o.b = 0)
    [] c = "run" /\ k = "single"      -> o.subs = 1
    [] c = "vec" /\ k = "bounds"      -> o.bounds \in {"pair", "percell"}
    [] c = "vec" /\ k = "content"     -> o.content \in {"none", "right"}
    [] c = "tree" /\ k = "functions"  -> o.fset \notin {"none", "empty", "uncallable", "mixed"}
    [] c = "tree" /\ k = "terminals"  -> o.tset \notin {"none", "tuple", "badvalue"}
    [] c = "tree" /\ k = "untyped"    -> (o.fset = "untyped") => /\ o.tset \in {"list", "emptylist"} /\ o.root = "none"
                                                                 /\ (o.tset = "list" \/ o.erc # "none")
    [] c = "tree" /\ k = "typed"      -> (o.fset \in {"float", "floatbool"}) =>
                                             /\ Dict(o) /\ o.root \in ArgTypes(o) /\ TermTypes(o) = ArgTypes(o)
                                             /\ o.erc \in {"none"} \cup ArgTypes(o)
    [] c = "fail" /\ k = "attempts"   -> o.attempts >= 1
    [] c = "meth" /\ k = "method"     -> o.m \in {"map", "submit"}
Checks(c) == CASE c = "subpop" -> {"creators", "pcrlen", "pcrsum", "ops"} [] c = "algo" -> {"pop", "stats", "exec", "breeder", "eval"}
               [] c = "run" -> {"arity", "single"} [] c = "vec" -> {"bounds", "content"}
               [] c = "tree" -> {"functions", "terminals", "untyped", "typed"} [] c = "fail" -> {"attempts"} [] c = "meth" -> {"method"}
Valid(c, o) == \A k \in Checks(c) : Ok(c, o, k)

\* an NSGA-II algorithm takes any breeder: those of the wrong kind are left out of the cases
\* (so are the other shapes it does not promise to check)
Meaningful(c, o) == c = "algo" /\ o.alg = "nsga" => o.breeder = "default" /\ o.eval = "default"

VARIABLES comp, opts, todo, verdict
vars == <<comp, opts, todo, verdict>>
Init == /\ comp \in Comps /\ opts \in Cases(comp) /\ Meaningful(comp, opts)
        /\ todo = Checks(comp) \ (IF Bug = "none" THEN {} ELSE {Bug}) /\ verdict = "pending"
        /\ IF Emit THEN PrintT("CASE " \o ToJson([comp |-> comp, o |-> opts])) ELSE TRUE
Step == /\ ~Emit /\ verdict = "pending"
        /\ \/ \E k \in todo : /\ todo' = todo \ {k}
                              /\ verdict' = IF Ok(comp, opts, k) THEN "pending" ELSE "refused"
           \/ todo = {} /\ verdict' = "accepted" /\ UNCHANGED todo
        /\ UNCHANGED <<comp, opts>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
Sound == (verdict = "accepted") => Valid(comp, opts)
Complete == (verdict = "refused") => ~Valid(comp, opts)
Decides == Emit \/ <>(verdict # "pending")
=============================================================================
