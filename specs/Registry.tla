---- MODULE Registry ----
(* The registry of statistical-model backends: installed ones, plug-ins found by a scan, and ones registered at run time.
   A name maps to what stands behind it; registration is refused, leaving the registry as it was, when the name is taken or the
   class is not usable; plug-ins are only examined when they are asked for. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Emit
VARIABLES reg, hist
vars == <<reg, hist>>
Local == {"a", "b"}
Plugs == {"p.model", "p.converter", "p.old", "p.misnamed", "p.noreq", "p.unnamed", "p.abstract", "p.terse", "p.miscased"}
Installed == {"default.poisson", "default.normal"}
Names == Local \cup Plugs \cup Installed \cup {"zzz"}
None == "none"
Kinds == {"model", "terse", "converter", "child", "abstract", "noreq", "noname", "old", "notsub"}
KindOfPlug(p) == CASE p = "p.model" -> "model" [] p = "p.converter" -> "converter" [] p = "p.old" -> "old" [] p \in {"p.misnamed", "p.miscased"} -> "misnamed"
                   [] p = "p.noreq" -> "noreq" [] p = "p.unnamed" -> "model" [] p = "p.abstract" -> "abstract" [] p = "p.terse" -> "terse"
Init == reg = [n \in Names |-> IF n \in Installed THEN "model" ELSE None] /\ hist = <<>>
(* every reason to refuse a registration; any of them may be reported *)
Reasons(n, k) == (IF k = "notsub" THEN {"AssertionError"} ELSE {}) \cup (IF k = "abstract" THEN {"AbstractModel"} ELSE {})
                 \cup (IF k \in {"noreq", "noname"} THEN {"MissingMetaData"} ELSE {}) \cup (IF k = "old" THEN {"PluginError"} ELSE {})
                 \cup (IF k # "noname" /\ reg[n] # None THEN {"ValueError"} ELSE {})
\* terse: nothing declared but what is required
Usable == {"model", "terse", "converter", "child"}
(* what asking for a name gives: the thing itself or the error *)
Get(r, n) == IF r[n] = None THEN "PluginError" ELSE CASE r[n] \in Usable -> "ok" [] r[n] = "old" -> "PluginError"
                [] r[n] \in {"misnamed", "noreq"} -> "AssertionError" [] r[n] = "abstract" -> "AbstractModel"
Rec(op, n, k, errs) == hist' = Append(hist, [op |-> op, n |-> n, k |-> k, errs |-> errs, reg |-> reg', get |-> [m \in Names |-> Get(reg', m)]])
Register(n, k) == LET why == Reasons(n, k) IN
                  /\ reg' = IF why = {} THEN [reg EXCEPT ![n] = k] ELSE reg
                  /\ Rec("register", n, k, why)
Scan == /\ \A p \in Plugs : reg[p] = None
        /\ reg' = [n \in Names |-> IF n \in Plugs THEN KindOfPlug(n) ELSE reg[n]] /\ Rec("scan", "", "", {})
Ask(n) == reg' = reg /\ Rec("ask", n, "", {})
Next == /\ Len(hist) < Depth
        /\ \/ \E n \in Local \cup {"default.poisson"} \cup (IF reg["p.model"] # None THEN {"p.model", "p.old"} ELSE {}), k \in Kinds : Register(n, k)
           \/ \E n \in Names : Ask(n)
           \/ Scan
\* -- properties of the design --
\* names never change what stands behind them, and nothing disappears
Stable == [][\A n \in Names : reg[n] # None => reg'[n] = reg[n]]_vars
RefusedUnchanged == [][(hist' # hist /\ hist'[Len(hist')].op = "register" /\ hist'[Len(hist')].errs # {}) => reg' = reg]_vars
\* whatever was registered at run time can be used
RegisteredUsable == \A n \in Local : reg[n] # None => Get(reg, n) = "ok"
EmitOut == (Emit /\ Len(hist) = Depth) => PrintT("@" \o ToJson(hist))
====
