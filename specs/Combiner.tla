---- MODULE Combiner ----
(* Combinations of uniquely named models as mutable ordered collections, and joins that make new ones. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, MaxObj, Emit
VARIABLES objs, hist          \* objs: sequence of collections, each a sequence of model numbers
vars == <<objs, hist>>
Models == 1..5
NameOf == <<"a", "b", "a", "c", "ab">>       \* models 1 and 3 share a name
AllNames == {"a", "b", "c", "ab", "z", ""}
NamesIn(s) == {NameOf[s[i]] : i \in 1..Len(s)}
CanAppend(s, m) == NameOf[m] \notin NamesIn(s)
CanJoin(s, t) == NamesIn(s) \cap NamesIn(t) = {}
RemoveName(s, n) == SelectSeq(s, LAMBDA m : NameOf[m] # n)
Ops == [op : {"append"}, o : 1..Len(objs), m : Models] \cup [op : {"junk"}, o : 1..Len(objs), m : {0}]
       \cup [op : {"remove"}, o : 1..Len(objs), n : AllNames]
       \cup [op : {"join"}, o : 1..Len(objs), p : 1..Len(objs)] \cup [op : {"joinmodel"}, o : 1..Len(objs), m : Models]
       \cup [op : {"joinjunk"}, o : 1..Len(objs)] \cup [op : {"make"}, ms : {<<>>, <<2, 4>>, <<1, 3>>, <<4, 2, 1>>}]
Ok(x) == CASE x.op = "append" -> CanAppend(objs[x.o], x.m) [] x.op = "junk" -> FALSE
           [] x.op = "remove" -> x.n \in NamesIn(objs[x.o])
           [] x.op = "join" -> CanJoin(objs[x.o], objs[x.p]) [] x.op = "joinmodel" -> CanAppend(objs[x.o], x.m)
           [] x.op = "joinjunk" -> FALSE
           [] x.op = "make" -> Cardinality({NameOf[x.ms[i]] : i \in 1..Len(x.ms)}) = Len(x.ms)
New(x) == CASE x.op = "append" -> [objs EXCEPT ![x.o] = Append(@, x.m)]
            [] x.op = "remove" -> [objs EXCEPT ![x.o] = RemoveName(@, x.n)]
            [] x.op = "join" -> Append(objs, objs[x.o] \o objs[x.p])
            [] x.op = "joinmodel" -> Append(objs, Append(objs[x.o], x.m))
            [] x.op = "make" -> Append(objs, x.ms)
Err(x) == IF Ok(x) THEN "" ELSE CASE x.op = "junk" -> "TypeError" [] x.op = "joinjunk" -> "ValueError" [] OTHER -> "AnalysisQueryError"
Init == objs \in {<<<<>>>>, <<<<1, 2>>, <<4>>>>} /\ hist = <<[start |-> objs]>>
Makes(x) == x.op \in {"join", "joinmodel", "make"}
Do(x) == /\ Len(hist) <= Depth /\ (Makes(x) => Len(objs) < MaxObj)
         /\ objs' = IF Ok(x) THEN New(x) ELSE objs
         /\ hist' = Append(hist, [op |-> x, err |-> Err(x), after |-> objs'])
Next == \E x \in Ops : Do(x)
Unique == \A i \in 1..Len(objs) : Cardinality(NamesIn(objs[i])) = Len(objs[i])
RefusedUnchanged == [][\A x \in Ops : (Do(x) /\ ~Ok(x)) => objs' = objs]_vars
\* an operation changes at most the collection it is applied to; joins only add a new one
OneChanges == [][Cardinality({i \in 1..Len(objs) : objs'[i] # objs[i]}) <= 1 /\ Len(objs') <= Len(objs) + 1 /\ (Len(objs') > Len(objs) => SubSeq(objs', 1, Len(objs)) = objs)]_vars
EmitOut == (Emit /\ Len(hist) = Depth + 1) => PrintT("@" \o ToJson(hist))
====
