---- MODULE LogCapture ----
(* The "Spey" logger, its initialisation, nested captures of its output and nested disabling of logging.
   A configuration is the logger's level, its propagation flag and the ordered handlers attached to it.  A capture replaces
   the configuration by its own collector; leaving it, on whatever path, must bring back the configuration it found.
   Contexts of different threads overlap: one may be left while another, entered later, is still open.  What it found is
   then what the later one has to bring back. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Emit, MaxNest, Narrow
VARIABLES cfg, dis, stack, out, nmsg, nctx, hist
vars == <<cfg, dis, stack, out, nmsg, nctx, hist>>
Levels == IF Narrow THEN {10, 30} ELSE {10, 20, 30, 40}
Streams == {"i1", "i2"}                    \* handlers made by initialisation, one per output stream
Users == {"plain", "colour"}               \* handlers a user attaches
Shown == Streams \cup Users
Cap(i) == <<"cap", i>>                     \* the collector of the context entered as the i-th
Has(c, h) == \E i \in 1..Len(c.hs) : c.hs[i] = <<h, 0>>
Drop(s, h) == SelectSeq(s, LAMBDA x : x # <<h, 0>>)
Seen(s, m) == \E i \in 1..Len(s) : s[i] = m
Fresh == [level |-> 20, prop |-> FALSE, hs |-> <<<<"i1", 0>>>>]
Init == /\ cfg = Fresh /\ dis = 0 /\ stack = <<>> /\ nmsg = 0 /\ nctx = 0
        /\ out = [s \in Shown |-> <<>>] /\ hist = <<>>
Top == stack[Len(stack)]
(* a record of level lv with text m: refused by the manager, by the logger, or handed to every handler *)
Passes(lv) == lv > dis /\ lv >= cfg.level
Times(h) == Cardinality({i \in 1..Len(cfg.hs) : cfg.hs[i] = <<h, 0>>})
Active(k) == \E i \in 1..Len(cfg.hs) : cfg.hs[i] = Cap(stack[k].id)
LogTo(lv, m) ==
  /\ out' = [s \in Shown |-> IF Passes(lv) /\ Times(s) > 0 THEN Append(out[s], m) ELSE out[s]]
  /\ stack' = [k \in 1..Len(stack) |->
        IF stack[k].kind = "cap" /\ Passes(lv) /\ lv >= stack[k].level /\ Active(k) /\ ~Seen(stack[k].got, m)
        THEN [stack[k] EXCEPT !.got = Append(@, m)] ELSE stack[k]]
Rec(op, x) == hist' = Append(hist, [op |-> op, x |-> x, cfg |-> [level |-> cfg'.level, prop |-> cfg'.prop, hs |-> cfg'.hs], dis |-> dis', out |-> out'])
Log(lv, again) ==
  /\ again => nmsg > 0
  /\ LET m == IF again THEN <<lv, nmsg>> ELSE <<lv, nmsg + 1>> IN
     /\ nmsg' = m[2] /\ LogTo(lv, m) /\ UNCHANGED <<cfg, dis, nctx>> /\ Rec("log", m)
SetLevel(lv) == cfg' = [cfg EXCEPT !.level = lv] /\ UNCHANGED <<dis, stack, out, nmsg, nctx>> /\ Rec("level", lv)
SetProp(b) == cfg' = [cfg EXCEPT !.prop = b] /\ UNCHANGED <<dis, stack, out, nmsg, nctx>> /\ Rec("prop", b)
AddUser(u) == ~Has(cfg, u) /\ cfg' = [cfg EXCEPT !.hs = Append(@, <<u, 0>>)] /\ UNCHANGED <<dis, stack, out, nmsg, nctx>> /\ Rec("add", u)
DelUser(u) == Has(cfg, u) /\ cfg' = [cfg EXCEPT !.hs = Drop(@, u)] /\ UNCHANGED <<dis, stack, out, nmsg, nctx>> /\ Rec("del", u)
(* initialisation: exactly one handler, on the given stream *)
InitLog(s) == /\ cfg' = [cfg EXCEPT !.hs = <<<<s, 0>>>>, !.prop = FALSE]
              /\ stack' = [k \in 1..Len(stack) |-> [stack[k] EXCEPT !.loose = TRUE]]
              /\ UNCHANGED <<dis, out, nmsg, nctx>> /\ Rec("init", s)
Enter(lv) == /\ Len(stack) < MaxNest
             /\ nctx' = nctx + 1
             /\ stack' = Append(stack, [kind |-> "cap", id |-> nctx + 1, level |-> lv, saved |-> cfg, dis |-> 0, got |-> <<>>, loose |-> FALSE])
             /\ cfg' = [level |-> lv, prop |-> FALSE, hs |-> <<Cap(nctx + 1)>>]
             /\ UNCHANGED <<dis, out, nmsg>> /\ Rec("enter", lv)
Disable(lv) == /\ Len(stack) < MaxNest
               /\ nctx' = nctx + 1
               /\ stack' = Append(stack, [kind |-> "dis", id |-> nctx + 1, level |-> lv, saved |-> cfg, dis |-> dis, got |-> <<>>, loose |-> FALSE])
               /\ dis' = lv /\ UNCHANGED <<cfg, out, nmsg>> /\ Rec("disable", lv)
(* leaving a context normally, or because of an error of kind e caught right outside of it: the one entered last, or another *)
Later(k) == {j \in k + 1..Len(stack) : stack[j].kind = stack[k].kind}
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Leave(k, e) ==
  LET c == stack[k] IN
  /\ IF Later(k) = {}
       THEN /\ IF c.kind = "cap" THEN cfg' = c.saved /\ UNCHANGED dis ELSE dis' = c.dis /\ UNCHANGED cfg
            /\ stack' = Without(stack, k)
       ELSE LET n == CHOOSE j \in Later(k) : \A i \in Later(k) : j <= i IN
            stack' = Without([stack EXCEPT ![n].saved = c.saved, ![n].dis = c.dis], k) /\ UNCHANGED <<cfg, dis>>
  /\ UNCHANGED <<out, nmsg, nctx>>
  /\ Rec("leave", [err |-> e, kind |-> c.kind, id |-> c.id, got |-> c.got, loose |-> c.loose \/ e # ""])
(* an error crosses every open context *)
LeaveAll(e) == /\ Len(stack) >= 2
               /\ LET caps == {k \in 1..Len(stack) : stack[k].kind = "cap"}
                      diss == {k \in 1..Len(stack) : stack[k].kind = "dis"} IN
                  /\ cfg' = IF caps = {} THEN cfg ELSE stack[CHOOSE k \in caps : \A j \in caps : k <= j].saved
                  /\ dis' = IF diss = {} THEN dis ELSE stack[CHOOSE k \in diss : \A j \in diss : k <= j].dis
               /\ stack' = <<>> /\ UNCHANGED <<out, nmsg, nctx>>
               /\ Rec("leaveall", [err |-> e])
Errors == {"ValueError", "KeyboardInterrupt", "write"}
Next == /\ Len(hist) < Depth
        /\ \/ \E lv \in Levels, a \in IF Narrow THEN {FALSE} ELSE BOOLEAN : Log(lv, a)
           \/ \E lv \in Levels : SetLevel(lv)
           \/ ~Narrow /\ \E b \in BOOLEAN : SetProp(b)
           \/ ~Narrow /\ \E u \in Users : AddUser(u) \/ DelUser(u)
           \/ ~Narrow /\ \E s \in Streams : InitLog(s)
           \/ \E lv \in Levels : Enter(lv)
           \/ ~Narrow /\ \E lv \in {20, 50} : Disable(lv)
           \/ \E e \in {""} \cup (IF Narrow THEN {} ELSE Errors) : (e = "write" => stack # <<>> /\ Top.kind = "cap" /\ ~Top.loose /\ Top.got # <<>>) /\ stack # <<>> /\ Leave(Len(stack), e)
           \/ \E k \in 1..Len(stack), e \in IF Narrow THEN {""} ELSE {"", "ValueError"} : k < Len(stack) /\ Leave(k, e)
           \/ ~Narrow /\ \E e \in {"ValueError", "SystemExit"} : LeaveAll(e)
(* -- properties of the design -- *)
RECURSIVE Unwind(_, _)
Unwind(c, k) == IF k = 0 THEN c ELSE Unwind(IF stack[k].kind = "cap" THEN stack[k].saved ELSE c, k - 1)
\* with nothing open there is no trace of any collector, and nothing is disabled
Restored == stack = <<>> => dis = 0 /\ \A i \in 1..Len(cfg.hs) : cfg.hs[i][1] # "cap"
\* what an open context will bring back never holds the collector of one that has been left
NothingStale == \A k \in 1..Len(stack) : stack[k].kind = "cap" => \A i \in 1..Len(stack[k].saved.hs) :
    stack[k].saved.hs[i][1] = "cap" => \E j \in 1..Len(stack) : stack[j].id = stack[k].saved.hs[i][2]
OneEach == \A h \in Shown : Times(h) <= 1
\* a capture collects nothing below its level
OnlyAbove == \A k \in 1..Len(stack) : \A i \in 1..Len(stack[k].got) : stack[k].got[i][1] >= stack[k].level
\* a normal handler sees nothing while a capture is innermost and untouched
Scoped == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "log" /\ stack # <<>> /\ Top.kind = "cap" /\ cfg.hs = <<Cap(Top.id)>>) => out' = out]_vars
ExactlyOneAfterInit == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "init") => Len(cfg'.hs) = 1]_vars
EmitOut == (Emit /\ Len(hist) = Depth) => PrintT("@" \o ToJson(hist))
====
