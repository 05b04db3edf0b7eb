------------------------------ MODULE ReloadMC ------------------------------
(* All histories of files, reads and rounds of one node, up to Steps.       *)
EXTENDS Reload, TLC, Json
CONSTANTS Kind, Steps, Policy

Conn(p, a) == [t |-> "conn", n |-> p, s |-> a]
Base(name) == ("tally_server_info" :> Conn(1, "127.0.0.1")) @@ ("name" :> StrV(name)) @@ ("event_source" :> Conn(2, ""))
              @@ ("share_keepers" :> StrV("a")) @@ ("secret_handshake" :> StrV("s"))
              @@ (IF Kind = "sk" THEN "key" :> StrV("k") ELSE "rotate_period" :> NumV(5))
Client(form, sec) == [form |-> form, sec |-> sec, top |-> << >>]
\* good and bad in each part of the file; keys that come and go
ClientFiles ==
    {Client("ok", Base("a")), Client("ok", Base("b") @@ ("always_delay" :> BoolV(TRUE)) @@ ("note" :> StrV("x"))),
     Client("ok", ("always_delay" :> StrV("yes")) @@ Base("c")), Client("ok", ("tally_server_info" :> Conn(0, "127.0.0.1")) @@ Base("d")),
     Client("ok", [k \in DOMAIN Base("e") \ {"tally_server_info"} |-> Base("e")[k]]), Client("syntax", << >>)}
TBase(p) == ("collect_period" :> NumV(p)) @@ ("sk_threshold" :> NumV(1)) @@ ("dc_threshold" :> NumV(1)) @@ ("listen_port" :> NumV(7))
Tally(form, sec, bins, sig) ==
    [form |-> form, sec |-> sec, bins |-> bins, sig |-> sig, binsok |-> TRUE, sigok |-> TRUE, accept |-> << >>, reject |-> << >>, known |-> {"c"},
     weights |-> << ("*" :> 1) >>, dirs |-> {"."}]
C(n) == "c" :> n
TallyFiles ==
    {Tally("ok", TBase(40), C(1), C(1)), Tally("ok", TBase(60) @@ ("checkin_period" :> NumV(5)), C(2), C(2)), Tally("ok", TBase(0), C(1), C(1)),
     Tally("ok", TBase(80), C(0), C(1)), Tally("ok", TBase(80), C(1), << >>), Tally("empty", << >>, << >>, << >>)}
Files == IF Kind = "ts" THEN TallyFiles ELSE ClientFiles
Good == {F \in Files : Valid(Kind, F)}

VARIABLES x, h, began, g, ok
vars == <<x, h, began, g, ok>>
Mix(a, b) == [a EXCEPT !.sec = [k \in DOMAIN a.sec \cup DOMAIN b.sec |-> IF k \in DOMAIN b.sec /\ b.sec[k].n >= 0 THEN b.sec[k] ELSE a.sec[k]]]
\* what a node does that takes the keys one by one, or that forgets its round
Reads(y) == CASE Policy = "whole" -> Read(y, Kind)
              [] Policy = "keys" -> IF y.file.form = "ok" THEN [y EXCEPT !.force = Mix(y.force, y.file)] ELSE y
              [] Policy = "round" -> LET z == Read(y, Kind) IN IF z.round = Idle THEN z ELSE [z EXCEPT !.round = <<z.force>>]
Init == \E F \in Good : x = NewNode(F) /\ h = <<>> /\ began = Idle /\ g = <<>> /\ ok = TRUE
Do(a, y) == x' = y /\ h' = Append(h, a)
Next == /\ Len(h) < Steps
        /\ UNCHANGED <<g, ok>>
        /\ \/ \E F \in Files : F # x.file /\ Do([a |-> "edit", ok |-> Valid(Kind, F)], Edit(x, F)) /\ UNCHANGED began
           \/ Do([a |-> "read", ok |-> TRUE], Reads(x)) /\ UNCHANGED began
           \/ x.round = Idle /\ Do([a |-> "begin", ok |-> TRUE], Begin(x)) /\ began' = <<x.force>>
           \/ x.round # Idle /\ Do([a |-> "end", ok |-> TRUE], End(x)) /\ began' = Idle
Spec == Init /\ [][Next]_vars
\* the file in force is one the operator wrote, and a good one
Whole == x.force \in Good
\* reading a good file takes all of it, reading a bad one nothing
Taken == (h # <<>> /\ h[Len(h)].a = "read" /\ x.file \in Good) => x.force = x.file
Kept == [][h' # h /\ h'[Len(h')].a = "read" /\ x.file \notin Good => x'.force = x.force]_vars
\* a round goes on as it began
RoundKept == x.round = began
View == <<x, began, Len(h), IF h = <<>> THEN "" ELSE h[Len(h)].a>>
----------------------------------------------------------------------------
\* histories for the real code: which kind of file, not which file
Last == IF g = <<>> THEN "" ELSE g[Len(g)]
GInit == g = <<>> /\ ok = TRUE /\ x = 0 /\ h = <<>> /\ began = 0
GNext == /\ Len(g) < Steps
         /\ UNCHANGED <<x, h, began>>
         /\ \E a \in {"good", "bad", "back", "look", "begin", "end"} :
              /\ (a \in {"good", "bad", "back"}) => (Last \notin {"good", "bad", "back"})
              /\ (a = "look") => (Last \notin {"", "look"})
              /\ g' = Append(g, a) /\ ok' = (a # "bad")
              /\ a = "begin" => Cardinality({i \in DOMAIN g : g[i] = "begin"}) = Cardinality({i \in DOMAIN g : g[i] = "end"})
              /\ a = "end" => Cardinality({i \in DOMAIN g : g[i] = "begin"}) > Cardinality({i \in DOMAIN g : g[i] = "end"})
GSpec == GInit /\ [][GNext]_vars
Emit == IF Len(g) = Steps /\ "good" \in {g[i] : i \in DOMAIN g} THEN PrintT(<<"SCN", ToJson(g)>>) ELSE TRUE
=============================================================================
