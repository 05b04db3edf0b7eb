------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* What every event of the relay adds to which counter.                    *)
(*                                                                         *)
(* A tagged event is a sequence of items [k, t, v, n]: key, type, value    *)
(* and length; a positional event is a sequence of items.  Types: "int",   *)
(* "num" (in tenths), "str", "host" (a sequence of components), "ip",      *)
(* "wild" (a number that is not finite), "bare" (no separator), "ctl" (a   *)
(* control character) and "junk".                                          *)
(* A hit is [c, v, w, r, inc]: counter, value, ..., increment; the value   *)
(* of a ratio hit is log2(v/w).                                            *)
(* All times are in tenths of a second.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Top == 2000000000                       \* infinity
One(c, inc) == [c |-> c, k |-> "one", v |-> 0, w |-> 0, inc |-> inc]
At(c, v) == [c |-> c, k |-> "at", v |-> v, w |-> 0, inc |-> 1]
Ratio(c, in, out) == [c |-> c, k |-> "ratio", v |-> out, w |-> in, inc |-> 1]
List(c, i, inc) == [c |-> c, k |-> "at", v |-> i, w |-> 0, inc |-> inc]
Named(h, c) == [h EXCEPT !.c = c]
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, << >>, ss)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* log2(out/in) >= e
RatioAtLeast(in, out, e) ==
    IF e = -Top THEN TRUE ELSE IF e = Top THEN FALSE
    ELSE IF in = 0 /\ out = 0 THEN 0 >= e
    ELSE IF in = 0 THEN TRUE
    ELSE IF out = 0 THEN FALSE
    ELSE IF e >= 0 THEN out >= in * Pow2(e) ELSE out * Pow2(-e) >= in
InBin(h, b) ==
    CASE h.k = "one" -> TRUE
      [] h.k = "at" -> h.v >= b[1] /\ (h.v < b[2] \/ b[2] = Top)
      [] h.k = "ratio" -> RatioAtLeast(h.w, h.v, b[1]) /\ ~RatioAtLeast(h.w, h.v, b[2])

(*************************** fields of tagged events ***********************)
Keys(i) == {i[n].k : n \in 1..Len(i)}
WellFormed(i) == /\ \A n \in 1..Len(i) : i[n].t \notin {"bare", "ctl"} /\ i[n].k # ""
                 /\ Cardinality(Keys(i)) = Len(i)
                 /\ Len(i) > 0
Fields(i) == [k \in Keys(i) |-> i[CHOOSE n \in 1..Len(i) : i[n].k = k]]
Has(f, k) == k \in DOMAIN f
Need(f, k) == Has(f, k)
IntOk(f, k, lo, hi) == Has(f, k) => f[k].t = "int" /\ f[k].v >= lo /\ f[k].v <= hi
Flag(f, k) == IntOk(f, k, 0, 1)
NatOk(f, k) == IntOk(f, k, 0, Top)
Num(f, k) == Has(f, k) => f[k].t \in {"int", "num"} /\ f[k].v >= 0
Str(f, k, lo, hi) == Has(f, k) => f[k].n >= lo /\ f[k].n <= hi
Ip(f, k) == Has(f, k) => f[k].t = "ip"
\* values
V(f, k, d) == IF Has(f, k) THEN f[k].v ELSE d
Tenths(f, k) == IF f[k].t = "int" THEN 10 * f[k].v ELSE f[k].v
On(f, k) == Has(f, k) /\ f[k].v = 1
Max2(a, b) == IF a > b THEN a ELSE b

\* the index of the first list that has x, or infinity
RECURSIVE Find(_, _, _)
Find(ls, x, i) == IF i > Len(ls) THEN Top
                  ELSE IF \E n \in 1..Len(ls[i]) : ls[i][n] = x THEN i - 1 ELSE Find(ls, x, i + 1)
Ends(s, host) == Len(s) <= Len(host) /\ SubSeq(host, Len(host) - Len(s) + 1, Len(host)) = s
RECURSIVE FindSuffix(_, _, _)
FindSuffix(ls, x, i) == IF i > Len(ls) THEN Top
                        ELSE IF \E n \in 1..Len(ls[i]) : Ends(ls[i][n], x) THEN i - 1 ELSE FindSuffix(ls, x, i + 1)

(******************************** streams **********************************)
Interactive == {22, 194, 994} \cup (6660..6670) \cup {6679, 6697, 7000}
P2P == {1214} \cup (4661..4666) \cup (6346..6429) \cup {6699} \cup (6881..6999) \cup {45682, 51413}
Class(port) == IF port \in {80, 443} THEN "Web" ELSE IF port \in Interactive THEN "Interactive"
               ELSE IF port \in P2P THEN "P2P" ELSE "OtherPort"
Classes == <<"Web", "Interactive", "P2P", "OtherPort">>

StreamOk(p) ==
    /\ Len(p) = 11
    /\ \A n \in {1, 2, 3, 4, 5, 6, 11} : p[n].t = "int"
    /\ \A n \in {7, 8} : p[n].t \in {"int", "num"}
    /\ p[5].v >= 0 /\ p[6].v >= 0 /\ p[5].v + p[6].v > 0
PT(p, n) == IF p[n].t = "int" THEN 10 * p[n].v ELSE p[n].v

StreamSizes(c, read, write) == <<At("Exit" \o c \o "StreamByteHistogram", read + write),
    At("Exit" \o c \o "StreamOutboundByteHistogram", write), At("Exit" \o c \o "StreamInboundByteHistogram", read),
    Ratio("Exit" \o c \o "StreamByteRatio", read, write)>>
StreamSpread(c, p) == StreamSizes(c, p[5].v, p[6].v) \o <<At("Exit" \o c \o "StreamLifeTime", PT(p, 8) - PT(p, 7))>>
StreamAll(c, p) ==
    <<One("Exit" \o c \o "StreamCount", 1), One("Exit" \o c \o "StreamByteCount", p[5].v + p[6].v),
      One("Exit" \o c \o "StreamOutboundByteCount", p[6].v), One("Exit" \o c \o "StreamInboundByteCount", p[5].v)>>
    \o StreamSpread(c, p)
StreamLists(c, i, p) ==
    <<List("Exit" \o c \o "StreamCountList", i, 1), List("Exit" \o c \o "StreamByteCountList", i, p[5].v + p[6].v),
      List("Exit" \o c \o "StreamOutboundByteCountList", i, p[6].v), List("Exit" \o c \o "StreamInboundByteCountList", i, p[5].v)>>

StreamHits(p, L) ==
    LET class == Class(p[4].v)
        web == IF class = "Web" THEN "Web" ELSE "NonWeb"
        circ == IF p[11].v = 1 THEN "Initial" ELSE "Subsequent"
        host == IF p[9].t = "ip" THEN "IPv" \o ToString(p[9].ver) \o "Literal" ELSE "Hostname"
        name == host = "Hostname"
        ip == IF p[10].t = "ip" THEN <<"IPv" \o ToString(p[10].ver), "IPv" \o ToString(p[10].ver) \o circ>> ELSE << >>
        cats == <<"", class, host, circ, host \o circ>> \o ip
                \o (IF web = "NonWeb" THEN <<"NonWeb">> ELSE << >>)
                \o (IF name THEN <<"Hostname" \o web, "Hostname" \o web \o circ>> ELSE << >>)
        dom == IF p[9].t = "host" THEN p[9].v ELSE << >>
        ex == Find(L.dom, dom, 1)
        su == FindSuffix(L.suf, dom, 1)
        match(kind, i) == StreamSpread("Domain" \o (IF i = 0 THEN "" ELSE "No") \o kind \o "MatchWebInitial", p)
                          \o StreamLists("Domain" \o kind \o "MatchWebInitial", i, p)
    IN Cat([n \in 1..Len(cats) |-> StreamAll(cats[n], p)])
       \o (IF name /\ web = "Web" /\ circ = "Initial" THEN match("Exact", ex) \o match("Suffix", su) ELSE << >>)

(******************************** circuits *********************************)
CommonFlags == <<"IsOriginFlag", "IsEntryFlag", "IsMidFlag", "IsEndFlag", "IsExitFlag", "IsDirFlag", "IsHSDirFlag",
    "IsIntroFlag", "IsClientIntroLegacyFlag", "IsRendFlag", "IsHSClientSideFlag", "IsMarkedForCloseFlag",
    "HasReceivedCreateCellFlag">>
CommonOk(f, p) ==
    /\ Num(f, "EventTimestamp")
    /\ \A d \in {"Next", "Previous"} : \A k \in {"ChannelId", "CircuitId"} : NatOk(f, p \o d \o k)
    /\ \A n \in 1..Len(CommonFlags) : Flag(f, p \o CommonFlags[n])
    /\ IntOk(f, p \o "HiddenServiceVersionNumber", 2, 3)
    /\ IntOk(f, p \o "OnionHandshakeType", 0, 2)
    /\ Str(f, p \o "FailureReasonString", 1, 50)
    /\ IntOk(f, p \o "ExitStreamCount", 1, Top)
NodeOk(f, p) == /\ Ip(f, p \o "NodeIPAddress") /\ Str(f, p \o "NodeFingerprint", 40, 40)
                /\ (Has(f, p \o "NodeRelayFlagList") => f[p \o "NodeRelayFlagList"].m \in 1..20)
CircuitOk(f) ==
    /\ Need(f, "EventTimestamp") /\ CommonOk(f, "")
    /\ Need(f, "CreatedTimestamp") /\ Num(f, "CreatedTimestamp")
    /\ Need(f, "IsLegacyCircuitEndEventFlag") /\ Flag(f, "IsLegacyCircuitEndEventFlag")
    /\ Need(f, "StateString") /\ Str(f, "StateString", 1, 50)
    /\ Need(f, "PurposeCode") /\ IntOk(f, "PurposeCode", 1, 20)
    /\ Str(f, "PurposeString", 1, 50) /\ Str(f, "HSStateString", 1, 50)
    /\ NodeOk(f, "Previous") /\ NodeOk(f, "Next")
    /\ CommonOk(f, "IntroClientSink") /\ CommonOk(f, "RendSplice")
    /\ \A d \in {"Inbound", "Outbound"} :
         \A k \in {"SentCellCount", "ReceivedCellCount", "ExitCellCount", "ExitByteCount", "DirByteCount"} : NatOk(f, d \o k)
Cells(f, d) == Max2(Max2(V(f, d \o "ReceivedCellCount", 0), V(f, d \o "SentCellCount", 0)), V(f, d \o "ExitCellCount", 0))

\* prefix[Activity][Status]Circuitsuffix; exit, directory and HSDir circuits have no activity
Kinds(prefix, whole, active, failed) ==
    LET a == IF active THEN "Active" ELSE "Inactive"
        s == IF failed THEN "Failure" ELSE "Success"
    IN <<prefix, prefix \o s>> \o (IF whole THEN << >> ELSE <<prefix \o a, prefix \o a \o s>>)
\* the prefixes of the counters of a circuit
CircuitPrefixes(f, exit, active) ==
    LET failed == Has(f, "FailureReasonString")
        single == On(f, "IsEntryFlag") /\ On(f, "IsEndFlag")
        k(on, p, whole) == IF on THEN Kinds(p, whole, active, failed) ELSE << >>
        place == IF On(f, "IsHSDirFlag") THEN "HSDir" ELSE IF On(f, "IsIntroFlag") THEN "Intro"
                 ELSE IF On(f, "IsRendFlag") THEN "Rend" ELSE ""
        role == IF ~Has(f, "IsHSClientSideFlag") THEN "" ELSE IF On(f, "IsHSClientSideFlag") THEN "Client" ELSE "Service"
        hop == IF ~single THEN "MultiHop" ELSE IF role = "Client" THEN "Tor2Web" ELSE "SingleOnion"
        ver == IF Has(f, "HiddenServiceVersionNumber") THEN ToString(f["HiddenServiceVersionNumber"].v) ELSE "U"
        who == IF role = "" THEN <<"">> ELSE <<"", role, hop \o role>>
    IN k(On(f, "IsOriginFlag"), "Origin", FALSE) \o k(On(f, "IsEntryFlag"), "Entry", FALSE)
       \o k(On(f, "IsMidFlag"), "Mid", FALSE) \o k(On(f, "IsEndFlag"), "End", FALSE)
       \o k(single, "SingleHop", FALSE) \o k(exit, "Exit", TRUE) \o k(On(f, "IsDirFlag"), "Dir", TRUE)
       \o (IF place = "" THEN << >>
           ELSE Cat([n \in 1..Len(who) |-> k(TRUE, place \o who[n], place = "HSDir")
                                           \o k(TRUE, place \o ver \o who[n], place = "HSDir")]))
IsExit(f) == On(f, "IsExitFlag") /\ ~\E k \in {"IsDirFlag", "IsHSDirFlag", "IsIntroFlag", "IsRendFlag"} : On(f, k)
CircuitHits(f, L) ==
    LET exit == IsExit(f)
        in == Cells(f, "Inbound")
        out == Cells(f, "Outbound")
        active == IF (On(f, "IsIntroFlag") \/ On(f, "IsRendFlag")) /\ ~Has(f, "HiddenServiceVersionNumber") THEN FALSE
                  ELSE exit \/ On(f, "IsDirFlag") \/ On(f, "IsHSDirFlag") \/ in + out >= 8
        ps == CircuitPrefixes(f, exit, active)
        c(p) == p \o "Circuit"
        all(p) == <<One(c(p) \o "Count", 1), One(c(p) \o "InboundCellCount", in), One(c(p) \o "OutboundCellCount", out),
                    At(c(p) \o "InboundCellHistogram", in), At(c(p) \o "OutboundCellHistogram", out),
                    At(c(p) \o "LifeTime", Tenths(f, "EventTimestamp") - Tenths(f, "CreatedTimestamp"))>>
                  \o (IF active THEN <<Ratio(c(p) \o "CellRatio", in, out)>> ELSE << >>)
                  \o (IF Has(f, "FailureReasonString")
                      THEN <<List(c(p) \o "ReasonCountList", Find(L.fail, f["FailureReasonString"].v, 1), 1)>> ELSE << >>)
        rend2 == On(f, "IsRendFlag") /\ V(f, "HiddenServiceVersionNumber", 0) = 2 /\ Has(f, "IsHSClientSideFlag")
        both == IF exit THEN <<"Client", "Service">>
                ELSE IF rend2 THEN <<IF On(f, "IsHSClientSideFlag") THEN "Client" ELSE "Service">> ELSE << >>
    IN Cat([n \in 1..Len(ps) |-> all(ps[n])])
       \o [n \in 1..Len(both) |-> One("ExitAndRend2" \o both[n] \o "CircuitCount", 1)]

\* streams known on a circuit: a sequence of <<class, start>>
Gaps(starts) == LET s == SortSeq(starts, LAMBDA a, b : a < b) IN [n \in 1..(Len(s) - 1) |-> s[n + 1] - s[n]]
KnownHits(ss) ==
    LET of(c) == SelectSeq(ss, LAMBDA x : c = "" \/ x[1] = c)
        hits(c) == LET x == of(c)
                       g == Gaps([n \in 1..Len(x) |-> x[n][2]]) IN
            IF x = << >> THEN << >>
            ELSE <<At("ExitCircuit" \o c \o "StreamHistogram", Len(x))>>
                 \o [n \in 1..Len(g) |-> At("ExitCircuit" \o c \o "InterStreamCreationTime", g[n])]
                 \o (IF c = "" THEN << >> ELSE <<One("Exit" \o c \o "CircuitCount", 1)>>)
    IN hits("") \o Cat([n \in 1..4 |-> hits(Classes[n])])

\* the older counters, for circuits the relay marks: state s is changed too
LegacyFields == {"PreviousChannelId", "PreviousCircuitId", "InboundExitByteCount", "OutboundExitByteCount"}
Blank == [act |-> FALSE, na |-> 0, ni |-> 0]
Look(m, ip) == IF ip \in DOMAIN m THEN m[ip] ELSE Blank
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Drop(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
IpOf(f, k) == IF Has(f, k) THEN f[k].v ELSE "4:0"
Legacy(s, f) ==
    IF ~On(f, "IsLegacyCircuitEndEventFlag") \/ \E k \in LegacyFields : ~Has(f, k) THEN [s |-> s, hits |-> << >>]
    ELSE IF On(f, "IsEntryFlag")
         THEN LET ip == IpOf(f, "PreviousNodeIPAddress")
                  act == Cells(f, "Inbound") + Cells(f, "Outbound") >= 8
                  c == Look(s.cur, ip)
                  c2 == [act |-> c.act \/ act, na |-> c.na + (IF act THEN 1 ELSE 0), ni |-> c.ni + (IF act THEN 0 ELSE 1)]
                  p == Look(s.prev, ip)
                  old == Tenths(f, "CreatedTimestamp") < s.rot
              IN [s |-> [s EXCEPT !.cur = Put(@, ip, c2), !.prev = IF old THEN Put(@, ip, [p EXCEPT !.act = @ \/ act]) ELSE @],
                  hits |-> << >>]
    ELSE IF IsExit(f)
         THEN LET k == <<f["PreviousChannelId"].v, f["PreviousCircuitId"].v>> IN
              IF k \in DOMAIN s.circ THEN [s |-> [s EXCEPT !.circ = Drop(@, k)], hits |-> KnownHits(s.circ[k])]
              ELSE [s |-> s, hits |-> << >>]
    ELSE [s |-> s, hits |-> << >>]

(**************************** unique clients *******************************)
RotateHits(s) ==
    LET ips == SetToSeq(DOMAIN s.prev)
        act == Cardinality({i \in DOMAIN s.prev : s.prev[i].act})
    IN Cat([n \in 1..Len(ips) |-> <<At("EntryClientIPActiveCircuitHistogram", s.prev[ips[n]].na),
                                    At("EntryClientIPInactiveCircuitHistogram", s.prev[ips[n]].ni)>>])
       \o <<One("EntryClientIPCount", Len(ips)), One("EntryActiveClientIPCount", act),
            One("EntryInactiveClientIPCount", Len(ips) - act)>>

(****************************** connections ********************************)
ConnectionOk(f) ==
    /\ Need(f, "EventTimestamp") /\ Num(f, "EventTimestamp")
    /\ Need(f, "CreatedTimestamp") /\ Num(f, "CreatedTimestamp")
    /\ Need(f, "ChannelId") /\ NatOk(f, "ChannelId")
    /\ Need(f, "RemoteIsClientFlag") /\ Flag(f, "RemoteIsClientFlag")
    /\ Need(f, "RemoteIPAddress") /\ Ip(f, "RemoteIPAddress")
    /\ Need(f, "RemoteIPAddressConnectionCount") /\ IntOk(f, "RemoteIPAddressConnectionCount", 0, 131072)
    /\ Need(f, "PeerIPAddressConsensusRelayCount") /\ IntOk(f, "PeerIPAddressConsensusRelayCount", 0, 100)
    /\ Ip(f, "PeerIPAddress")
    /\ \A d \in {"Inbound", "Outbound"} : NatOk(f, d \o "ByteCount") /\ NatOk(f, d \o "CircuitCount")
    /\ Str(f, "RemoteCountryCode", 2, 2)
ConnectionHits(f, L) ==
    LET side == IF On(f, "RemoteIsClientFlag") THEN "Entry" ELSE "NonEntry"
        ps == <<side, side \o (IF f["PeerIPAddressConsensusRelayCount"].v > 0 THEN "RelayOnAddress" ELSE "NoRelayOnAddress")>>
        ib == V(f, "InboundByteCount", 0)
        ob == V(f, "OutboundByteCount", 0)
        ic == V(f, "InboundCircuitCount", 0)
        oc == V(f, "OutboundCircuitCount", 0)
        amounts == <<<<"", 1>>, <<"Byte", ib + ob>>, <<"InboundByte", ib>>, <<"OutboundByte", ob>>,
                     <<"Circuit", ic + oc>>, <<"InboundCircuit", ic>>, <<"OutboundCircuit", oc>>>>
        spread(x) == [n \in 1..6 |-> At(x \o amounts[n + 1][1] \o "Histogram", amounts[n + 1][2])]
                     \o <<At(x \o "LifeTime", Tenths(f, "EventTimestamp") - Tenths(f, "CreatedTimestamp")),
                          At(x \o "OverlapHistogram", f["RemoteIPAddressConnectionCount"].v)>>
        counts(x) == [n \in 1..7 |-> One(x \o amounts[n][1] \o "Count", amounts[n][2])]
        lists(x, i) == [n \in 1..7 |-> List(x \o amounts[n][1] \o "CountList", i, amounts[n][2])]
        cc == Find(L.country, IF Has(f, "RemoteCountryCode") THEN f["RemoteCountryCode"].v ELSE "!!", 1)
        as == Find(L.as, f["RemoteIPAddress"].as, 1)
        one(p) == LET x == p \o "Connection" IN
            counts(x) \o spread(x)
            \o spread(x \o (IF cc = 0 THEN "CountryMatch" ELSE "CountryNoMatch")) \o lists(x \o "CountryMatch", cc)
            \o spread(x \o (IF as = 0 THEN "ASMatch" ELSE "ASNoMatch")) \o lists(x \o "ASMatch", as)
    IN one(ps[1]) \o one(ps[2])

(*************************** descriptor caches *****************************)
Only(f, k, v) == Has(f, k) => f["HiddenServiceVersionNumber"].v = v
HSDirOk(f) ==
    /\ Need(f, "HiddenServiceVersionNumber") /\ IntOk(f, "HiddenServiceVersionNumber", 2, 3)
    /\ Need(f, "EventTimestamp") /\ Num(f, "EventTimestamp")
    /\ Need(f, "CacheReasonString") /\ Str(f, "CacheReasonString", 1, 50)
    /\ Flag(f, "HasExistingCacheEntryFlag")
    /\ LET max == IF f["HiddenServiceVersionNumber"].v = 2 THEN 40960 ELSE 1048576 IN
       IntOk(f, "EncodedIntroPointByteCount", 0, max) /\ IntOk(f, "EncodedDescriptorByteCount", 0, max)
    /\ (Has(f, "EncodedIntroPointByteCount") /\ Has(f, "EncodedDescriptorByteCount"))
         => f["EncodedIntroPointByteCount"].v <= f["EncodedDescriptorByteCount"].v
    /\ IntOk(f, "IntroPointCount", 0, 10) /\ Flag(f, "RequiresClientAuthFlag")
    /\ Num(f, "DescriptorCreationTime")
    /\ Str(f, "DescriptorIdBase32String", 32, Top) /\ Str(f, "OnionAddress", 16, 16)
    /\ NatOk(f, "RevisionNumber") /\ Str(f, "BlindedEd25519PublicKeyBase64String", 43, 43)
    /\ \A k \in {"IntroPointCount", "RequiresClientAuthFlag", "DescriptorCreationTime", "OnionAddress",
                 "SupportedProtocolBitfield", "IntroPointFingerprintList"} : Only(f, k, 2)
    /\ \A k \in {"RevisionNumber", "DescriptorLifetime", "BlindedEd25519PublicKeyBase64String"} : Only(f, k, 3)
StoreOk(f) == HSDirOk(f) /\ Need(f, "WasAddedToCacheFlag") /\ Flag(f, "WasAddedToCacheFlag")
FetchOk(f) ==
    /\ HSDirOk(f) /\ Need(f, "CacheQueryByteCount") /\ NatOk(f, "CacheQueryByteCount")
    /\ Flag(f, "HasCacheEntryFlag") /\ NatOk(f, "CacheLastServedTime") /\ Only(f, "CacheLastServedTime", 2)
    /\ NatOk(f, "CacheCreatedTime") /\ Only(f, "CacheCreatedTime", 3)
\* all ways to leave out some of the words, in order
Subwords(ws) == FoldLeft(LAMBDA acc, w : acc \o [n \in 1..Len(acc) |-> acc[n] \o w], <<"">>, ws)
CacheHits(f, verb, words, reasons, L) ==
    LET ver == ToString(f["HiddenServiceVersionNumber"].v)
        auth == IF Has(f, "RequiresClientAuthFlag") THEN <<IF On(f, "RequiresClientAuthFlag") THEN "ClientAuth" ELSE "NoClientAuth">>
                ELSE << >>
        any == LET w == Subwords(words) IN [n \in 1..Len(w) |-> "HSDir" \o verb \o w[n]]
        own == LET w == Subwords(words \o auth) IN [n \in 1..Len(w) |-> "HSDir" \o ver \o verb \o w[n]]
        size(k, s, ps) == IF ~Has(f, k) THEN << >>
                          ELSE Cat([n \in 1..Len(ps) |-> <<One(ps[n] \o s \o "ByteCount", f[k].v),
                                                           At(ps[n] \o s \o "ByteHistogram", f[k].v)>>])
        each(ps) == [n \in 1..Len(ps) |-> One(ps[n] \o "Count", 1)]
                    \o size("EncodedIntroPointByteCount", "Intro", ps) \o size("EncodedDescriptorByteCount", "Descriptor", ps)
                    \o [n \in 1..Len(ps) |-> List(ps[n] \o "ReasonCountList", Find(reasons, f["CacheReasonString"].v, 1), 1)]
        only(k, h(_)) == IF Has(f, k) THEN [n \in 1..Len(own) |-> h(own[n])] ELSE << >>
    IN each(any) \o each(own)
       \o only("OnionAddress", LAMBDA p : List(p \o "OnionAddressCountList", Find(L.onion, f["OnionAddress"].v, 1), 1))
       \o only("IntroPointCount", LAMBDA p : At(p \o "IntroPointHistogram", f["IntroPointCount"].v))
       \o only("RevisionNumber", LAMBDA p : At(p \o "RevisionHistogram", f["RevisionNumber"].v))
       \o (IF verb = "Store"
           THEN only("DescriptorCreationTime", LAMBDA p : At(p \o "UploadDelayTime",
                                                             Tenths(f, "EventTimestamp") - Tenths(f, "DescriptorCreationTime")))
           ELSE << >>)
StoreHits(f, L) == CacheHits(f, "Store", <<IF On(f, "WasAddedToCacheFlag") THEN "Add" ELSE "Reject",
                                           IF On(f, "HasExistingCacheEntryFlag") THEN "Cached" ELSE "Uncached">>, L.store, L)
FetchHits(f, L) == CacheHits(f, "Fetch", <<IF On(f, "HasCacheEntryFlag") THEN "Cached" ELSE "Uncached">>, L.fetch, L)

(******************************** the counts *******************************)
\* counters: a function from names to sequences of <<lo, hi, count>>
Add1(tot, h) == IF h.c \notin DOMAIN tot THEN tot
                ELSE [tot EXCEPT ![h.c] = [n \in 1..Len(@) |-> IF InBin(h, @[n]) THEN [@[n] EXCEPT ![3] = @ + h.inc] ELSE @[n]]]
AddAll(tot, hits) == FoldLeft(Add1, tot, hits)

NewRound(tot, now, period) == [tot |-> tot, circ |-> << >>, cur |-> << >>, prev |-> << >>, rot |-> now,
                               next |-> now + period, period |-> period]
RECURSIVE Pass(_, _)
\* time passes until t
Pass(s, t) == IF s.next > t THEN s
              ELSE Pass([s EXCEPT !.tot = AddAll(@, RotateHits(s)), !.prev = s.cur, !.cur = << >>, !.rot = s.next,
                                  !.next = @ + s.period], t)

Event(s, name, items, L) ==
    IF name = "STREAM_ENDED"
    THEN IF ~StreamOk(items) THEN s
         ELSE LET k == <<items[1].v, items[2].v>>
                  known == IF k \in DOMAIN s.circ THEN s.circ[k] ELSE << >> IN
              [s EXCEPT !.tot = AddAll(@, StreamHits(items, L)),
                        !.circ = Put(@, k, Append(known, <<Class(items[4].v), PT(items, 7)>>))]
    ELSE IF ~WellFormed(items) THEN s
    ELSE LET f == Fields(items) IN
         CASE name = "CIRCUIT_CLOSE" /\ CircuitOk(f) ->
                LET l == Legacy(s, f) IN [l.s EXCEPT !.tot = AddAll(AddAll(@, l.hits), CircuitHits(f, L))]
           [] name = "CONNECTION_CLOSE" /\ ConnectionOk(f) -> [s EXCEPT !.tot = AddAll(@, ConnectionHits(f, L))]
           [] name = "HSDIR_CACHE_STORE" /\ StoreOk(f) -> [s EXCEPT !.tot = AddAll(@, StoreHits(f, L))]
           [] name = "HSDIR_CACHE_FETCH" /\ FetchOk(f) -> [s EXCEPT !.tot = AddAll(@, FetchHits(f, L))]
           [] OTHER -> s

(********************* which events a counter is made of *******************)
=============================================================================
