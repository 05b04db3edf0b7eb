------------------------------ MODULE EventsMC ------------------------------
(***************************************************************************)
(* Every kind of event, and the laws its counts obey: each counter is hit  *)
(* at most once by an event, refined counters add up to the counter they   *)
(* refine, and every counter of the table is hit by some event.            *)
(***************************************************************************)
EXTENDS Events, IOUtils, Json
CONSTANTS Family, Wide
VARIABLES e, H

It(k, t, v) == [k |-> k, t |-> t, v |-> v, n |-> 1, m |-> 1]
N(k, v) == It(k, "int", v)
Word(k, v, n) == [It(k, "str", v) EXCEPT !.n = n]
Ip4(k) == [k |-> k, t |-> "ip", v |-> "4:1", n |-> 1, m |-> 1, ver |-> 4, as |-> 7]
Ip6(k) == [k |-> k, t |-> "ip", v |-> "6:1", n |-> 1, m |-> 1, ver |-> 6, as |-> -1]
Opt(k, x) == IF x = "none" THEN << >> ELSE <<N(k, IF x = "yes" THEN 1 ELSE 0)>>

Lists == [dom |-> <<<<<<"a", "com">>>>, <<<<"b", "org">>>>>>, suf |-> <<<<<<"com">>>>, <<<<"b", "org">>>>>>,
          country |-> <<<<"us">>, <<"de">>>>, as |-> <<<<7>>>>, store |-> <<<<"kept">>>>, fetch |-> <<<<"found">>, <<"gone">>>>,
          fail |-> <<<<"early">>, <<"late">>>>, onion |-> <<<<"facebookcorewwwi">>>>]

(* streams *)
Hosts == {Ip4(""), Ip6("")} \cup {It("", "host", h) : h \in {<<"a", "com">>, <<"x", "com">>, <<"b", "org">>, <<"c", "net">>}}
Streams == [port : {80, 443, 22, 1214, 9}, host : Hosts, ip : {Ip4(""), Ip6(""), Word("", "none", 4)}, first : {1, 2}, read : {0, 1, 8}, write : {0, 1, 9}]
StreamItems(x) == <<N("", 1), N("", 1), N("", 1), N("", x.port), N("", x.read), N("", x.write), N("", 3), N("", 5), x.host, x.ip, N("", x.first)>>

(* circuits *)
Tri == {"none", "no", "yes"}
Bits == {"no", "yes"}
CircuitsWide == [origin : Bits, entry : Bits, mid : Bits, end : Bits, exit : Bits, dir : Bits, hsdir : Bits, intro : Bits, rend : Bits,
                 client : Tri, ver : {0, 2, 3}, failed : {"", "early", "other"}, in : {0, 3}, out : {0, 5}]
Place == {[exit |-> a = 1, dir |-> a = 2, hsdir |-> a = 3, intro |-> a = 4, rend |-> a = 5] : a \in 0..5}
Role == {[origin |-> a = 1, entry |-> a \in {2, 5}, mid |-> a = 3, end |-> a \in {4, 5}] : a \in 1..5}
Yn(b) == IF b THEN "yes" ELSE "none"
Circuits == {[origin |-> Yn(r.origin), entry |-> Yn(r.entry), mid |-> Yn(r.mid), end |-> Yn(r.end), exit |-> Yn(p.exit), dir |-> Yn(p.dir),
              hsdir |-> Yn(p.hsdir), intro |-> Yn(p.intro), rend |-> Yn(p.rend), client |-> c, ver |-> v, failed |-> f, in |-> i, out |-> 5] :
             r \in Role, p \in Place, c \in Tri, v \in {0, 2, 3}, f \in {"", "early"}, i \in {0, 3}}
CircuitItems(x) ==
    <<N("EventTimestamp", 9), N("CreatedTimestamp", 4), N("IsLegacyCircuitEndEventFlag", 1), Word("StateString", "open", 4), N("PurposeCode", 5)>>
    \o Opt("IsOriginFlag", x.origin) \o Opt("IsEntryFlag", x.entry) \o Opt("IsMidFlag", x.mid) \o Opt("IsEndFlag", x.end)
    \o Opt("IsExitFlag", x.exit) \o Opt("IsDirFlag", x.dir) \o Opt("IsHSDirFlag", x.hsdir) \o Opt("IsIntroFlag", x.intro) \o Opt("IsRendFlag", x.rend)
    \o Opt("IsHSClientSideFlag", x.client) \o (IF x.ver = 0 THEN << >> ELSE <<N("HiddenServiceVersionNumber", x.ver)>>)
    \o (IF x.failed = "" THEN << >> ELSE <<Word("FailureReasonString", x.failed, 5)>>)
    \o <<N("InboundReceivedCellCount", x.in), N("OutboundSentCellCount", x.out), N("PreviousChannelId", 1), N("PreviousCircuitId", 1),
         N("InboundExitByteCount", 1), N("OutboundExitByteCount", 1)>>

(* connections *)
Connections == [client : Bits, relays : {0, 3}, cc : {"", "us", "de", "fr"}, ip : {Ip4("RemoteIPAddress"), Ip6("RemoteIPAddress")},
                ib : {0, 4}, ob : {0, 5}, ic : {0, 6}, oc : {0, 7}]
ConnectionItems(x) ==
    <<N("EventTimestamp", 9), N("CreatedTimestamp", 4), N("ChannelId", 1), N("RemoteIsClientFlag", IF x.client = "yes" THEN 1 ELSE 0), x.ip,
      N("RemoteIPAddressConnectionCount", 2), N("PeerIPAddressConsensusRelayCount", x.relays), N("InboundByteCount", x.ib), N("OutboundByteCount", x.ob),
      N("InboundCircuitCount", x.ic), N("OutboundCircuitCount", x.oc)>>
    \o (IF x.cc = "" THEN << >> ELSE <<Word("RemoteCountryCode", x.cc, 2)>>)

(* descriptors *)
Descriptors == [store : BOOLEAN, ver : {2, 3}, added : Bits, cached : Tri, reason : {"kept", "found", "gone"}, auth : Tri, sizes : Bits, more : Bits]
DescriptorItems(x) ==
    <<N("HiddenServiceVersionNumber", x.ver), N("EventTimestamp", 9), Word("CacheReasonString", x.reason, 5)>>
    \o (IF x.store THEN Opt("WasAddedToCacheFlag", x.added) \o Opt("HasExistingCacheEntryFlag", x.cached)
        ELSE <<N("CacheQueryByteCount", 2)>> \o Opt("HasCacheEntryFlag", x.cached))
    \o (IF x.sizes = "yes" THEN <<N("EncodedIntroPointByteCount", 4), N("EncodedDescriptorByteCount", 9)>> ELSE << >>)
    \o (IF x.ver = 2 THEN Opt("RequiresClientAuthFlag", x.auth) ELSE << >>)
    \o (IF x.more = "no" THEN << >>
        ELSE IF x.ver = 2 THEN <<N("IntroPointCount", 3), Word("OnionAddress", "facebookcorewwwi", 16), N("DescriptorCreationTime", 2)>>
        ELSE <<N("RevisionNumber", 5)>>)

Hits(fam, x) ==
    CASE fam = "stream" -> IF StreamOk(StreamItems(x)) THEN StreamHits(StreamItems(x), Lists) ELSE << >>
      [] fam = "circuit" -> IF CircuitOk(Fields(CircuitItems(x))) THEN CircuitHits(Fields(CircuitItems(x)), Lists) ELSE << >>
      [] fam = "connection" -> IF ConnectionOk(Fields(ConnectionItems(x))) THEN ConnectionHits(Fields(ConnectionItems(x)), Lists) ELSE << >>
      [] fam = "descriptor" -> LET f == Fields(DescriptorItems(x)) IN
            IF x.store THEN (IF StoreOk(f) THEN StoreHits(f, Lists) ELSE << >>) ELSE (IF FetchOk(f) THEN FetchHits(f, Lists) ELSE << >>)
AllOf(fam) == CASE fam = "stream" -> Streams [] fam = "circuit" -> (IF Wide THEN CircuitsWide ELSE Circuits)
                  [] fam = "connection" -> Connections [] fam = "descriptor" -> Descriptors
Names(fam, xs) == UNION {{h.c : h \in ToSet(Hits(fam, x))} : x \in xs}
\* one stream of every class on a circuit, two of one of them
Late == {h.c : h \in ToSet(Cat([n \in 1..4 |-> KnownHits(<<<<Classes[n], 1>>, <<Classes[n], 3>>>>)]) \o RotateHits([prev |-> [i \in {"4:1"} |-> Blank]]))}

Init == e \in AllOf(Family) /\ H = << >>
Next == H = << >> /\ H' = Hits(Family, e) /\ UNCHANGED e
Spec == Init /\ [][Next]_<<e, H>>

(* every counter of the table is counted, and only those *)
Table(z) == ToSet(JsonDeserialize(IOEnv.NAMES))
Counted(z) == Names("stream", Streams) \cup Names("circuit", Circuits) \cup Names("connection", Connections)
           \cup Names("descriptor", Descriptors) \cup Late
\* introduction and rendezvous circuits of an unknown version have no peer: they are not active
Never(z) == {p \o "U" \o w \o "Active" \o st \o "Circuit" \o s :
            p \in {"Intro", "Rend"}, w \in {"", "Client", "Service", "Tor2WebClient", "SingleOnionService", "MultiHopClient", "MultiHopService"},
            st \in {"", "Success", "Failure"},
            s \in {"Count", "InboundCellCount", "OutboundCellCount", "InboundCellHistogram", "OutboundCellHistogram", "CellRatio", "LifeTime", "ReasonCountList"}}
ASSUME Wide \/ Family # "stream" \/
    LET table == Table(0)  counted == Counted(0)  never == Never(0)
        missing == {c \in table : c \notin counted /\ c \notin never}
        odd == {c \in never : c \in counted}
    IN IF missing = {} /\ odd = {} THEN TRUE ELSE PrintT(<<"no event is counted in", missing, "wrongly counted", odd>>) /\ FALSE

(* laws *)
OnlyOnce == Cardinality({h.c : h \in ToSet(H)}) = Len(H)
Sum(c) == FoldLeft(LAMBDA a, h : IF h.c = c THEN a + h.inc ELSE a, 0, H)
Is(c) == \E n \in 1..Len(H) : H[n].c = c
AddUp(whole, parts) == Sum(whole) = FoldLeft(LAMBDA a, p : a + Sum(p), 0, parts)
Fmt(a, m, b) == a \o m \o b

StreamLaws == Family = "stream" /\ H # << >> =>
    \A s \in {"StreamCount", "StreamByteCount", "StreamOutboundByteCount", "StreamInboundByteCount"} :
      /\ AddUp("Exit" \o s, [n \in 1..4 |-> "Exit" \o Classes[n] \o s])
      /\ AddUp("Exit" \o s, <<"ExitWeb" \o s, "ExitNonWeb" \o s>>)
      /\ AddUp("Exit" \o s, <<"ExitHostname" \o s, "ExitIPv4Literal" \o s, "ExitIPv6Literal" \o s>>)
      /\ AddUp("ExitHostname" \o s, <<"ExitHostnameWeb" \o s, "ExitHostnameNonWeb" \o s>>)
      /\ \A c \in {"", "Hostname", "HostnameWeb", "HostnameNonWeb", "IPv4", "IPv6", "IPv4Literal", "IPv6Literal"} :
           AddUp("Exit" \o c \o s, <<"Exit" \o c \o "Initial" \o s, "Exit" \o c \o "Subsequent" \o s>>)
      /\ \A k \in {"Exact", "Suffix"} :
           /\ Sum("ExitDomain" \o k \o "MatchWebInitial" \o s \o "List") = Sum("ExitHostnameWebInitial" \o s)
           /\ Is("ExitDomain" \o k \o "MatchWebInitialStreamLifeTime") # Is("ExitDomainNo" \o k \o "MatchWebInitialStreamLifeTime")
                \/ Sum("ExitHostnameWebInitialStreamCount") = 0
      /\ Sum("ExitStreamByteCount") = Sum("ExitStreamOutboundByteCount") + Sum("ExitStreamInboundByteCount")
Sides == <<"Client", "Service">>
CircuitLaws == Family = "circuit" /\ H # << >> =>
    \A s \in {"CircuitCount", "CircuitInboundCellCount", "CircuitOutboundCellCount"} :
      /\ \A p \in {"Origin", "Entry", "Mid", "End", "SingleHop", "Intro", "Rend", "IntroClient", "Rend2", "RendUMultiHopService", "Intro3Tor2WebClient"} :
           /\ AddUp(p \o s, <<p \o "Active" \o s, p \o "Inactive" \o s>>)
           /\ AddUp(p \o s, <<p \o "Success" \o s, p \o "Failure" \o s>>)
           /\ \A a \in {"Active", "Inactive"} : AddUp(p \o a \o s, <<p \o a \o "Success" \o s, p \o a \o "Failure" \o s>>)
      /\ \A p \in {"Exit", "Dir", "HSDir", "HSDir2Client", "HSDir3MultiHopService"} : AddUp(p \o s, <<p \o "Success" \o s, p \o "Failure" \o s>>)
      /\ \A p \in {"Intro", "Rend", "HSDir"} :
           /\ \A w \in {"", "Client", "Service", "Tor2WebClient", "SingleOnionService", "MultiHopClient", "MultiHopService"} :
                AddUp(p \o w \o s, <<p \o "U" \o w \o s, p \o "2" \o w \o s, p \o "3" \o w \o s>>)
           /\ \A v \in {"", "U", "2", "3"} :
                /\ AddUp(p \o v \o "Client" \o s, <<p \o v \o "Tor2WebClient" \o s, p \o v \o "MultiHopClient" \o s>>)
                /\ AddUp(p \o v \o "Service" \o s, <<p \o v \o "SingleOnionService" \o s, p \o v \o "MultiHopService" \o s>>)
                /\ Sum(p \o v \o "Client" \o s) + Sum(p \o v \o "Service" \o s) = (IF e.client = "none" THEN 0 ELSE Sum(p \o v \o s))
      /\ Sum("SingleHop" \o s) = (IF e.entry = "yes" THEN Sum("End" \o s) ELSE 0)
      \* a circuit ends in one place
      /\ s = "CircuitCount" /\ ~(e.rend = "yes" /\ (e.hsdir = "yes" \/ e.intro = "yes"))
           => Sum("ExitAndRend2Client" \o s) = Sum("Exit" \o s) + Sum("Rend2Client" \o s)
ConnectionLaws == Family = "connection" /\ H # << >> =>
    /\ Sum("EntryConnectionCount") + Sum("NonEntryConnectionCount") = 1
    /\ \A p \in {"Entry", "NonEntry"} :
         /\ \A s \in {"", "Byte", "InboundByte", "OutboundByte", "Circuit", "InboundCircuit", "OutboundCircuit"} :
              /\ AddUp(p \o "Connection" \o s \o "Count", <<p \o "RelayOnAddressConnection" \o s \o "Count", p \o "NoRelayOnAddressConnection" \o s \o "Count">>)
              /\ \A m \in {"Country", "AS"} : Sum(p \o "Connection" \o m \o "Match" \o s \o "CountList") = Sum(p \o "Connection" \o s \o "Count")
         /\ \A m \in {"Country", "AS"} :
              Sum(p \o "Connection" \o m \o "MatchLifeTime") + Sum(p \o "Connection" \o m \o "NoMatchLifeTime") = Sum(p \o "ConnectionCount")
DescriptorLaws == Family = "descriptor" /\ H # << >> =>
    /\ \A s \in {"Count", "DescriptorByteCount", "IntroByteCount", "ReasonCountList"} :
         /\ \A v \in {"", "2", "3"} :
              /\ AddUp("HSDir" \o v \o "Store" \o s, <<"HSDir" \o v \o "StoreAdd" \o s, "HSDir" \o v \o "StoreReject" \o s>>)
              /\ \A a \in {"", "Add", "Reject"} :
                   AddUp("HSDir" \o v \o "Store" \o a \o s, <<"HSDir" \o v \o "Store" \o a \o "Cached" \o s, "HSDir" \o v \o "Store" \o a \o "Uncached" \o s>>)
              /\ AddUp("HSDir" \o v \o "Fetch" \o s, <<"HSDir" \o v \o "FetchCached" \o s, "HSDir" \o v \o "FetchUncached" \o s>>)
         /\ \A w \in {"Store", "StoreAdd", "StoreRejectCached", "Fetch", "FetchUncached"} :
              AddUp("HSDir" \o w \o s, <<"HSDir2" \o w \o s, "HSDir3" \o w \o s>>)
    /\ Sum("HSDirStoreCount") + Sum("HSDirFetchCount") = (IF e.store /\ e.added = "none" THEN 0 ELSE 1)
=============================================================================
