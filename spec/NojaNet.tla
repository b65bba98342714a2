------------------------------- MODULE NojaNet -------------------------------
(***************************************************************************)
(* The rest of the world a program can touch: sockets and random numbers.  *)
(*                                                                         *)
(* Peers outside of the program act when it asks for input: before the     *)
(* k-th line of input arrives the acts of group k have happened.  State:   *)
(*   pol   how open choices are resolved (numbers of sockets, addresses,   *)
(*         random numbers); a program about which something is claimed     *)
(*         does the same under every policy                                *)
(*   acts  <<"connect", ip, port, i>>, <<"send", i, bytes>>, <<"shut", i>>, *)
(*         <<"close", i>> and <<"dgram", ip, port, bytes>> of peers         *)
(*   k     inputs so far                                                   *)
(*   fd    sockets [t state, tcp, ip, port, ru reuse, q waiting peers or   *)
(*         datagrams, peer, rst]; states new, bound, listen, conn, closed; *)
(*         the lowest closed number is used again                          *)
(*   pe    peers [st, b bytes on their way to the program, shut, open, got *)
(*         bytes received, lost (what they received isn't determined),     *)
(*         hard (left with bytes unread)]                                  *)
(*   old   ports with past connections                                     *)
(* Random numbers: rnd = [s seed, n numbers drawn since].                   *)
(***************************************************************************)
EXTENDS NojaFS

NoRnd == [s |-> <<"n">>, n |-> 0]
NoNet == [on |-> FALSE, pol |-> 0, acts |-> <<>>, k |-> 0, fd |-> <<>>, pe |-> <<>>, old |-> {}]

NoFs == [on |-> FALSE, cwd |-> <<>>, f |-> <<>>, d |-> {}, v |-> 0, loc |-> <<>>, rnd |-> NoRnd, net |-> NoNet]

Even(n) == n % 2 = 0
\* a number of the range lo..hi, lo <= hi
PickRandom(pol, rnd, lo, hi) ==
  LET n == rnd.n + (IF rnd.s[1] = "n" THEN 0 ELSE Len(IntText(rnd.s)))
      mid == IF IntCmp(lo, hi) < 0 THEN IntArith("ADD", lo, <<"i", 1>>) ELSE lo
  IN CASE pol = 1 -> lo [] pol = 2 -> hi
       [] pol = 3 -> IF Even(rnd.n) THEN lo ELSE hi
       [] pol = 4 -> IF Even(n) THEN hi ELSE lo
       [] OTHER -> IF n % 3 = 0 THEN mid ELSE lo

(***************************************************************************)
(* Addresses                                                               *)
(***************************************************************************)
Octets(t) ==
  LET r == FoldLeft(LAMBDA acc, i : IF Ch(t, i) = "." THEN <<Append(acc[1], acc[2]), "">> ELSE <<acc[1], acc[2] \o Ch(t, i)>>,
                    <<<<>>, "">>, Upto(Len(t)))
  IN Append(r[1], r[2])
OctetOk(x) ==
  /\ Len(x) \in 1..3
  /\ \A i \in 1..Len(x) : Ch(x, i) \in Digits
  /\ (Len(x) = 1 \/ Ch(x, 1) # "0")
  /\ MagCmp(MagDigits(x), MagOf(255)) <= 0
IpOk(t) == LET o == Octets(t) IN Len(o) = 4 /\ \A i \in 1..Len(o) : OctetOk(o[i])
AnyIp == "0.0.0.0"
Loopback(t) == Octets(t)[1] = "127"
Overlap(a, b) == a = b \/ a = AnyIp \/ b = AnyIp

(***************************************************************************)
(* What the peers do                                                       *)
(***************************************************************************)
Listeners(w, ip, port) == {j \in 1..Len(w.fd) : w.fd[j].t = "listen" /\ w.fd[j].port = port /\ Overlap(w.fd[j].ip, ip)}
Receivers(w, ip, port) == {j \in 1..Len(w.fd) : w.fd[j].t = "bound" /\ ~w.fd[j].tcp /\ w.fd[j].port = port /\ Overlap(w.fd[j].ip, ip)}
Act(w, a) ==
  CASE a[1] = "connect" ->
        LET at == Listeners(w, a[2], a[3]) IN
        IF at = {} THEN [w EXCEPT !.pe[a[4]].st = "refused"]
        ELSE LET j == CHOOSE j \in at : TRUE IN [w EXCEPT !.pe[a[4]].st = "waits", !.fd[j].q = Append(@, <<a[4]>>)]
    [] a[1] = "send" -> (IF w.pe[a[2]].st = "gone" THEN [w EXCEPT !.pe[a[2]].lost = TRUE]
                         ELSE [w EXCEPT !.pe[a[2]].b = @ \o a[3]])
    [] a[1] = "shut" -> [w EXCEPT !.pe[a[2]].shut = TRUE]
    \* a peer that leaves without having read everything resets the connection
    [] a[1] = "close" -> [w EXCEPT !.pe[a[2]].shut = TRUE, !.pe[a[2]].open = FALSE, !.pe[a[2]].hard = w.pe[a[2]].got # <<>>]
    [] a[1] = "dgram" ->
        LET at == Receivers(w, a[2], a[3]) IN
        IF at = {} THEN w ELSE LET j == CHOOSE j \in at : TRUE IN [w EXCEPT !.fd[j].q = Append(@, a[4])]
ActsAt(w) == IF w.k < Len(w.acts) THEN w.acts[w.k + 1] ELSE <<>>
PeersMove(w) == IF ~w.on THEN w
                ELSE LET now == ActsAt(w) IN
                     FoldLeft(LAMBDA acc, i : Act(acc, now[i]), [w EXCEPT !.k = @ + 1], Upto(Len(now)))

(***************************************************************************)
(* The calls.  Results: <<world, results>> or <<"unsup">>; recv gives the   *)
(* bytes received instead of results.                                      *)
(***************************************************************************)
FdBase(w) == 100 * w.pol
FdOf(w, v) == IF v[1] = "i" /\ v[2] - FdBase(w) \in 1..Len(w.fd) THEN v[2] - FdBase(w) ELSE 0
FreeFd(w) == LET c == {i \in 1..Len(w.fd) : w.fd[i].t = "closed"} IN
             IF c = {} THEN Len(w.fd) + 1 ELSE CHOOSE i \in c : \A j \in c : i <= j
PutFd(w, i, r) == IF i > Len(w.fd) THEN [w EXCEPT !.fd = Append(@, r)] ELSE [w EXCEPT !.fd[i] = r]
NewSock(tcp, ru) == [t |-> "new", tcp |-> tcp, ip |-> AnyIp, port |-> -1, ru |-> ru, q |-> <<>>, peer |-> 0, rst |-> -1]
Refused(w, m) == <<w, <<<<"n">>, <<"s", m>>>>>>
Refused1(w, m) == <<w, <<<<"s", m>>>>>>
None1(w) == <<w, <<<<"n">>>>>>
Unclear == <<"unsup">>

NetSocket(w, domain, type, proto, ru) ==
  IF domain = <<"i", 2>> /\ type \in {<<"i", 1>>, <<"i", 2>>} /\ proto = <<"i", 0>> THEN
    LET i == FreeFd(w)
        w2 == PutFd(w, i, NewSock(type = <<"i", 1>>, ru))
    IN <<w2, <<<<"i", FdBase(w) + i>>>>>>
  ELSE IF domain \in {<<"i", 99>>, <<"i", -1>>} THEN Refused(w, "Address family not supported by protocol")
  ELSE Unclear
Taken(w, i, ip, port) ==
  \E j \in 1..Len(w.fd) :
    /\ j # i
    /\ w.fd[j].t \in {"bound", "listen", "conn"}
    /\ w.fd[j].tcp = w.fd[i].tcp
    /\ w.fd[j].port = port
    /\ Overlap(w.fd[j].ip, ip)
    /\ ~(w.fd[i].ru /\ w.fd[j].ru /\ w.fd[j].t # "listen")
NetBind(w, v, family, port, ip) ==
  LET i == FdOf(w, v) IN
  IF family # <<"i", 2>> THEN Refused(w, "Invalid family (only AF_INET is supported at the moment)")
  ELSE IF port[1] = "I" THEN Refused(w, "Invalid port")
  ELSE IF port[2] < 0 \/ port[2] > 65535 THEN Refused(w, "Invalid port")
  ELSE IF ~IpOk(ip) THEN Refused(w, "Invalid address")
  ELSE IF i = 0 THEN Unclear
  ELSE IF w.fd[i].t = "closed" THEN Refused1(w, "Bad file descriptor")
  ELSE IF Octets(ip)[1] = "8" THEN Refused1(w, "Cannot assign requested address")
  ELSE IF w.fd[i].t # "new" THEN Refused1(w, "Invalid argument")
  ELSE IF ip # AnyIp /\ ~Loopback(ip) THEN Unclear
  ELSE IF port[2] = 0 THEN None1([w EXCEPT !.fd[i].t = "bound", !.fd[i].ip = ip])
  ELSE IF port[2] < 1024 THEN Unclear
  ELSE IF w.fd[i].tcp /\ port[2] \in w.old /\ ~w.fd[i].ru THEN Unclear
  ELSE IF Taken(w, i, ip, port[2]) THEN Refused1(w, "Address already in use")
  ELSE None1([w EXCEPT !.fd[i].t = "bound", !.fd[i].ip = ip, !.fd[i].port = port[2]])
NetListen(w, v, backlog) ==
  LET i == FdOf(w, v) IN
  IF i = 0 \/ backlog[1] = "I" THEN Unclear
  ELSE IF w.fd[i].t = "closed" THEN Refused1(w, "Bad file descriptor")
  ELSE IF ~w.fd[i].tcp THEN Refused1(w, "Operation not supported")
  ELSE IF w.fd[i].t = "conn" THEN Refused1(w, "Invalid argument")
  ELSE IF backlog[2] < 4 THEN Unclear
  ELSE IF w.fd[i].t = "bound" /\ w.fd[i].port > 0 /\ \E j \in Listeners(w, w.fd[i].ip, w.fd[i].port) : j # i
       THEN Refused1(w, "Address already in use")
  ELSE None1([w EXCEPT !.fd[i].t = "listen"])
NetAccept(w, v) ==
  LET i == FdOf(w, v) IN
  IF i = 0 THEN Unclear
  ELSE IF w.fd[i].t = "closed" THEN Refused(w, "Bad file descriptor")
  ELSE IF ~w.fd[i].tcp THEN Refused(w, "Operation not supported")
  ELSE IF w.fd[i].t # "listen" THEN Refused(w, "Invalid argument")
  ELSE IF w.fd[i].q = <<>> THEN Unclear             \* waits
  ELSE LET p == w.fd[i].q[1][1]
           n == FreeFd(w)
           c == [w.fd[i] EXCEPT !.t = "conn", !.q = <<>>, !.peer = p]
           w1 == PutFd([w EXCEPT !.fd[i].q = Tail(@), !.pe[p].st = "conn", !.old = @ \cup {w.fd[i].port}], n, c)
       IN <<w1, <<<<"i", FdBase(w) + n>>, <<"i", 7000 + w.pol>>, <<"i", 8000 + w.pol>>>>>>
\* n bytes wanted at most; <<world, "bytes", those received>>
NetRecv(w, v, n) ==
  LET i == FdOf(w, v) IN
  IF i = 0 THEN Unclear
  ELSE LET x == w.fd[i] IN
    IF x.t = "closed" THEN Refused(w, "Bad file descriptor")
    ELSE IF ~x.tcp THEN
      (IF x.t = "new" \/ x.q = <<>> THEN Unclear
       ELSE <<[w EXCEPT !.fd[i].q = Tail(@)], "bytes", SubSeq(x.q[1], 1, Min2(n, Len(x.q[1])))>>)
    ELSE IF x.t # "conn" THEN Refused(w, "Transport endpoint is not connected")
    ELSE LET p == w.pe[x.peer]
             k == Min2(n, Len(p.b)) IN
      IF x.rst >= 0 \/ p.hard THEN Unclear
      ELSE IF p.b = <<>> /\ ~p.shut THEN Unclear             \* waits
      ELSE <<[w EXCEPT !.pe[x.peer].b = SubSeq(@, k + 1, Len(@))], "bytes", SubSeq(p.b, 1, k)>>
NetSend(w, v, b) ==
  LET i == FdOf(w, v) IN
  IF i = 0 THEN Unclear
  ELSE LET x == w.fd[i] IN
    IF x.t = "closed" THEN Refused(w, "Bad file descriptor")
    ELSE IF ~x.tcp THEN Refused([w EXCEPT !.fd[i].t = "bound"], "Destination address required")     \* it has an address of its own now
    ELSE IF x.t # "conn" THEN Refused(w, "Broken pipe")
    ELSE IF w.pe[x.peer].hard THEN Unclear
    ELSE IF w.pe[x.peer].open THEN <<[w EXCEPT !.pe[x.peer].got = @ \o b], <<<<"i", Len(b)>>>>>>
    ELSE IF x.rst < 0 THEN (IF b = <<>> THEN Unclear ELSE <<[w EXCEPT !.fd[i].rst = w.k], <<<<"i", Len(b)>>>>>>)   \* the answer comes later
    ELSE IF x.rst < w.k THEN Refused(w, "Broken pipe")
    ELSE Unclear
\* what a connection was still to deliver is lost when it's closed
Dropped(w, p) == [w EXCEPT !.pe[p].st = "gone", !.pe[p].lost = @ \/ w.pe[p].b # <<>>]
NetClose(w, v) ==
  LET i == FdOf(w, v) IN
  IF i = 0 THEN Unclear
  ELSE LET x == w.fd[i]
           w1 == IF x.t = "conn" THEN Dropped(w, x.peer)
                 ELSE IF x.t = "listen" THEN FoldLeft(LAMBDA acc, j : [Dropped(acc, x.q[j][1]) EXCEPT !.pe[x.q[j][1]].lost = TRUE], w, Upto(Len(x.q)))
                 ELSE w
       IN IF x.t = "closed" THEN <<w, <<<<"i", -1>>>>>>
          ELSE <<[w1 EXCEPT !.fd[i].t = "closed"], <<<<"i", 0>>>>>>
\* when the program ends everything is closed
EndNet(w) == FoldLeft(LAMBDA acc, i : IF acc.fd[i].t = "closed" THEN acc ELSE NetClose(acc, <<"i", FdBase(w) + i>>)[1], w, Upto(Len(w.fd)))
PeerFates(w) ==
  IF ~w.on THEN <<>>
  ELSE LET e == EndNet(w) IN Tup([i \in 1..Len(e.pe) |-> <<IF e.pe[i].st = "refused" THEN "refused" ELSE IF e.pe[i].lost THEN "?" ELSE e.pe[i].st, e.pe[i].got>>])

\* invariants of the world: a peer is waiting at or connected to at most one socket
OnePlace(w) ==
  \A p \in 1..Len(w.pe) :
    Cardinality({i \in 1..Len(w.fd) : \/ w.fd[i].t = "conn" /\ w.fd[i].peer = p
                                      \/ w.fd[i].t = "listen" /\ \E j \in 1..Len(w.fd[i].q) : w.fd[i].q[j] = <<p>>}) <= 1
NetOk(w) == w.on => /\ OnePlace(w)
                    /\ \A i \in 1..Len(w.fd) : w.fd[i].t = "conn" => w.pe[w.fd[i].peer].st = "conn"
                    /\ \A i, j \in 1..Len(w.fd) : i # j /\ w.fd[i].t = "listen" /\ w.fd[j].t = "listen" /\ w.fd[i].port > 0
                         => ~(w.fd[i].port = w.fd[j].port /\ Overlap(w.fd[i].ip, w.fd[j].ip))
=============================================================================
