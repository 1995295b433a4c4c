------------------------------- MODULE MCPipe -------------------------------
(* The encrypting sinks of Modes, explored with a block of two "bytes" that *)
(* are bits, so that EVERY block cipher (every function on four blocks) can *)
(* be tried.  Whatever way a message is written, what reaches the bottom is *)
(* the closed form of the whole message, what was delivered early is a      *)
(* prefix of it lagging less than a block per layer, and the corresponding  *)
(* sources give the message back.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, MaxChunk, Shape
V(x) == x[1] + 2 * x[2]
TEnc(k, x) == k.f[V(x) + 1]
TDec(k, x) == LET i == CHOOSE j \in 1..4 : k.f[j] = x IN << (i-1) % 2, (i-1) \div 2 >>
M == INSTANCE Modes WITH BS <- 2, Enc <- TEnc, Dec <- TDec

Blk == { << 0,0 >>, << 1,0 >>, << 0,1 >>, << 1,1 >> }
AllF == [1..4 -> Blk]
Perms == { g \in AllF : \A i, j \in 1..4 : i # j => g[i] # g[j] }
\* a few ciphers for the deeper shapes: identity, a constant, an odd function, two permutations
F(w,x,y,z) == << w, x, y, z >>
FewF == { F(<<0,0>>,<<1,0>>,<<0,1>>,<<1,1>>), F(<<1,0>>,<<1,0>>,<<1,0>>,<<1,0>>), F(<<0,1>>,<<0,0>>,<<0,1>>,<<1,0>>) }
FewP == { F(<<1,1>>,<<0,0>>,<<1,0>>,<<0,1>>), F(<<0,1>>,<<1,1>>,<<0,0>>,<<1,0>>) }
K(g) == [t |-> "f", f |-> g]
Mem == [t |-> "mem", d |-> << >>]
Cfb(g, regs, dn) == [t |-> "cfb", k |-> K(g), reg |-> regs, pend |-> << >>, dn |-> dn]
Ecb(g, dn) == [t |-> "ecb", k |-> K(g), dn |-> dn]
Tops ==
  CASE Shape = "cfb1" -> { Cfb(g, << v >>, Mem) : g \in AllF, v \in Blk }
    [] Shape = "cfb2" -> { Cfb(g, << v, w >>, Mem) : g \in FewF \cup FewP \cup { h \in AllF : h[1] = <<1,1>> }, v \in {<<0,0>>,<<1,0>>}, w \in Blk }
    [] Shape = "ecb" -> { Ecb(g, Mem) : g \in Perms }
    [] Shape = "nest" ->
         { Cfb(g, << <<0,1>> >>, Cfb(h, << v, <<1,0>> >>, Mem)) : g \in FewF \cup FewP, h \in FewF \cup FewP, v \in Blk }
         \cup { Cfb(g, << v >>, Ecb(h, Mem)) : g \in FewF, h \in Perms, v \in {<<0,0>>,<<1,1>>} }
         \cup { Ecb(h, Cfb(g, << v >>, Mem)) : g \in FewF, h \in Perms, v \in {<<0,0>>,<<1,1>>} }
         \cup { Ecb(h, Ecb(g, Mem)) : g \in Perms, h \in FewP }
         \cup { Cfb(g, << v >>, Cfb(h, << <<1,1>> >>, Cfb(i, << <<0,1>>, v >>, Mem))) : g \in FewF, h \in FewP, i \in FewF, v \in {<<0,0>>,<<1,1>>} }

VARIABLES vTop, vSink, vFed
vars == << vTop, vSink, vFed >>
Chunks == UNION { [1..n -> 0..1] : n \in 0..MaxChunk }
Init == vTop \in Tops /\ vSink = vTop /\ vFed = << >>
Write(c) == /\ Len(vFed) + Len(c) <= MaxLen
            /\ ~ M!PushRefused(vSink, c)
            /\ vSink' = M!Push(vSink, c) /\ vFed' = vFed \o c /\ UNCHANGED vTop
Next == \E c \in Chunks : Write(c)
Spec == Init /\ [][Next]_vars

\* the message through the layers, in closed form; a partial block cannot pass an ECB layer
RECURSIVE Closed(_,_)
Closed(s, m) ==
  CASE s.t = "mem" -> m
    [] s.t = "cfb" -> Closed(s.dn, M!CfbEncClosed(s.k, s.reg, m))
    [] s.t = "ecb" -> Closed(s.dn, M!EcbEncClosed(s.k, M!Take(m, (Len(m) \div 2) * 2)))
RECURSIVE HasEcb(_)
HasEcb(s) == s.t = "ecb" \/ (s.t = "cfb" /\ HasEcb(s.dn))
RECURSIVE Source(_,_)
Source(s, bytes) ==         \* the sources that undo sink s, over these bytes
  CASE s.t = "mem" -> M!MemSource(bytes)
    [] s.t = "cfb" -> M!CfbSource(Source(s.dn, bytes), s.k, s.reg)
    [] s.t = "ecb" -> M!EcbSource(Source(s.dn, bytes), s.k)
RECURSIVE Got(_)
Got(s) == IF s.t = "mem" THEN s.d ELSE Got(s.dn)
Whole == ~ HasEcb(vTop) \/ Len(vFed) % 2 = 0

OneWay == vSink = M!Push(vTop, vFed)                               \* how it was written does not matter
IsClosed == Whole => M!Bottom(vSink) = Closed(vTop, vFed)
SameLen == Whole => Len(M!Bottom(vSink)) = Len(vFed)
Early == M!Delivered(vSink, Got(vSink))
RoundTrip == Whole => LET s == Source(vTop, M!Bottom(vSink)) IN s.d = vFed /\ s.e = "eof"
Refuses == \A c \in {<<0>>, <<1,0,1>>} : vTop.t = "ecb" => M!PushRefused(vSink, c)
=============================================================================
