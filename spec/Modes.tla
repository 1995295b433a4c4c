-------------------------------- MODULE Modes --------------------------------
(* Modes of operation, for any block size and any block cipher:             *)
(*   encrypting sinks and decrypting sources as transition functions,       *)
(*   the closed forms they must agree with, and the MACs.                   *)
EXTENDS Words, FiniteSets

CONSTANTS BS,            \* block size in bytes
          Enc(_,_),      \* Enc(key, block)
          Dec(_,_)

\* ------------------------------------------------------------- closed forms
\* CFB with a register of m = Len(iv) blocks: the keystream for block i is the
\* encryption of iv[i] for the first m blocks and of ciphertext block i-m after that.
\* Ciphertext so far in whole blocks c, plaintext tail of any length.
Ceil(n) == (n + BS - 1) \div BS
Piece(s, i) == SubSeq(s, (i-1)*BS + 1, IF i*BS < Len(s) THEN i*BS ELSE Len(s))
RECURSIVE CfbClosed(_,_,_,_)
CfbClosed(k, iv, p, i) ==          \* the first i blocks of ciphertext, as a sequence of blocks
  IF i = 0 THEN << >>
  ELSE LET c == CfbClosed(k, iv, p, i-1)
           m == Len(iv)
           g == Enc(k, IF i <= m THEN iv[i] ELSE c[i-m])
       IN Append(c, XorB(Piece(p, i), g))
CfbEncClosed(k, iv, p) == Flat(CfbClosed(k, iv, p, Ceil(Len(p))))
CfbDecClosed(k, iv, c) ==
  LET m == Len(iv)
  IN Flat([i \in 1..Ceil(Len(c)) |-> XorB(Piece(c, i), Enc(k, IF i <= m THEN iv[i] ELSE Piece(c, i-m)))])
EcbEncClosed(k, p) == Flat([i \in 1..(Len(p) \div BS) |-> Enc(k, Piece(p, i))])
EcbDecClosed(k, c) == Flat([i \in 1..(Len(c) \div BS) |-> Dec(k, Piece(c, i))])

\* ------------------------------------------------------------- encrypting sinks
\* sink: [t |-> "mem", d |-> bytes]
\*       [t |-> "cfb", k, reg |-> blocks, pend |-> bytes, dn |-> sink]
\*       [t |-> "ecb", k, dn |-> sink]
CfbRun(k, reg, blocks) ==          \* << new register, ciphertext blocks >>
  FoldLeft(LAMBDA s, b : LET c == XorB(b, Enc(k, s[1][1]))
                         IN << Append(Tail(s[1]), c), Append(s[2], c) >>,
           << reg, << >> >>, blocks)
Lot == 200                         \* long messages go in lots, which costs no more than linear time
CfbBlocks(k, reg, blocks) ==       \* << new register, ciphertext >>
  LET n == (Len(blocks) + Lot - 1) \div Lot
      End(i) == IF i*Lot < Len(blocks) THEN i*Lot ELSE Len(blocks)
      f == FoldLeft(LAMBDA s, i : LET r == CfbRun(k, s[1], SubSeq(blocks, (i-1)*Lot + 1, End(i)))
                                  IN << r[1], Append(s[2], Flat(r[2])) >>,
                    << reg, << >> >>, TLCEval([i \in 1..n |-> i]))
  IN << f[1], Flat(f[2]) >>
RECURSIVE Push(_,_)
Push(s, bs) ==
  CASE s.t = "mem" -> [s EXCEPT !.d = @ \o bs]
    [] s.t = "ecb" -> IF bs = << >> THEN s ELSE [s EXCEPT !.dn = Push(s.dn, EcbEncClosed(s.k, bs))]
    [] s.t = "cfb" ->
         LET all == s.pend \o bs
             n == (Len(all) \div BS) * BS
             f == CfbBlocks(s.k, s.reg, Blocks(Take(all, n), BS))
         IN IF n = 0 THEN [s EXCEPT !.pend = all]
            ELSE [s EXCEPT !.reg = f[1], !.pend = Drop(all, n), !.dn = Push(s.dn, f[2])]
\* a write the sink must refuse: ECB takes whole blocks only
PushRefused(s, bs) == s.t = "ecb" /\ Len(bs) % BS # 0
Tail_(s) == XorB(s.pend, Enc(s.k, s.reg[1]))
Finish(s) ==                       \* the underlying sink, given everything
  IF s.t = "cfb" /\ s.pend # << >> THEN Push(s.dn, Tail_(s)) ELSE s.dn
FinishRefused(s) == s.t = "cfb" /\ s.pend # << >> /\ PushRefused(s.dn, s.pend)
RECURSIVE BadSink(_,_)
\* does handing n bytes to sink s need a key that is malformed?
BadSink(s, n) ==
  CASE s.t = "mem" -> FALSE
    [] s.t = "ecb" -> n >= BS /\ (s.k.t = "bad" \/ BadSink(s.dn, n))
    [] s.t = "cfb" -> Len(s.pend) + n >= BS /\ (s.k.t = "bad" \/ BadSink(s.dn, Len(s.pend) + n))
\* everything that would have reached the bottom if the whole pipeline were finalized now
\* (as far as its keys are usable)
RECURSIVE Bottom(_)
Stuck(s) == FinishRefused(s) \/ (s.t = "cfb" /\ s.pend # << >> /\ (s.k.t = "bad" \/ BadSink(s.dn, Len(s.pend))))
Bottom(s) == IF s.t = "mem" THEN s.d
             ELSE IF Stuck(s) THEN Bottom(s.dn) ELSE Bottom(Finish(s))
RECURSIVE Depth(_)
Depth(s) == IF s.t = "mem" THEN 0 ELSE IF s.t = "cfb" THEN 1 + Depth(s.dn) ELSE Depth(s.dn)
\* bytes `got` observed at the bottom are acceptable for sink s: a prefix, lagging less than a block per layer
Delivered(s, got) ==
  LET f == Bottom(s)
  IN /\ Len(got) <= Len(f)
     /\ SubSeq(f, 1, Len(got)) = got
     /\ Len(f) - Len(got) <= (BS - 1) * Depth(s)
\* ------------------------------------------------------------- decrypting sources
\* source: [t |-> "src", lay, d |-> bytes it will deliver, e |-> "eof" or "err", bad |-> BOOLEAN]
CfbSource(up, k, reg) ==
  [t |-> "src", lay |-> "cfb", e |-> up.e, bad |-> up.bad \/ k.t = "bad",
   d |-> IF up.bad \/ k.t = "bad" THEN up.d ELSE CfbDecClosed(k, reg, up.d)]
EcbSource(up, k) ==
  [t |-> "src", lay |-> "ecb", bad |-> up.bad \/ k.t = "bad",
   e |-> IF Len(up.d) % BS = 0 THEN up.e ELSE "err",
   d |-> IF up.bad \/ k.t = "bad" THEN up.d ELSE EcbDecClosed(k, up.d)]
MemSource(bytes) == [t |-> "src", lay |-> "mem", d |-> bytes, e |-> "eof", bad |-> FALSE]
\* reading n bytes (n < 0: everything) may return `out`
ReadOk(s, n, out) ==
  LET all == Len(s.d)
      m == IF n < 0 \/ n > all THEN all ELSE n
  IN /\ ~ (s.bad /\ m > 0)
     /\ Len(out) <= all
     /\ SubSeq(s.d, 1, Len(out)) = out
     /\ CASE s.lay = "cfb" -> Len(out) = m /\ (m = n \/ s.e = "eof")
          [] s.lay = "ecb" -> IF all = 0 THEN s.e = "eof" /\ out = << >>
                              ELSE Len(out) > 0 /\ Len(out) % BS = 0 /\ Len(out) <= m
          [] s.lay = "mem" -> IF m = 0 THEN out = << >> ELSE Len(out) > 0 /\ Len(out) <= m
\* reading n bytes may fail
ReadFails(s, n) ==
  LET all == Len(s.d)
  IN \/ s.bad
     \/ s.lay = "ecb" /\ n >= 0 /\ n < BS
     \/ s.lay # "mem" /\ s.e = "err" /\ (n < 0 \/ n > all)
After(s, k) == [s EXCEPT !.d = Drop(@, k)]

\* ------------------------------------------------------------- MAC (GOST R 34.13, 5.6)
\* poly is the constant B of the standard, as a block.  `seen` remembers a few blocks already
\* encrypted, so that long periodic messages stay cheap to evaluate; it never changes a result.
Double(b, poly) == IF TopBit(b) THEN XorB(ShiftL(b, 1), poly) ELSE ShiftL(b, 1)
MacChain(k, blocks) ==
  FoldLeft(LAMBDA s, b :
             LET x == TLCEval(XorB(b, s.v))
             IN IF x \in DOMAIN s.seen THEN [s EXCEPT !.v = s.seen[x]]
                ELSE LET y == TLCEval(Enc(k, x))
                     IN [v |-> y, seen |-> IF Cardinality(DOMAIN s.seen) < 16
                                           THEN TLCEval([z \in DOMAIN s.seen \cup {x} |->
                                                          IF z = x THEN y ELSE s.seen[z]])
                                           ELSE s.seen],
           [v |-> Zeros(BS), seen |-> [z \in {} |-> z]], blocks).v
\* the chain continued from value v
MacChainFrom(k, v, blocks) == IF blocks = << >> THEN v ELSE MacChain(k, << XorB(Head(blocks), v) >> \o Tail(blocks))
\* how an incomplete final block of r < BS bytes is completed
PadZero(l) == ZeroFill(l, BS)
PadOnes(l) ==                  \* one-and-zeros, for each byte order a block could be read in
  { ZeroFill(Append(l, 128), BS), ZeroFill(Append(l, 1), BS), Zeros(BS - 1 - Len(l)) \o <<128>> \o l }
MacLast(k, poly, chain, last, full) ==
  LET k1 == Double(Enc(k, Zeros(BS)), poly)
      fk == IF full THEN k1 ELSE Double(k1, poly)
  IN Enc(k, XorB(XorB(last, chain), fk))
\* all blocks but the final one, and the final one (possibly incomplete or empty)
MacFull(k, poly, init, last) == MacLast(k, poly, MacChain(k, init), last, TRUE)
MacZero(k, poly, init, last) == MacLast(k, poly, MacChain(k, init), PadZero(last), FALSE)
MacOnes(k, poly, init, last) ==
  LET c == MacChain(k, init) IN { MacLast(k, poly, c, p, FALSE) : p \in PadOnes(last) }
\* message bytes -> << all but the final block, final block >>
Split(m) ==
  LET n == IF m = << >> THEN 0 ELSE (Len(m) - 1) \div BS
  IN << TLCEval([i \in 1..n |-> Piece(m, i)]), Drop(m, n*BS) >>
=============================================================================
