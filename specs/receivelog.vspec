// The receive log (C04): a bitmap over the window of the last `size` packet numbers.

pure rlSize(n) = n == 64 || n == 128 || n == 256 || n == 512 || n == 1024 || n == 2048 || n == 4096 || n == 8192 || n == 16384 || n == 32768
machine pure rlBit(s, p) = (s.packets[p % s.size / 64] >> uint64(p % s.size % 64)) & 1 == 1
machine pure rlIn(s, p) = s.end - p < s.size
pure rlRecv(s, p) = rlIn(s, p) && rlBit(s, p)
// not yet given up on: ahead of the last consecutive number
machine pure rlOpen(s, p) = s.end - p < s.end - s.lastConsecutive
machine pure rlInv(s) = s != nil && rlSize(s.size) && len(s.packets) == int(s.size / 64) && s.end - s.lastConsecutive <= s.size
  && (s.started ==> rlBit(s, s.end))
  && (!s.started ==> s.end == 0 && s.lastConsecutive == 0 && (forall p uint16 :: !rlBit(s, p)))
// a number that drops out of the list of missing numbers does so because it was received (or already was out)
pure rlKnown(s, p) = rlRecv(s, p) || rlIn(s, p) && rlOpen(s, p)

func utils.ReceiveLog.Add(s, seq)
  props C04
  mode bv
  requires rlInv(s)
  split s.size = 64 | 128 | 256 | 512 | 1024 | 2048 | 4096 | 8192 | 16384 | 32768
  cases C23 1024
  modifies s.end, s.started, s.lastConsecutive, elems(s.packets)
  inst seq, s.end, s.lastConsecutive
  nopatterns
  inv ($i uint16) swept: (forall p uint16 :: rlBit(s, p) == (entry(rlBit(s, p)) && (p - (entry(s.end) + 1)) % s.size >= $i - (entry(s.end) + 1)))
  inv ($i uint16) sweep-range: $i - (entry(s.end) + 1) <= seq - (entry(s.end) + 1)
  inv {alt} swept-field: (forall p uint16 :: rlBit(s, p) == (entry(rlBit(s, p)) && (p - entry(s.end)) % s.size >= s.end - entry(s.end)))
  inv {alt} sweep-range-field: s.end - entry(s.end) <= seq - entry(s.end)
  inv ($i uint16) {alt} swept-count: (forall p uint16 :: rlBit(s, p) == (entry(rlBit(s, p)) && (p - (entry(s.end) + 1)) % s.size >= $i - 1))
  inv ($i uint16) {alt} count-range: $i - 1 <= seq - (entry(s.end) + 1)
  inv ($i uint16) {alt} swept-down: (forall p uint16 :: rlBit(s, p) == (entry(rlBit(s, p)) && (seq - 1 - p) % s.size >= seq - 1 - $i))
  inv ($i uint16) {alt} down-range: seq - 1 - $i <= seq - 1 - entry(s.end)
  inv ($i uint16) run: (forall p uint16 :: p - (s.lastConsecutive + 1) < $i - (s.lastConsecutive + 1) ==> rlBit(s, p))
  inv ($i uint16) run-range: $i - (s.lastConsecutive + 1) <= s.end - s.lastConsecutive
  inv {alt} run-field: (forall p uint16 :: p - (entry(s.lastConsecutive) + 1) < s.lastConsecutive - entry(s.lastConsecutive) ==> rlBit(s, p))
  inv {alt} run-range-field: s.lastConsecutive - entry(s.lastConsecutive) <= s.end - entry(s.lastConsecutive)
  ensures inv: rlInv(s) && s.started && s.size == old(s.size)
  ensures received: rlIn(s, seq) ==> rlRecv(s, seq)
  ensures first: !old(s.started) ==> s.end == seq && s.lastConsecutive == seq && (forall p uint16 :: p != seq && rlIn(s, p) ==> !rlBit(s, p))
  ensures newer: old(s.started) && seq - old(s.end) < 32768 && seq != old(s.end) ==> s.end == seq && (forall p uint16 :: p != seq && rlIn(s, p) ==> rlBit(s, p) == old(rlRecv(s, p)))
  ensures older: old(s.started) && (seq - old(s.end) >= 32768 || seq == old(s.end)) ==> s.end == old(s.end) && (forall p uint16 :: p != seq && rlIn(s, p) ==> rlBit(s, p) == old(rlBit(s, p)))
  ensures too-old: old(s.started) && seq - old(s.end) >= 32768 && !old(rlIn(s, seq)) ==> s.lastConsecutive == old(s.lastConsecutive) && (forall p uint16 :: rlBit(s, p) == old(rlBit(s, p)))
  ensures none-forgotten: old(s.started) ==> forall p uint16 :: rlIn(s, p) && old(rlKnown(s, p)) ==> rlKnown(s, p)
  ensures new-known: old(s.started) ==> forall p uint16 :: rlIn(s, p) && !old(rlIn(s, p)) ==> rlKnown(s, p)
  cover jump: old(s.started) && seq - old(s.end) < 32768 && seq - old(s.end) > 32

func utils.ReceiveLog.IgnoreSeqNum(s, seq)
  props C04
  mode bv
  requires rlInv(s)
  split s.size = 64 | 128 | 256 | 512 | 1024 | 2048 | 4096 | 8192 | 16384 | 32768
  cases C23 1024
  modifies s.lastConsecutive, elems(s.packets), gaveUp, givenUp, given[seq]
  sets given[seq] = true
  sets gaveUp = true
  sets givenUp = seq
  inst seq, s.end, s.lastConsecutive
  nopatterns
  inv ($i uint16) run: (forall p uint16 :: p - (s.lastConsecutive + 1) < $i - (s.lastConsecutive + 1) ==> rlBit(s, p))
  inv ($i uint16) run-range: $i - (s.lastConsecutive + 1) <= s.end - s.lastConsecutive
  inv {alt} run-field: (forall p uint16 :: p - (entry(s.lastConsecutive) + 1) < s.lastConsecutive - entry(s.lastConsecutive) ==> rlBit(s, p))
  inv {alt} run-range-field: s.lastConsecutive - entry(s.lastConsecutive) <= s.end - entry(s.lastConsecutive)
  ensures inv: rlInv(s)
  ensures given-up: s.started && rlIn(s, seq) ==> rlBit(s, seq)
  ensures others-kept: forall p uint16 :: p != seq && rlIn(s, p) ==> rlBit(s, p) == old(rlBit(s, p))
  ensures outside: !s.started || !rlIn(s, seq) ==> s.lastConsecutive == old(s.lastConsecutive) && (forall p uint16 :: rlBit(s, p) == old(rlBit(s, p)))
  ensures none-forgotten: forall p uint16 :: rlIn(s, p) && old(rlKnown(s, p)) ==> rlKnown(s, p)

func utils.ReceiveLog.Get(s, seq) (r)
  props C04
  mode bv
  requires rlInv(s)
  split s.size = 64 | 128 | 256 | 512 | 1024 | 2048 | 4096 | 8192 | 16384 | 32768
  cases C23 1024
  modifies nothing
  ensures exact: r <==> rlRecv(s, seq)

func utils.ReceiveLog.MissingSeqNumbers(s, skipLastN) (r)
  props C04
  mode bv
  requires rlInv(s)
  split s.size = 64 | 128 | 256 | 512 | 1024 | 2048 | 4096 | 8192 | 16384 | 32768
  cases C23 1024
  logic p uint16
  logic a int
  logic b int
  modifies missing, lastReq
  sets missing = r
  sets lastReq = zero([]uint16)
  nopatterns
  inv ($i uint16) range: $i - (s.lastConsecutive + 1) <= s.end - skipLastN - s.lastConsecutive
  inv ($i uint16, $r []uint16) only-missing: (forall k int :: 0 <= k && k < len($r) ==> !rlBit(s, $r[k]) && $r[k] - (s.lastConsecutive + 1) < $i - (s.lastConsecutive + 1))
  inv ($i uint16, $r []uint16) ascending: 0 <= a && a < b && b < len($r) ==> $r[a] - (s.lastConsecutive + 1) < $r[b] - (s.lastConsecutive + 1)
  inv ($i uint16, $r []uint16) complete: !rlBit(s, p) && p - (s.lastConsecutive + 1) < $i - (s.lastConsecutive + 1) ==> (exists k int :: 0 <= k && k < len($r) && $r[k] == p)
  ensures distinct: 0 <= a && a < b && b < len(r) ==> r[a] != r[b]
  ensures only-missing: forall k int :: 0 <= k && k < len(r) ==> rlIn(s, r[k]) && !rlBit(s, r[k]) && rlOpen(s, r[k]) && s.end - r[k] >= skipLastN
  ensures ascending: 0 <= a && a < b && b < len(r) ==> s.end - r[a] > s.end - r[b]
  ensures complete: rlIn(s, p) && !rlBit(s, p) && rlOpen(s, p) && s.end - p >= skipLastN ==> exists k int :: 0 <= k && k < len(r) && r[k] == p
  cover some: len(r) > 1

func utils.ReceiveLog.GetLastConsecutive(s) (r)
  props C04
  mode bv
  requires s != nil
  modifies nothing
  ensures value: r == s.lastConsecutive

func utils.NewReceiveLog(size) (r, err)
  props C04
  mode bv
  requires rlTable()
  modifies nothing
  ensures refused: err != nil ==> r == nil
  ensures made: err == nil ==> fresh(r) && fresh(r.packets) && rlInv(r) && !r.started && r.size == size
  cover made: err == nil
