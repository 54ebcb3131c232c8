// The jitter buffer (C02, C03). Position p of the window (end-size, end] lives in slot p % size.

pure jbInv(s) = s != nil && s.size >= 1 && s.size <= 65535 && len(s.packets) == s.size && s.ctx != nil
  && s.missingPacketTimers != nil && s.packetTimeout >= 0 && s.end >= 0 && s.nextStart >= 0 && s.nextStart >= s.end - s.size + 1
  && (!s.started ==> s.end == 0 && jbEmpty(s))
pure jbEmpty(s) = forall i int :: 0 <= i && i < s.size ==> s.packets[i] == nil
pure jbIn(s, p) = p >= 0 && p <= s.end && p > s.end - s.size
// the packet stored for position p (meaningful inside the window)
pure jbAt(s, p) = s.packets[p % s.size]
pure jbHas(s, p) = jbIn(s, p) && jbAt(s, p) != nil

func utils.NewJitterBuffer(size, packetTimeout, ctx) (r)
  props C02 C03
  requires ctx != nil && size >= 1
  modifies nothing
  ensures inv: fresh(r) && jbInv(r) && fresh(r.packets) && fresh(r.missingPacketTimers)
  ensures empty: !r.started && r.end == 0 && r.nextStart == 0 && r.size == int64(size)
  ensures {C03} timeout: r.packetTimeout == int64(packetTimeout) * 1000000
  ensures {C03} no-timers: forall p int64 :: !has(r.missingPacketTimers, p)
  ensures {C03} nothing-skipped: !r.hasLastSkipped

func utils.JitterBuffer.Add(s, seq, packet) (r)
  props C02 C03
  requires jbInv(s)
  requires seq >= 0 && packet != nil
  modifies s.started, s.nextStart, s.end, s.packets, elems(s.packets), adds
  sets adds = old(adds) + 1
  inst seq, s.end
  inv ($i int64) clears: (forall q int64 :: q >= 0 && entry(s.end) - s.size < q && q <= entry(s.end) && $i - s.size <= q ==> jbAt(s, q) == entry(jbAt(s, q)))
  inv ($i int64) cleared: (forall q int64 :: q > entry(s.end) && q < $i ==> jbAt(s, q) == nil)
  ensures inv: jbInv(s)
  ensures same-window: s.size == old(s.size)
  ensures {C02} refused-when: !r <==> old(s.end) - seq >= old(s.size) || old(jbHas(s, seq))
  ensures {C02} refused-nothing: !r ==> s.end == old(s.end) && s.nextStart == old(s.nextStart) && s.packets == old(s.packets)
  ensures {C02} refused-keeps: !r ==> forall q int64 :: jbIn(s, q) ==> jbAt(s, q) == old(jbAt(s, q))
  ensures {C02} stored: r ==> jbIn(s, seq) && jbAt(s, seq) == packet
  ensures {C02} newest: r && seq > old(s.end) ==> s.end == seq
  ensures {C02} newest-kept: r && seq <= old(s.end) ==> s.end == old(s.end)
  ensures {C02} others-kept: r ==> forall q int64 :: q != seq && jbIn(s, q) && old(jbIn(s, q)) ==> jbAt(s, q) == old(jbAt(s, q))
  ensures {C02} gap-empty: r ==> forall q int64 :: q != seq && jbIn(s, q) && q > old(s.end) ==> jbAt(s, q) == nil
  ensures {C02} next-first: r && !old(s.started) && old(s.nextStart) <= seq ==> s.nextStart == seq
  ensures {C02} next-slides: r && old(s.started) && old(s.nextStart) >= s.end - s.size + 1 ==> s.nextStart == old(s.nextStart)
  ensures {C02} next-slid: r && old(s.started) && old(s.nextStart) < s.end - s.size + 1 ==> s.nextStart == s.end - s.size + 1
  ensures {C02} next-monotone: s.nextStart >= old(s.nextStart)
  ensures {C02} started: r ==> s.started
  cover refused: !r
  cover jump: r && s.end - old(s.end) > old(s.size)

func utils.JitterBuffer.NextPackets(s) (rs, skipped)
  props C02 C03
  requires jbInv(s)
  modifies s.nextStart, s.lastSkippedSeq, s.hasLastSkipped, elems(s.packets), map(s.missingPacketTimers), rel, relBase, uncollected
  sets rel = rs
  sets relBase = pushes
  sets uncollected = s.hasLastSkipped
  logic k int
  nopatterns
  inst s.nextStart, s.end, s.nextStart + 1, 0, s.nextStart + int64(k), s.nextStart - len(rs) + int64(k)
  inv ($i int64) full-run: (forall q int64 :: q >= s.nextStart && q < $i ==> jbAt(s, q) != nil)
  inv ($i int64) were-full: (forall q int64 :: q >= s.nextStart && q < $i ==> entry(jbAt(s, q)) != nil)
  inv ($i int64) in-range: $i >= s.nextStart && $i <= s.end + 1
  inv ($i int64, $ps []*rtp.Packet) collected: len($ps) == $i - s.nextStart && (forall q int64 :: q >= s.nextStart && q < $i ==> $ps[q - s.nextStart] == entry(jbAt(s, q)))
  inv ($i int64) taken: (forall q int64 :: q >= $i && q <= s.end ==> jbAt(s, q) == entry(jbAt(s, q)))
  inv ($i int64) emptied: (forall q int64 :: q >= s.nextStart && q < $i ==> jbAt(s, q) == nil)
  ensures inv: jbInv(s)
  ensures {C02} own-list: rs == nil || len(rs) > 0 && fresh(rs)
  ensures {C02} packets: 0 <= k && k < len(rs) ==> rs[k] != nil
  ensures {C02} monotone: s.nextStart >= old(s.nextStart) + len(rs)
  ensures {C02} in-window: len(rs) > 0 ==> s.nextStart <= s.end + 1
  ensures {C02} the-packets: forall p int64 :: p >= s.nextStart - len(rs) && p < s.nextStart ==> rs[p - (s.nextStart - len(rs))] == old(jbAt(s, p)) && old(jbAt(s, p)) != nil
  ensures {C02} rest-kept: forall q int64 :: q >= s.nextStart && q <= s.end ==> jbAt(s, q) == old(jbAt(s, q))
  ensures {C02} whole-run: len(rs) > 0 ==> s.nextStart > s.end || jbAt(s, s.nextStart) == nil
  ensures {C02} waits-only-when-missing: len(rs) == 0 && s.started && s.nextStart <= s.end ==> jbAt(s, s.nextStart) == nil
  ensures {C03} only-missing-skipped: forall p int64 :: p >= old(s.nextStart) && p < s.nextStart - len(rs) ==> p <= s.end && old(jbAt(s, p)) == nil
  ensures {C03} skipped-told: skipped <==> s.nextStart - len(rs) > old(s.nextStart)
  ensures {C03} not-before-timeout: forall p int64 :: p >= old(s.nextStart) && p < s.nextStart - len(rs) ==> old(has(s.missingPacketTimers, p)) && clock - old(s.missingPacketTimers[p]) >= s.packetTimeout
  ensures {C03} not-late: old(s.started && s.nextStart <= s.end && jbAt(s, s.nextStart) == nil && has(s.missingPacketTimers, s.nextStart) && clock - s.missingPacketTimers[s.nextStart] >= s.packetTimeout) ==> skipped
  ensures {C03} noticed: len(rs) == 0 && s.started && s.nextStart <= s.end ==> has(s.missingPacketTimers, s.nextStart)
  ensures {C03} timer-starts-now: forall p int64 :: p >= s.nextStart && has(s.missingPacketTimers, p) && !old(has(s.missingPacketTimers, p)) ==> p == s.nextStart && s.missingPacketTimers[p] >= old(clock) && s.missingPacketTimers[p] <= clock
  ensures {C03} timer-kept: forall p int64 :: p >= s.nextStart && old(has(s.missingPacketTimers, p)) && (p > s.nextStart || len(rs) == 0) ==> has(s.missingPacketTimers, p) && s.missingPacketTimers[p] == old(s.missingPacketTimers[p])
  ensures {C03} last-skipped: skipped ==> s.hasLastSkipped && s.lastSkippedSeq == s.nextStart - len(rs) - 1
  ensures {C03} none-skipped: !skipped ==> s.hasLastSkipped == old(s.hasLastSkipped) && s.lastSkippedSeq == old(s.lastSkippedSeq)
  cover delivers: len(rs) > 1
  cover skips: skipped && len(rs) > 0

func utils.JitterBuffer.SkipPacket(s, seq)
  props C02 C03
  requires jbInv(s) && seq >= 0
  modifies s.nextStart, s.lastSkippedSeq, s.hasLastSkipped, elems(s.packets)
  ensures inv: jbInv(s)
  ensures {C03} other-no-effect: seq != old(s.nextStart) ==> s.nextStart == old(s.nextStart) && s.hasLastSkipped == old(s.hasLastSkipped) && s.lastSkippedSeq == old(s.lastSkippedSeq)
  ensures {C03} skips-one: seq == old(s.nextStart) ==> s.nextStart == seq + 1 && s.hasLastSkipped && s.lastSkippedSeq == seq
  ensures {C02} rest-kept: forall q int64 :: q >= s.nextStart && jbIn(s, q) ==> jbAt(s, q) == old(jbAt(s, q))

func utils.JitterBuffer.SetNextPacketsStart(s, n)
  props C02 C03
  requires jbInv(s)
  modifies s.nextStart, elems(s.packets)
  nopatterns
  inst s.nextStart, s.end, s.nextStart + 1, 0
  inv empties: entry(jbEmpty(s)) ==> jbEmpty(s)
  inv kept: (forall q int64 :: q >= n && jbIn(s, q) ==> jbAt(s, q) == entry(jbAt(s, q)))
  ensures inv: jbInv(s)
  ensures moved: s.nextStart == (old(s.nextStart) < n ? n : old(s.nextStart))
  ensures rest-kept: forall q int64 :: q >= s.nextStart && jbIn(s, q) ==> jbAt(s, q) == old(jbAt(s, q))

func utils.JitterBuffer.GetNextStart(s) (r)
  props C02
  requires s != nil
  modifies nothing
  ensures value: r == s.nextStart

func utils.JitterBuffer.GetAndClearLastSkipped(s) (r, ok)
  props C03
  requires s != nil
  modifies s.lastSkippedSeq, s.hasLastSkipped, owed, owedSeq, uncollected
  sets owed = ok
  sets owedSeq = r
  sets uncollected = false
  ensures once: !s.hasLastSkipped
  ensures told: ok == old(s.hasLastSkipped)
  ensures which: ok ==> r == old(s.lastSkippedSeq)
