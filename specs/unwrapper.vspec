// The sequence unwrapper (C01). The newest position is wrapArounds + highestSequenceNumber.

pure unwInv(s) = s != nil && s.m != nil && !held(s.m) && s.inMax == 65536
  && s.highestSequenceNumber < 65536 && s.wrapArounds >= 0 && s.wrapArounds % 65536 == 0
pure unwNewest(s) = s.wrapArounds + int64(s.highestSequenceNumber)
// distance ahead on the 16-bit circle
pure unwDist(s, n) = (int64(n) - int64(s.highestSequenceNumber)) % 65536
// the shortest way round goes forward (a tie of 32768 is resolved by plain comparison)
pure unwAhead(s, n) = unwDist(s, n) < 32768 && unwDist(s, n) > 0 || unwDist(s, n) == 32768 && n > s.highestSequenceNumber

func utils.NewSequenceUnwrapper(base) (r)
  props C01
  requires base == 16
  split base = 16
  modifies nothing
  ensures valid: fresh(r) && unwInv(r) && fresh(r.m)
  ensures not-started: !r.started && r.wrapArounds == 0

func utils.SequenceUnwrapper.Unwrap(sw, n) (r)
  props C01
  requires unwInv(sw)
  requires n < 65536
  requires !sw.started ==> sw.wrapArounds == 0
  modifies sw.*, *sw.m
  ensures inv: unwInv(sw) && sw.m == old(sw.m)
  ensures started: sw.started
  ensures nonneg: r >= 0
  ensures congruent: r % 65536 == int64(n)
  ensures first: !old(sw.started) ==> r == int64(n) && unwNewest(sw) == int64(n)
  ensures ahead: old(sw.started) && old(unwAhead(sw, n)) ==> r == old(unwNewest(sw)) + old(unwDist(sw, n)) && unwNewest(sw) == r
  ensures behind: old(sw.started) && !old(unwAhead(sw, n)) ==> r == unwNewest(sw) - (65536 - old(unwDist(sw, n))) % 65536
  ensures newest-kept: old(sw.started) && !old(unwAhead(sw, n)) && old(unwNewest(sw)) - (65536 - old(unwDist(sw, n))) % 65536 > 0 ==> unwNewest(sw) == old(unwNewest(sw))
  ensures one-cycle: old(sw.started) && !old(unwAhead(sw, n)) ==> unwNewest(sw) == old(unwNewest(sw)) || unwNewest(sw) == old(unwNewest(sw)) + 65536
