// NACK pairs (C05): a pair names its packet and the packets at the set bits of the 16 following ones.

machine pure npNames(p, n) = n == p.PacketID || n - p.PacketID - 1 < 16 && (uint16(p.LostPackets) >> (n - p.PacketID - 1)) & 1 == 1

// the packets named by the first i bits
pure npUpTo(p, n, i) = n == p.PacketID || uint64(n - p.PacketID - 1) < uint64(i) && npNames(p, n)

func utils.NackPairs(seqNums) (r)
  props C05
  mode bv
  logic k int
  logic j int
  logic n uint16
  modifies lastReq, lastPairs
  sets lastReq = seqNums
  sets lastPairs = r
  nopatterns
  inst k, j, 0
  inv ($i int, $ps []rtcp.NackPair, $q *rtcp.NackPair) complete: 0 <= k && k < $i ==> npNames($q, seqNums[k]) || (exists x int :: 0 <= x && x < len($ps) && npNames($ps[x], seqNums[k]))
  inv ($ps []rtcp.NackPair) exact: 0 <= j && j < len($ps) && npNames($ps[j], n) ==> (exists x int :: 0 <= x && x < len(seqNums) && seqNums[x] == n)
  inv ($q *rtcp.NackPair) exact-current: npNames($q, n) ==> (exists x int :: 0 <= x && x < len(seqNums) && seqNums[x] == n)
  inv {alt} exact-current-v: npNames(cur, n) ==> (exists x int :: 0 <= x && x < len(seqNums) && seqNums[x] == n)
  inv ($i int, $q *rtcp.NackPair) current: fresh($q) && $i >= 1 && $i <= len(seqNums)
  // the same for other ways to write the loop: over the rest of the list, the current pair a variable
  local cur rtcp.NackPair
  inv ($i int, $ps []rtcp.NackPair) {alt} complete-v: 0 <= k && k < $i ==> npNames(cur, seqNums[k]) || (exists x int :: 0 <= x && x < len($ps) && npNames($ps[x], seqNums[k]))
  inv ($i int) {alt} range-v: $i >= 1 && $i <= len(seqNums)
  inv ($ps []rtcp.NackPair) {alt} first-v: (len($ps) > 0 ? $ps[0].PacketID == seqNums[0] : cur.PacketID == seqNums[0])
  inv ($t int, $ps []rtcp.NackPair) {alt} complete-vt: 0 <= k && k < $t + 2 ==> npNames(cur, seqNums[k]) || (exists x int :: 0 <= x && x < len($ps) && npNames($ps[x], seqNums[k]))
  inv ($t int) {alt} range-t: $t >= -1 && $t + 2 <= len(seqNums)
  inv ($t int, $ps []rtcp.NackPair, $q *rtcp.NackPair) {alt} complete-t: 0 <= k && k < $t + 2 ==> npNames($q, seqNums[k]) || (exists x int :: 0 <= x && x < len($ps) && npNames($ps[x], seqNums[k]))
  inv ($q *rtcp.NackPair) {alt} own-pair: fresh($q)
  inv ($ps []rtcp.NackPair, $q *rtcp.NackPair) first: (len($ps) > 0 ? $ps[0].PacketID == seqNums[0] : $q.PacketID == seqNums[0])
  ensures complete: 0 <= k && k < len(seqNums) ==> exists x int :: 0 <= x && x < len(r) && npNames(r[x], seqNums[k])
  ensures first: len(seqNums) > 0 ==> len(r) > 0 && r[0].PacketID == seqNums[0]
  ensures empty: len(seqNums) == 0 ==> len(r) == 0
  ensures exact: 0 <= j && j < len(r) && npNames(r[j], n) ==> exists x int :: 0 <= x && x < len(seqNums) && seqNums[x] == n
  cover some: len(r) > 1

func utils.NackPairsToSequenceNumbers(pairs) (r)
  props C05
  mode bv
  logic j int
  logic k int
  logic n uint16
  modifies nothing
  nopatterns
  inst k, j, 0
  inv ($x int, $s []uint16) done: 0 <= j && j <= $x && j < len(pairs) && npNames(pairs[j], n) ==> (exists y int :: 0 <= y && y < len($s) && $s[y] == n)
  inv ($s []uint16) exact: 0 <= k && k < len($s) ==> (exists y int :: 0 <= y && y < len(pairs) && npNames(pairs[y], $s[k]))
  inv ($vx int, $s []uint16) before: 0 <= j && j < $vx && j < len(pairs) && npNames(pairs[j], n) ==> (exists y int :: 0 <= y && y < len($s) && $s[y] == n)
  inv ($vx int, $i int, $s []uint16) current: 0 <= j && j == $vx && j < len(pairs) && npUpTo(pairs[j], n, $i) ==> (exists y int :: 0 <= y && y < len($s) && $s[y] == n)
  inv ($x int, $s []uint16) {alt} done-n: 0 <= j && j < $x && j < len(pairs) && npNames(pairs[j], n) ==> (exists y int :: 0 <= y && y < len($s) && $s[y] == n)
  inv ($vx int, $i uint16, $s []uint16) {alt} current-w: 0 <= j && j == $vx && j < len(pairs) && npUpTo(pairs[j], n, $i) ==> (exists y int :: 0 <= y && y < len($s) && $s[y] == n)
  ensures complete: 0 <= j && j < len(pairs) && npNames(pairs[j], n) ==> exists y int :: 0 <= y && y < len(r) && r[y] == n
  ensures exact: 0 <= k && k < len(r) ==> exists y int :: 0 <= y && y < len(pairs) && npNames(pairs[y], r[k])
  cover some: len(r) > 1
