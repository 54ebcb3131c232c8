// The send buffer (C06): the packets sent within the window of the last `size` sequence numbers.

pure sbIn(s, p) = s.started && s.lastAdded - p < s.size
pure sbAt(s, p) = s.packets[p % s.size]
pure sbGet(s, p) = sbIn(s, p) ? sbAt(s, p) : nil
pure sbInv(s) = s != nil && sbSize(s.size) && len(s.packets) == int(s.size)
  && (!s.started ==> s.lastAdded == 0 && (forall p uint16 :: sbAt(s, p) == nil))
  && (forall p uint16 :: sbAt(s, p) != nil && sbIn(s, p) ==> sbAt(s, p).SequenceNumber == p)

func utils.NewSendBuffer(size) (r, err)
  props C06
  mode bv
  requires sbTable()
  modifies nothing
  ensures refused: err != nil ==> r == nil
  ensures made: err == nil ==> fresh(r) && fresh(r.packets) && sbInv(r) && !r.started && r.size == size
  cover made: err == nil

func utils.SendBuffer.Add(s, packet)
  props C06
  mode bv
  requires sbInv(s) && packet != nil
  split s.size = 1 | 2 | 4 | 8 | 16 | 32 | 64 | 128 | 256 | 512 | 1024 | 2048 | 4096 | 8192 | 16384 | 32768
  modifies s.lastAdded, s.started, elems(s.packets)
  inst packet.SequenceNumber, s.lastAdded
  nopatterns
  inv ($i uint16) swept: (forall p uint16 :: sbAt(s, p) == ((p - (entry(s.lastAdded) + 1)) % s.size >= $i - (entry(s.lastAdded) + 1) ? entry(sbAt(s, p)) : nil))
  inv ($i uint16) sweep-range: $i - (entry(s.lastAdded) + 1) <= packet.SequenceNumber - (entry(s.lastAdded) + 1)
  inv {alt} swept-field: (forall p uint16 :: sbAt(s, p) == ((p - (old(s.lastAdded) + 1)) % s.size >= s.lastAdded - (old(s.lastAdded) + 1) ? entry(sbAt(s, p)) : nil))
  inv {alt} sweep-range-field: s.lastAdded - (old(s.lastAdded) + 1) <= packet.SequenceNumber - (old(s.lastAdded) + 1)
  inv ($i uint16) {alt} swept-count: (forall p uint16 :: sbAt(s, p) == ((p - (entry(s.lastAdded) + 1)) % s.size >= $i - 1 ? entry(sbAt(s, p)) : nil))
  inv ($i uint16) {alt} count-range: $i - 1 <= packet.SequenceNumber - (entry(s.lastAdded) + 1)
  inv ($i uint16) {alt} swept-down: (forall p uint16 :: sbAt(s, p) == ((packet.SequenceNumber - 1 - p) % s.size >= packet.SequenceNumber - 1 - $i ? entry(sbAt(s, p)) : nil))
  inv ($i uint16) {alt} down-range: packet.SequenceNumber - 1 - $i <= packet.SequenceNumber - 1 - entry(s.lastAdded)
  ensures inv: sbInv(s) && s.started && s.size == old(s.size)
  ensures first: !old(s.started) ==> s.lastAdded == packet.SequenceNumber && sbGet(s, packet.SequenceNumber) == packet && (forall p uint16 :: p != packet.SequenceNumber ==> sbGet(s, p) == nil)
  ensures newer: old(s.started) && packet.SequenceNumber != old(s.lastAdded) && packet.SequenceNumber - old(s.lastAdded) < 32768 ==> s.lastAdded == packet.SequenceNumber && sbGet(s, packet.SequenceNumber) == packet && (forall p uint16 :: p != packet.SequenceNumber && sbIn(s, p) ==> sbGet(s, p) == old(sbGet(s, p)))
  ensures late: old(s.started) && packet.SequenceNumber - old(s.lastAdded) >= 32768 ==> s.lastAdded == old(s.lastAdded) && (forall p uint16 :: p != packet.SequenceNumber ==> sbGet(s, p) == old(sbGet(s, p)))
  ensures late-stored: old(s.started) && packet.SequenceNumber - old(s.lastAdded) >= 32768 && old(sbIn(s, packet.SequenceNumber)) ==> sbGet(s, packet.SequenceNumber) == packet
  ensures late-dropped: old(s.started) && packet.SequenceNumber - old(s.lastAdded) >= 32768 && !old(sbIn(s, packet.SequenceNumber)) ==> sbGet(s, packet.SequenceNumber) == nil
  ensures repeat: old(s.started) && packet.SequenceNumber == old(s.lastAdded) ==> forall p uint16 :: sbGet(s, p) == old(sbGet(s, p))
  cover jump: old(s.started) && packet.SequenceNumber - old(s.lastAdded) < 32768 && packet.SequenceNumber - old(s.lastAdded) > 1

func utils.SendBuffer.Get(s, seq) (r)
  props C06
  mode bv
  requires sbInv(s)
  split s.size = 1 | 2 | 4 | 8 | 16 | 32 | 64 | 128 | 256 | 512 | 1024 | 2048 | 4096 | 8192 | 16384 | 32768
  modifies nothing
  inst seq
  nopatterns
  ensures exact: r == sbGet(s, seq)
  ensures that-number: r != nil ==> r.SequenceNumber == seq
