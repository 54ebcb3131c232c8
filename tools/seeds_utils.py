U = "internal/webrtc/utils"
SEEDS = [
dict(id="unwrap-tie", property="C01", pkg=U, needs="two packet numbers exactly 32768 apart, the later one larger",
 what="a number exactly half a cycle ahead is taken for one behind, so the newest position stops following it",
 edits=[(U+"/sequence_unwrapper.go", "	if delta > (sw.inMax >> 1) {", "	if delta >= (sw.inMax >> 1) {")],
 test='''package utils
import "testing"
func TestSeedDemo(t *testing.T) {
	u := NewSequenceUnwrapper(16)
	u.Unwrap(65535)
	u.Unwrap(100)
	if got := u.Unwrap(100 + 32768); got != 65536+100+32768 {
		t.Fatalf("got %d", got)
	}
}
'''),
dict(id="unwrap-reorder", property="C01", pkg=U, needs="a number from before the wraparound arriving after the wraparound, then another newer one",
 what="a late packet from before the wraparound becomes the newest number, so the packets after it are placed a cycle too far ahead",
 edits=[(U+"/sequence_unwrapper.go", "		sw.lastWrappedSeqNo = sw.wrapArounds - int64(sw.inMax) + int64(n)\n		return", "		sw.lastWrappedSeqNo = sw.wrapArounds - int64(sw.inMax) + int64(n)\n		if sw.lastWrappedSeqNo%int64(sw.inMax) == int64(sw.inMax)-1 {\n			sw.highestSequenceNumber = n\n		}\n		return")],
 test='''package utils
import "testing"
func TestSeedDemo(t *testing.T) {
	u := NewSequenceUnwrapper(16)
	u.Unwrap(65534)
	u.Unwrap(0)
	if got := u.Unwrap(65535); got != 65535 {
		t.Fatalf("late: %d", got)
	}
	if got := u.Unwrap(1); got != 65537 {
		t.Fatalf("next: %d", got)
	}
}
'''),
dict(id="jitter-stale-slot", property="C02", pkg=U, needs="a gap that slides the window over an undelivered packet, whose slot is exactly the last missing position before the new packet",
 what="the slot just before a newly arrived packet is not cleared, so a packet from a window ago is handed out under a wrong position",
 edits=[(U+"/jitter_buffer.go", "			for i := s.end + 1; i < seq; i++ {", "			for i := s.end + 1; i+1 < seq; i++ {")],
 test='''package utils
import (
	"context"
	"testing"
	"github.com/pion/rtp"
)
func TestSeedDemo(t *testing.T) {
	s := NewJitterBuffer(4, 0, context.Background())
	p := func(n int64) { s.Add(n, &rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(n)}}) }
	p(10)
	s.NextPackets()
	p(12)
	p(13)
	p(14)
	p(17) // 16 is missing; its slot held 12
	for i := 0; i < 20; i++ {
		ps, _ := s.NextPackets()
		at := s.GetNextStart() - int64(len(ps))
		for _, q := range ps {
			if int64(q.SequenceNumber) != at {
				t.Fatalf("packet %d handed out as %d", q.SequenceNumber, at)
			}
			at++
		}
	}
}
'''),
dict(id="jitter-skip-silent", property="C03", pkg=U, needs="two missing packets in a row, the second one first noticed in the call that skips the first",
 what="the caller is not told of a skip when the position after it is missing as well",
 edits=[(U+"/jitter_buffer.go", "			return nil, skippedPacket\n", "			return nil, moreSkips\n")],
 test='''package utils
import (
	"context"
	"testing"
	"github.com/pion/rtp"
)
func TestSeedDemo(t *testing.T) {
	s := NewJitterBuffer(16, 0, context.Background())
	s.Add(1, &rtp.Packet{})
	s.NextPackets()
	s.Add(4, &rtp.Packet{})
	s.NextPackets()
	from := s.GetNextStart()
	_, skipped := s.NextPackets()
	if (s.GetNextStart() > from) != skipped {
		t.Fatalf("moved from %d to %d, told %v", from, s.GetNextStart(), skipped)
	}
}
'''),
dict(id="jitter-timer-reuse", property="C03", pkg=U, needs="a missing packet waited for, arriving in time, then the buffer waiting for it again after a window slide is not needed: the timer of a run start must be dropped when the run is delivered",
 what="the waiting time of the next missing packet starts from the time of an earlier missing packet, so it is skipped before the timeout",
 edits=[(U+"/jitter_buffer.go", "			s.missingPacketTimers[s.nextStart] = time.Now()\n", "			since := time.Now()\n			if t, ok := s.missingPacketTimers[s.nextStart-1]; ok {\n				since = t\n			}\n			s.missingPacketTimers[s.nextStart] = since\n"),
   (U+"/jitter_buffer.go", "	delete(s.missingPacketTimers, s.nextStart)\n\n	end := s.end", "	end := s.end")],
 test='''package utils
import (
	"context"
	"testing"
	"time"
	"github.com/pion/rtp"
)
func TestSeedDemo(t *testing.T) {
	s := NewJitterBuffer(16, 200, context.Background())
	s.Add(1, &rtp.Packet{})
	s.NextPackets()
	s.Add(3, &rtp.Packet{})
	s.NextPackets() // 2 missing
	time.Sleep(150 * time.Millisecond)
	s.SkipPacket(2)
	s.NextPackets() // 3
	s.Add(1, &rtp.Packet{})
	s.Add(6, &rtp.Packet{})
	s.NextPackets() // 4 missing
	time.Sleep(150 * time.Millisecond)
	s.Add(4, &rtp.Packet{})
	s.NextPackets() // 4, its timer stays behind
	s.NextPackets() // 5 missing: first noticed now
	time.Sleep(100 * time.Millisecond)
	if ps, skipped := s.NextPackets(); skipped || len(ps) > 0 {
		t.Fatal("packet 5 was skipped after 100ms of 200ms")
	}
}
'''),
dict(id="rlog-reorder-blocks", property="C04", pkg=U, needs="a retransmitted packet that closes the oldest gap and is followed by another gap, with the sequence wrapped",
 what="after the oldest gap is closed the log jumps to the newest packet, so later losses are not reported",
 edits=[(U+"/receive_log.go", "			s.lastConsecutive = seq\n			s.fixLastConsecutive() // there might be other valid packets after seq", "			s.lastConsecutive = seq\n			if seq < s.end {\n				s.fixLastConsecutive() // there might be other valid packets after seq\n			} else {\n				s.lastConsecutive = s.end\n			}")],
 test='''package utils
import "testing"
func TestSeedDemo(t *testing.T) {
	s, _ := NewReceiveLog(64)
	for _, n := range []uint16{65530, 65532, 65533, 65535, 2} {
		s.Add(n)
	}
	s.Add(65531)
	m := s.MissingSeqNumbers(0)
	if len(m) != 3 || m[0] != 65534 {
		t.Fatalf("missing %v", m)
	}
}
'''),
dict(id="nack-last-bit", property="C05", pkg=U, needs="a pair whose mask has exactly one bit set, and not the lowest",
 what="a lost packet named by the only bit of a mask is dropped when the pairs are expanded",
 edits=[(U+"/nack.go", "		for i := 0; i < 16; i++ {\n", "		for i := 0; i < 16; i++ {\n			if i > 0 && uint32(pair.LostPackets) <= uint32(1)<<i {\n				break\n			}\n"),],
 test='''package utils
import (
	"testing"
	"github.com/pion/rtcp"
)
func TestSeedDemo(t *testing.T) {
	l := NackPairsToSequenceNumbers([]rtcp.NackPair{{PacketID: 10, LostPackets: 4}})
	if len(l) != 2 || l[1] != 13 {
		t.Fatal(l)
	}
}
'''),
dict(id="nack-wrap", property="C05", pkg=U, needs="a list whose numbers wrap to a small number just after a pair starting near 65535, more than one pair apart",
 what="a lost packet more than 16 numbers after a wrapped pair start falls out of the mask and is never requested",
 edits=[(U+"/nack.go", "		if m-nackPair.PacketID > 16 {", "		if m-nackPair.PacketID > 16 && !(m < 14 && nackPair.PacketID > 65500) {")],
 test='''package utils
import "testing"
func TestSeedDemo(t *testing.T) {
	l := NackPairsToSequenceNumbers(NackPairs([]uint16{65510, 3, 9}))
	if len(l) != 3 || l[1] != 3 || l[2] != 9 {
		t.Fatal(l)
	}
}
'''),
dict(id="sendbuf-wrap-stale", property="C06", pkg=U, needs="a gap in the sent numbers across the 16-bit wraparound",
 what="packets from a window ago stay in the slots of a gap that crosses the wraparound and are returned for the wrong number",
 edits=[(U+"/send_buffer.go", "		for i := s.lastAdded + 1; i != seq; i++ {", "		for i := s.lastAdded + 1; i < seq; i++ {")],
 test='''package utils
import (
	"testing"
	"github.com/pion/rtp"
)
func TestSeedDemo(t *testing.T) {
	s, _ := NewSendBuffer(8)
	for n := 65526; n != 65534; n++ {
		s.Add(&rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(n)}})
	}
	s.Add(&rtp.Packet{Header: rtp.Header{SequenceNumber: 1}})
	for n := 0; n < 65536; n++ {
		if p := s.Get(uint16(n)); p != nil && p.SequenceNumber != uint16(n) {
			t.Fatalf("Get(%d) returned %d", n, p.SequenceNumber)
		}
	}
}
'''),
]
