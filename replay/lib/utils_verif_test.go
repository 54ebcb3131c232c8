package utils

// Random search for a concrete failing input, run on the real code against plain reference models
// that follow the properties' statements. Bounded: it decides nothing by itself.

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"os"
	"slices"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/pion/rtcp"
	"github.com/pion/rtp"
	log "github.com/sirupsen/logrus"
)

func vSeed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

func vUntil() time.Time {
	n, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if n == 0 {
		n = 5
	}
	return time.Now().Add(time.Duration(n) * time.Second / 2)
}

// vRun runs cases until the budget is used; a case returns "" or what went wrong.
func vRun(t *testing.T, f func(r *rand.Rand) (input, bad string)) {
	log.SetOutput(io.Discard)
	fmt.Println("REPLAY-START")
	until := vUntil()
	n := 0
	for seed := vSeed() * 1000003; time.Now().Before(until) && n < 200000; seed++ {
		n++
		var in, bad string
		for try := 0; try < 3 && (try == 0 || bad != ""); try++ { // only what fails again is reported
			func() {
				defer func() {
					if x := recover(); x != nil {
						bad = fmt.Sprintf("panic: %v", x)
					}
				}()
				in, bad = f(rand.New(rand.NewSource(seed)))
			}()
		}
		if bad != "" {
			fmt.Printf("REPLAY-FAIL case seed %d: %s: %s\n", seed, in, bad)
			t.FailNow()
		}
	}
	fmt.Printf("REPLAY-STATS {\"cases\": %d}\n", n)
}

func tail(h []string) string {
	if len(h) > 40 {
		return fmt.Sprintf("(%d steps before) %v", len(h)-40, h[len(h)-40:])
	}
	return fmt.Sprint(h)
}

func vStep(r *rand.Rand, cur int) int {
	switch r.Intn(10) {
	case 0:
		return cur + r.Intn(65536)
	case 1:
		return cur - r.Intn(100)
	case 2:
		return cur + 32760 + r.Intn(16)
	case 3:
		return cur - r.Intn(3000)
	case 4:
		return cur + r.Intn(3000)
	}
	return cur + 1 + r.Intn(4)
}

func TestVerifReplayC01(t *testing.T) {
	vRun(t, func(r *rand.Rand) (string, string) {
		u := NewSequenceUnwrapper(16)
		var newest int64
		started := false
		var h []string
		cur := r.Intn(65536)
		for i := 0; i < 300; i++ {
			if i > 0 {
				cur = vStep(r, cur)
			}
			n := cur & 65535
			h = append(h, strconv.Itoa(n))
			got := u.Unwrap(uint64(n))
			want := int64(n)
			if started {
				d := (int64(n) - newest%65536 + 65536) % 65536
				if d == 32768 {
					if int64(n) > newest%65536 {
						want = newest + d
					} else {
						want = newest - d
					}
				} else if d < 32768 {
					want = newest + d
				} else {
					want = newest - (65536 - d)
				}
				up := want == newest+d
				if want <= 0 && want < newest {
					want += 65536
					newest += 65536
					if got == want-65536 && got >= 0 { // not positive: zero may stay
						want -= 65536
						newest -= 65536
					}
				}
				if up {
					newest = want
				}
			} else {
				newest = want
			}
			started = true
			if got != want {
				return fmt.Sprintf("Unwrap of %s", tail(h)), fmt.Sprintf("returned %d, want %d", got, want)
			}
			cur = int(newest % 65536)
		}
		return "", ""
	})
}

func TestVerifReplayC02(t *testing.T) { vRun(t, vJitter) }
func TestVerifReplayC03(t *testing.T) { vRun(t, vJitter) }

func vJitter(r *rand.Rand) (string, string) {
	sizes := []int{1, 2, 3, 7, 16, 64, 100, 512}
	size := int64(sizes[r.Intn(len(sizes))])
	timeoutMs := []int{0, 0, 0, 10000}[r.Intn(4)]
	if r.Intn(40) == 0 {
		timeoutMs = 3
	}
	s := NewJitterBuffer(uint16(size), uint16(timeoutMs), context.Background())
	h := []string{fmt.Sprintf("size=%d timeout=%dms", size, timeoutMs)}
	held := map[int64]*rtp.Packet{}
	since := map[int64]time.Time{} // first time the call noticed position missing (before the call)
	sinceAfter := map[int64]time.Time{}
	var end, next int64
	started := false
	var skippedPos int64
	hasSkipped := false
	var base int64
	switch r.Intn(3) {
	case 1:
		base = int64(r.Intn(70000))
	case 2:
		base = int64(r.Intn(5))
	}
	cur := base
	check := func(what string, p int64) string {
		if !started && s.GetNextStart() == 0 && next == 0 {
			return ""
		}
		if s.GetNextStart() != next {
			return fmt.Sprintf("%s: next expected position is %d, want %d", what, s.GetNextStart(), next)
		}
		return ""
	}
	for i := 0; i < 200; i++ {
		switch k := r.Intn(12); {
		case k < 7:
			p := cur
			switch r.Intn(8) {
			case 0:
				p = cur + int64(r.Intn(5))
			case 1:
				p = cur - int64(r.Intn(int(2*size)+2))
			case 2:
				p = cur + size - 2 + int64(r.Intn(4))
			case 3:
				p = cur + int64(r.Intn(int(3*size)+1))
			}
			if p < 0 {
				p = 0
			}
			pkt := &rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(p), Timestamp: rand.Uint32()}}
			h = append(h, fmt.Sprintf("Add(%d)", p))
			got := s.Add(p, pkt)
			e := end
			refused := e-p >= size || p <= e && held[p] != nil
			if got == refused {
				return tail(h), fmt.Sprintf("Add returned %v", got)
			}
			if got {
				if !started {
					started = true
					if next < p {
						next = p
					}
				}
				if p > end {
					end = p
				}
				if next < end-size+1 {
					next = end - size + 1
				}
				held[p] = pkt
				for q := range held {
					if q <= end-size {
						delete(held, q)
					}
				}
				if p >= cur {
					cur = p + 1
				}
			}
			if b := check("Add", p); b != "" {
				return tail(h), b
			}
		case k < 10:
			if timeoutMs == 3 && r.Intn(4) == 0 {
				time.Sleep(4 * time.Millisecond)
			}
			h = append(h, "NextPackets()")
			before := time.Now()
			ps, sk := s.NextPackets()
			after := time.Now()
			old := next
			got := s.GetNextStart()
			first := got - int64(len(ps))
			if first < old {
				return tail(h), fmt.Sprintf("next expected position went from %d to %d with %d packets", old, got, len(ps))
			}
			to := time.Duration(timeoutMs) * time.Millisecond
			for p := old; p < first; p++ {
				if held[p] != nil {
					return tail(h), fmt.Sprintf("position %d was passed although its packet is stored", p)
				}
				t0, ok := since[p]
				if !ok {
					return tail(h), fmt.Sprintf("position %d was skipped though it was never waited for", p)
				}
				if after.Sub(t0) < to {
					return tail(h), fmt.Sprintf("position %d was skipped after %v", p, after.Sub(t0))
				}
				if p > end {
					return tail(h), fmt.Sprintf("position %d beyond the newest was skipped", p)
				}
			}
			for j, p := range ps {
				if p == nil || held[first+int64(j)] != p {
					return tail(h), fmt.Sprintf("packet handed out for position %d is not the one stored", first+int64(j))
				}
				delete(held, first+int64(j))
			}
			if sk != (first > old) {
				return tail(h), fmt.Sprintf("skip indication %v, positions passed: %d", sk, first-old)
			}
			if first > old {
				hasSkipped, skippedPos = true, first-1
			}
			next = got
			if len(ps) > 0 && held[next] != nil && next <= end {
				return tail(h), fmt.Sprintf("position %d was there but not handed out", next)
			}
			if len(ps) == 0 && started && next <= end {
				if held[next] != nil {
					return tail(h), fmt.Sprintf("position %d is there but nothing was handed out", next)
				}
				if t0, ok := sinceAfter[next]; ok && before.Sub(t0) > to {
					return tail(h), fmt.Sprintf("position %d still waited for after %v", next, before.Sub(t0))
				}
				if _, ok := since[next]; !ok {
					since[next], sinceAfter[next] = before, after
				}
			}
			if len(ps) > 0 {
				for q := range since {
					if q < next {
						delete(since, q)
						delete(sinceAfter, q)
					}
				}
			}
		case k == 10:
			p := next + int64(r.Intn(3)) - 1
			if p < 0 {
				p = 0
			}
			h = append(h, fmt.Sprintf("SkipPacket(%d)", p))
			s.SkipPacket(p)
			if p == next {
				delete(held, p)
				if p > end { // its slot still belongs to a position already passed
					for q := p - size; q > end-size && q >= 0; q -= size {
						delete(held, q)
					}
				}
				next++
				hasSkipped, skippedPos = true, p
			}
			if b := check("SkipPacket", p); b != "" {
				return tail(h), b
			}
		default:
			h = append(h, "GetAndClearLastSkipped()")
			p, ok := s.GetAndClearLastSkipped()
			if ok != hasSkipped || ok && p != skippedPos {
				return tail(h), fmt.Sprintf("reported (%d, %v), want (%d, %v)", p, ok, skippedPos, hasSkipped)
			}
			hasSkipped = false
		}
	}
	return "", ""
}

func TestVerifReplayC04(t *testing.T) {
	vRun(t, func(r *rand.Rand) (string, string) {
		k := 6 + r.Intn(10)
		if r.Intn(4) > 0 {
			k = 6 + r.Intn(2)
		}
		size := 1 << k
		s, err := NewReceiveLog(uint16(size))
		h := []string{fmt.Sprintf("size=%d", size)}
		if err != nil {
			return tail(h), err.Error()
		}
		recv := map[uint16]bool{}
		var end uint16
		started := false
		openAt := func(n uint16) uint16 { return end - n } // distance behind newest
		var given uint16                                   // numbers at distance >= given are not open any more
		slide := func(to uint16) {
			for n := range recv {
				if to-n >= uint16(size) {
					delete(recv, n)
				}
			}
		}
		advance := func() {
			for given > 0 && recv[end-given+1] {
				given--
			}
		}
		cur := r.Intn(65536)
		for i := 0; i < 120; i++ {
			if i > 0 {
				switch r.Intn(8) {
				case 0:
					cur = vStep(r, cur)
				case 1:
					cur = int(end) - r.Intn(size+3)
				case 2:
					cur = int(end) + size - 2 + r.Intn(5)
				default:
					cur = int(end) + 1 + r.Intn(3)
				}
			}
			n := uint16(cur)
			switch r.Intn(6) {
			case 0:
				h = append(h, fmt.Sprintf("IgnoreSeqNum(%d)", n))
				s.IgnoreSeqNum(n)
				if started && end-n < uint16(size) {
					recv[n] = true
					advance()
				}
			default:
				h = append(h, fmt.Sprintf("Add(%d)", n))
				s.Add(n)
				switch d := n - end; {
				case !started:
					started, end, given = true, n, 0
					recv[n] = true
				case d == 0:
				case d < 32768:
					slide(n)
					g := int(given) + int(d)
					end = n
					recv[n] = true
					if g > size {
						g = size
					}
					given = uint16(g)
					advance()
				default:
					if end-n < uint16(size) {
						recv[n] = true
						advance()
					}
				}
			}
			if !started {
				continue
			}
			// probe
			for j := 0; j < 20; j++ {
				p := end - uint16(r.Intn(size+4)) + 2
				if r.Intn(8) == 0 {
					p = uint16(r.Intn(65536))
				}
				want := recv[p] && end-p < uint16(size)
				if s.Get(p) != want {
					return tail(h), fmt.Sprintf("Get(%d) = %v (newest %d)", p, !want, end)
				}
			}
			skip := uint16(0)
			if r.Intn(3) == 0 {
				skip = uint16(r.Intn(size + 2))
			}
			got := s.MissingSeqNumbers(skip)
			var want []uint16
			for d := int(given); d >= int(skip) && d >= 0; d-- {
				p := end - uint16(d)
				if d < int(given) && d < size && !recv[p] {
					want = append(want, p)
				}
			}
			if !slices.Equal(got, want) {
				return tail(h), fmt.Sprintf("MissingSeqNumbers(%d) = %v, want %v (newest %d)", skip, short(got), short(want), end)
			}
		}
		_ = openAt
		return "", ""
	})
}

func short(l []uint16) string {
	if len(l) > 30 {
		return fmt.Sprintf("%v… (%d)", l[:30], len(l))
	}
	return fmt.Sprint(l)
}

func vNames(p rtcp.NackPair) []uint16 {
	l := []uint16{p.PacketID}
	for i := 0; i < 16; i++ {
		if uint16(p.LostPackets)&(1<<i) != 0 {
			l = append(l, p.PacketID+uint16(i)+1)
		}
	}
	return l
}

func vSet(l []uint16) string {
	m := map[int]bool{}
	for _, x := range l {
		m[int(x)] = true
	}
	var k []int
	for x := range m {
		k = append(k, x)
	}
	sort.Ints(k)
	return fmt.Sprint(k)
}

func TestVerifReplayC05(t *testing.T) {
	vRun(t, func(r *rand.Rand) (string, string) {
		if r.Intn(2) == 0 {
			var pairs []rtcp.NackPair
			var want []uint16
			for i := r.Intn(5); i >= 0; i-- {
				p := rtcp.NackPair{PacketID: uint16(r.Intn(65536)), LostPackets: rtcp.PacketBitmap(r.Intn(65536))}
				if r.Intn(3) == 0 {
					p.PacketID = uint16(65530 + r.Intn(6))
				}
				if r.Intn(3) == 0 {
					p.LostPackets = 1 << r.Intn(16)
				}
				pairs = append(pairs, p)
				want = append(want, vNames(p)...)
			}
			if got := NackPairsToSequenceNumbers(pairs); vSet(got) != vSet(want) {
				return fmt.Sprintf("NackPairsToSequenceNumbers(%v)", pairs), fmt.Sprintf("returned %v", got)
			}
			return "", ""
		}
		var l []uint16
		cur := uint16(r.Intn(65536))
		if r.Intn(3) == 0 {
			cur = uint16(65520 + r.Intn(16))
		}
		for i := r.Intn(40); i > 0; i-- {
			l = append(l, cur)
			switch r.Intn(6) {
			case 0:
				cur += uint16(15 + r.Intn(4))
			case 1:
				cur = uint16(r.Intn(65536))
			case 2:
			default:
				cur += uint16(1 + r.Intn(3))
			}
		}
		pairs := NackPairs(append([]uint16(nil), l...))
		var got []uint16
		for _, p := range pairs {
			got = append(got, vNames(p)...)
		}
		if vSet(got) != vSet(l) {
			return fmt.Sprintf("NackPairs(%v)", l), fmt.Sprintf("returned %v", pairs)
		}
		if len(l) > 0 && pairs[0].PacketID != l[0] {
			return fmt.Sprintf("NackPairs(%v)", l), "the first pair does not start with the first number"
		}
		return "", ""
	})
}

func TestVerifReplayC06(t *testing.T) {
	vRun(t, func(r *rand.Rand) (string, string) {
		size := 1 << r.Intn(16)
		if r.Intn(2) == 0 {
			size = 1 << r.Intn(6)
		}
		s, err := NewSendBuffer(uint16(size))
		h := []string{fmt.Sprintf("size=%d", size)}
		if err != nil {
			return tail(h), err.Error()
		}
		held := map[uint16]*rtp.Packet{}
		var end uint16
		started := false
		cur := r.Intn(65536)
		for i := 0; i < 200; i++ {
			if i > 0 {
				switch r.Intn(8) {
				case 0:
					cur = vStep(r, cur)
				case 1, 2:
					cur = int(end) - r.Intn(size+3)
				case 3:
					cur = int(end) + size - 2 + r.Intn(5)
				default:
					cur = int(end) + 1 + r.Intn(3)
				}
			}
			n := uint16(cur)
			p := &rtp.Packet{Header: rtp.Header{SequenceNumber: n}}
			h = append(h, fmt.Sprintf("Add(%d)", n))
			s.Add(p)
			switch d := n - end; {
			case !started:
				started, end = true, n
				held[n] = p
			case d == 0:
			case d < 32768:
				end = n
				held[n] = p
				for q := range held {
					if end-q >= uint16(size) {
						delete(held, q)
					}
				}
			default:
				if end-n < uint16(size) {
					held[n] = p
				}
			}
			for j := 0; j < 40; j++ {
				q := end - uint16(r.Intn(size+4)) + 2
				switch r.Intn(8) {
				case 0:
					q = uint16(r.Intn(65536))
				case 1:
					q = n
				}
				got := s.Get(q)
				if got != nil && got.SequenceNumber != q {
					return tail(h), fmt.Sprintf("Get(%d) returned packet %d", q, got.SequenceNumber)
				}
				if got != held[q] {
					return tail(h), fmt.Sprintf("Get(%d) = %v, want %v (newest %d)", q, got != nil, held[q] != nil, end)
				}
			}
		}
		return "", ""
	})
}
