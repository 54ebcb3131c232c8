package recorder

// Random search for a concrete failing input, run on the real code against the properties'
// statements. Bounded: it decides nothing by itself.

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/at-wat/ebml-go"
	"github.com/at-wat/ebml-go/webm"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/pion/rtp"
	log "github.com/sirupsen/logrus"
)

func vRun(t *testing.T, f func(r *rand.Rand, dir string) (input, bad string)) {
	log.SetOutput(io.Discard)
	fmt.Println("REPLAY-START")
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 5
	}
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		scratch = t.TempDir()
	}
	sd, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	until := time.Now().Add(time.Duration(b) * time.Second / 2)
	n := 0
	for seed := sd * 1000003; time.Now().Before(until) && n < 100000; seed++ {
		n++
		var in, bad string
		for try := 0; try < 3 && (try == 0 || bad != ""); try++ { // only what fails again is reported
			dir, err := os.MkdirTemp(scratch, "c")
			if err != nil {
				t.Fatal(err)
			}
			bad = ""
			done := make(chan bool)
			go func() {
				defer close(done)
				defer func() {
					if x := recover(); x != nil {
						bad = fmt.Sprintf("panic: %v", x)
					}
				}()
				in, bad = f(rand.New(rand.NewSource(seed)), dir)
			}()
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				bad, try = "no return within 20 s", 3
			}
			os.RemoveAll(dir)
		}
		if bad != "" {
			fmt.Printf("REPLAY-FAIL case seed %d: %s: %s\n", seed, in, bad)
			t.FailNow()
		}
	}
	fmt.Printf("REPLAY-STATS {\"cases\": %d}\n", n)
}

// ---- packets

type vPkt struct {
	p       *rtp.Packet
	data    []byte // VP8 data, nil if malformed
	start   bool
	key     bool
	skip    bool // not a packet: a skip notice for this number
	seq     uint16
	audio   bool
	junk    bool
	ignored bool
}

type vGen struct {
	r    *rand.Rand
	seq  uint16
	ts   uint32
	pid  uint16
	uniq uint32
	ext  bool
	big  bool // 15 bit picture ids
	l, k bool
}

func (g *vGen) desc(start bool, part int) []byte {
	b := []byte{0}
	if start {
		b[0] |= 0x10
	}
	b[0] |= byte(part & 7)
	if g.ext {
		b[0] |= 0x80
		x := byte(0x80)
		if g.l {
			x |= 0x40
		}
		if g.k {
			x |= 0x10
		}
		b = append(b, x)
		if g.big {
			b = append(b, 0x80|byte(g.pid>>8)&0x7f, byte(g.pid))
		} else {
			b = append(b, byte(g.pid)&0x7f)
		}
		if g.l {
			b = append(b, byte(g.r.Intn(256)))
		}
		if g.k {
			b = append(b, byte(g.r.Intn(256)))
		}
	}
	return b
}

// frame: the packets of one frame, numbered from g.seq
func (g *vGen) frame(key bool) []vPkt {
	n := 1
	if g.r.Intn(3) > 0 {
		n = 1 + g.r.Intn(4)
	}
	var out []vPkt
	for i := 0; i < n; i++ {
		sz := 12 + g.r.Intn(30)
		if i > 0 && g.r.Intn(3) == 0 {
			sz = 4
		}
		d := make([]byte, sz)
		g.r.Read(d)
		g.uniq++
		if i == 0 {
			d[0] &^= 1
			if !key {
				d[0] |= 1
			} else {
				d[3], d[4], d[5] = 0x9d, 0x01, 0x2a
				d[6], d[7] = byte(16+g.r.Intn(200)), byte(g.r.Intn(4))
				d[8], d[9] = byte(16+g.r.Intn(200)), byte(g.r.Intn(4))
			}
		}
		part, st := 0, i == 0
		if i > 0 && g.r.Intn(6) == 0 {
			part, st = 1+g.r.Intn(3), g.r.Intn(2) == 0
		}
		h := g.desc(st, part)
		m := i == n-1
		p := &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: g.seq, Timestamp: g.ts, Marker: m}, Payload: append(append([]byte{}, h...), d...)}
		out = append(out, vPkt{p: p, data: d, start: i == 0, key: key && i == 0, seq: g.seq})
		g.seq++
	}
	g.ts += uint32(1 + g.r.Intn(20000))
	switch g.r.Intn(40) {
	case 0:
		g.ts += 1 << 31
	}
	g.pid++
	if !g.big {
		g.pid &= 0x7f
	} else {
		g.pid &= 0x7fff
	}
	return out
}

func (g *vGen) junk() vPkt {
	n := 1 + g.r.Intn(6)
	b := make([]byte, n)
	g.r.Read(b)
	if g.r.Intn(2) == 0 {
		b[0] |= 0x90
		b[0] &^= 7
	}
	if n > 1 && g.r.Intn(2) == 0 {
		b[1] |= 0x80
	}
	s := g.seq
	if g.r.Intn(2) == 0 {
		g.seq++
	}
	return vPkt{p: &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: s, Timestamp: g.ts, Marker: g.r.Intn(2) == 0}, Payload: b}, junk: true, seq: s}
}

// what the descriptor of any payload says (RFC 7741)
func vParse(b []byte) (data []byte, start, key, ok bool) {
	if len(b) == 0 {
		return
	}
	h := 1
	if b[0]&0x80 != 0 {
		if len(b) < 2 {
			return
		}
		x := b[1]
		h = 2
		if x&0x80 != 0 {
			if len(b) <= h {
				return
			}
			if b[h]&0x80 != 0 {
				h++
			}
			h++
		}
		if x&0x40 != 0 {
			h++
		}
		if x&0x30 != 0 {
			h++
		}
	}
	if len(b) <= h {
		return
	}
	data = b[h:]
	start = b[0]&0x10 != 0 && b[0]&7 == 0
	key = start && data[0]&1 == 0
	return data, start, key, true
}

// stream: a random sequence of frames with losses, repetitions, skip notices and junk
func vStream(r *rand.Rand, frames int, lossy bool) []vPkt {
	g := &vGen{r: r, seq: uint16(r.Intn(65536)), ts: r.Uint32(), pid: uint16(r.Intn(32768)), ext: r.Intn(4) > 0, big: r.Intn(2) == 0, l: r.Intn(3) == 0, k: r.Intn(4) == 0}
	if r.Intn(2) == 0 {
		g.seq = uint16(65536 - r.Intn(20))
		g.ts = uint32(1<<32 - 1 - r.Intn(100000))
	}
	if r.Intn(3) == 0 {
		g.pid = uint16(127 - r.Intn(5))
		if g.big {
			g.pid = uint16(32767 - r.Intn(5))
		}
	}
	var in, out []vPkt
	for i := 0; i < frames; i++ {
		in = append(in, g.frame(i == 0 && r.Intn(3) > 0 || r.Intn(5) == 0)...)
		if lossy && r.Intn(8) == 0 {
			in = append(in, g.junk())
		}
		if lossy && r.Intn(12) == 0 {
			in = append(in, vPkt{p: &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: g.seq, Timestamp: g.ts}}, ignored: true, seq: g.seq})
		}
	}
	loss := 0
	if lossy {
		loss = 3 + r.Intn(25)
	}
	for _, p := range in {
		if loss > 0 && r.Intn(loss) == 0 {
			switch r.Intn(5) {
			case 0, 1:
				if r.Intn(2) == 0 {
					out = append(out, vPkt{skip: true, seq: p.seq})
				}
			case 2:
				out = append(out, p, p)
			case 3:
				out = append(out, vPkt{skip: true, seq: p.seq - uint16(r.Intn(3))}, p)
			case 4:
				q := *p.p
				q.Marker = !q.Marker
				p.p = &q
				out = append(out, p)
			}
			continue
		}
		out = append(out, p)
	}
	return out
}

func vShow(ps []vPkt) string {
	var s []string
	for _, p := range ps {
		switch {
		case p.skip:
			s = append(s, fmt.Sprintf("skip(%d)", p.seq))
		case p.p == nil:
			s = append(s, "?")
		default:
			d := p.p.Payload
			x := fmt.Sprintf("%x", d)
			if len(d) > 16 {
				x = fmt.Sprintf("%x..(%d)", d[:16], len(d))
			}
			m := ""
			if p.p.Marker {
				m = " M"
			}
			s = append(s, fmt.Sprintf("[seq %d ts %d%s %s]", p.p.SequenceNumber, p.p.Timestamp, m, x))
		}
	}
	if len(s) > 40 {
		s = append([]string{"…"}, s[len(s)-40:]...)
	}
	return strings.Join(s, " ")
}

// ---- a writer that records what it is given

type vBlock struct {
	kf   bool
	ts   int64
	data []byte
}
type vWriter struct {
	blocks []vBlock
	closes int
	fail   func() bool
	bad    string
}

func (w *vWriter) Write(kf bool, ts int64, b []byte) (int, error) {
	if w.closes > 0 && w.bad == "" {
		w.bad = "written after closing"
	}
	w.blocks = append(w.blocks, vBlock{kf, ts, append([]byte{}, b...)})
	if w.fail != nil && w.fail() {
		return 0, errors.New("write failed")
	}
	return len(b), nil
}
func (w *vWriter) Close() error {
	w.closes++
	return nil
}

// a writer that fails now and then
type vFlaky struct {
	webm.BlockWriteCloser
	r *rand.Rand
}

func (w *vFlaky) Write(kf bool, ts int64, b []byte) (int, error) {
	if w.r.Intn(4) == 0 {
		return 0, errors.New("write failed")
	}
	return w.BlockWriteCloser.Write(kf, ts, b)
}

type vAsker struct{ n int }

func (a *vAsker) RequestKeyframe()              { a.n++ }
func (a *vAsker) RequestKeyframeForSSRC(uint32) { a.n++ }

// vMock: a recorder whose writers are in place already
func vMock(r *rand.Rand, custom bool, fail func() bool) (*WebmRecorder, *vWriter, *vWriter, *vAsker) {
	rec := NewWebmRecorder("/dev/null", 0o600, uint16(8+r.Intn(60)), uint16(8+r.Intn(60)), custom, false)
	rec.WithContext(context.Background())
	a := &vAsker{}
	rec.SetKeyframeRequester(a)
	rec.SetHasVideo(true)
	rec.SetHasAudio(true)
	v, u := &vWriter{fail: fail}, &vWriter{}
	rec.videoWriter, rec.audioWriter = v, u
	rec.hasValidAudio, rec.hasValidVideo = true, true
	return rec, v, u, a
}

// the custom sampler, followed packet by packet with the statements of C13, C14 and C15
func vCustom(which string, r *rand.Rand) (string, string) {
	var failing bool
	rec, w, _, a := vMock(r, true, func() bool { failing = r.Intn(6) == 0; return failing })
	if r.Intn(2) == 0 {
		w.fail = nil
	}
	ps := vStream(r, 3+r.Intn(25), true)
	type part struct {
		data []byte
		p    *rtp.Packet
	}
	var cur []part        // frame in progress
	damaged := true       // no non-key frame may be written
	var keyTs []uint32    // timestamps of keyframe starts seen
	var lastTs uint32     // timestamp of the last frame written
	var pos time.Duration // position of the last frame written
	written := 0
	askedThen := 0 // requests made before the frame in progress
	var prevSeq uint16
	havePrev := false
	for i, k := range ps {
		rec.lastKeyframeRequestTime = time.Time{}
		asked, before := a.n, len(w.blocks)
		if len(cur) > 0 {
			asked = askedThen
		}
		askedThen = asked
		wasDamaged := damaged
		lost := false
		unsure := false
		if k.skip {
			rec.NotifySkippedPacket(k.seq)
			if len(w.blocks) != before && which == "C13" {
				return vShow(ps[:i+1]), "a frame was written on a skip notice"
			}
			if len(cur) > 0 && k.seq-cur[0].p.SequenceNumber <= cur[len(cur)-1].p.SequenceNumber-cur[0].p.SequenceNumber {
				cur = nil
				lost = true
			}
			// a notice for another number may or may not be taken to belong to the frame
			if len(cur) > 0 && rec.currentFrame == nil && !wasDamaged {
				cur = nil
				lost = true
			}
		} else {
			failing = false
			rec.PushVideo(k.p)
			nw := len(w.blocks) - before
			if len(k.p.Payload) == 0 {
				if nw != 0 {
					return vShow(ps[:i+1]), "an empty packet made a frame"
				}
				continue
			}
			gap := havePrev && k.p.SequenceNumber != prevSeq+1
			prevSeq, havePrev = k.p.SequenceNumber, true
			data, start, key, ok := vParse(k.p.Payload)
			if len(cur) > 0 && (gap || !ok || start) {
				cur = nil
				lost = true
			}
			if ok && start {
				cur = []part{{data, k.p}}
				if key {
					keyTs = append(keyTs, k.p.Timestamp)
					unsure = true
				}
			} else if ok && len(cur) > 0 {
				cur = append(cur, part{data, k.p})
			} else { // malformed, or part of a frame that was lost
				damaged = true
			}
			if which == "C13" && nw > 1 {
				return vShow(ps[:i+1]), "two frames written for one packet"
			}
			if lost {
				damaged = true
			}
			if nw > 0 {
				b := w.blocks[len(w.blocks)-1]
				var want []byte
				for _, c := range cur {
					want = append(want, c.data...)
				}
				if which == "C13" {
					if len(cur) == 0 || !k.p.Marker {
						return vShow(ps[:i+1]), "a frame was written but no complete frame ends here"
					}
					if !bytes.Equal(want, b.data) {
						return vShow(ps[:i+1]), fmt.Sprintf("frame written is %x, the packets carry %x", b.data, want)
					}
				}
				isKey := len(b.data) > 0 && b.data[0]&1 == 0
				if which == "C14" {
					if b.kf != isKey {
						return vShow(ps[:i+1]), fmt.Sprintf("keyframe flag %v, header says %v", b.kf, isKey)
					}
					if damaged && !isKey {
						return vShow(ps[:i+1]), "not a keyframe, but the first frame after damage"
					}
				}
				if which == "C15" {
					d := rec.VideoTimestamp() - pos
					adv := func(base uint32) time.Duration {
						return time.Duration(uint64(k.p.Timestamp-base) * 1000000000 / 90000)
					}
					okTs := false
					if written > 0 {
						okTs = d >= adv(lastTs)-2 && d <= adv(lastTs)+2
					} else {
						for _, x := range keyTs {
							okTs = okTs || d >= adv(x)-2 && d <= adv(x)+2
						}
					}
					if !okTs {
						return vShow(ps[:i+1]), fmt.Sprintf("position moved by %v, the RTP timestamp by %d", d, k.p.Timestamp-lastTs)
					}
					if b.ts != int64(rec.VideoTimestamp()/time.Millisecond) {
						return vShow(ps[:i+1]), fmt.Sprintf("block at %d ms, position %v", b.ts, rec.VideoTimestamp())
					}
					if n := len(w.blocks); n > 1 && w.blocks[n-2].ts > b.ts {
						return vShow(ps[:i+1]), "block earlier than the one before"
					}
				}
				pos, lastTs = rec.VideoTimestamp(), k.p.Timestamp
				written++
				damaged = failing || damaged && !isKey
				lost = lost || failing
				cur = nil
			} else {
				if which == "C15" && rec.VideoTimestamp() != pos {
					return vShow(ps[:i+1]), "position moved without a frame written"
				}
				if ok && len(cur) > 0 && k.p.Marker { // complete, not written
					cur = nil
					lost = true
					damaged = true
				}
			}
		}
		if lost && k.skip {
			damaged = true
		}
		if which == "C14" && lost && !wasDamaged && !unsure && a.n == asked {
			return vShow(ps[:i+1]), "video was lost, but no keyframe was asked for"
		}
	}
	return "", ""
}

// the built-in samplers
func vBuiltin(which string, r *rand.Rand) (string, string) {
	rec, w, u, _ := vMock(r, r.Intn(2) == 0, nil)
	video := !rec.useCustomSampler
	var ps []vPkt
	vs := vStream(r, 3+r.Intn(20), r.Intn(2) == 0)
	seq := uint16(r.Intn(65536))
	ats := r.Uint32()
	step := []uint32{960, 120, 240, 480, 1920}[r.Intn(5)]
	for _, p := range vs {
		if video || p.skip {
			ps = append(ps, p)
		}
		for r.Intn(2) == 0 {
			b := make([]byte, 8+r.Intn(8))
			r.Read(b)
			b[0] = 0x78
			p := vPkt{audio: true, p: &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: seq, Timestamp: ats}, Payload: b}, seq: seq}
			seq++
			ats += step
			switch r.Intn(15) {
			case 0:
				seq += uint16(r.Intn(100))
				ats += 9600
			case 1: // late
				if n := len(ps); n > 0 {
					q := ps[n-1]
					ps[n-1] = p
					p = q
				}
			}
			ps = append(ps, p)
		}
	}
	used := map[int]bool{}
	for i, k := range ps {
		bv, ba := len(w.blocks), len(u.blocks)
		if k.skip {
			rec.NotifySkippedPacket(k.seq)
			continue
		}
		pv, pa := rec.VideoTimestamp(), rec.AudioTimestamp()
		if k.audio {
			rec.PushAudio(k.p)
			if len(w.blocks) != bv && which == "C13" {
				return vShow(ps[:i+1]), "an audio packet wrote video"
			}
			for _, b := range u.blocks[ba:] {
				hit := false
				for j, q := range ps[:i+1] {
					if q.audio && !used[j] && bytes.Equal(q.p.Payload, b.data) {
						used[j], hit = true, true
						break
					}
				}
				if !hit && which == "C13" {
					return vShow(ps[:i+1]), fmt.Sprintf("audio block %x is no packet's, or written twice", b.data)
				}
			}
		} else {
			rec.PushVideo(k.p)
			if len(u.blocks) != ba && which == "C13" {
				return vShow(ps[:i+1]), "a video packet wrote audio"
			}
		}
		if which == "C15" {
			if rec.VideoTimestamp() < pv || rec.AudioTimestamp() < pa {
				return vShow(ps[:i+1]), "a position ran backwards"
			}
			for _, x := range []struct {
				w *vWriter
				n int
				p time.Duration
				o time.Duration
			}{{w, bv, rec.VideoTimestamp(), pv}, {u, ba, rec.AudioTimestamp(), pa}} {
				if len(x.w.blocks) == x.n && x.p != x.o {
					return vShow(ps[:i+1]), "position moved without a block written"
				}
				if n := len(x.w.blocks); n > x.n {
					if x.w.blocks[n-1].ts != int64(x.p/time.Millisecond) {
						return vShow(ps[:i+1]), "position is not that of the last block"
					}
					for j := x.n; j < n; j++ {
						if j > 0 && x.w.blocks[j].ts < x.w.blocks[j-1].ts {
							return vShow(ps[:i+1]), "block earlier than the one before"
						}
					}
				}
			}
		}
	}
	// audio in order and without loss: samples last as long as the timestamps say
	if which == "C15" {
		find := func(d []byte) *rtp.Packet {
			for _, q := range ps {
				if q.audio && bytes.Equal(q.p.Payload, d) {
					return q.p
				}
			}
			return nil
		}
		for j := 0; j < len(u.blocks); j++ {
			first := find(u.blocks[j].data)
			last := first
			for j+1 < len(u.blocks) && last != nil {
				n := find(u.blocks[j+1].data)
				if n == nil || n.SequenceNumber != last.SequenceNumber+1 {
					break
				}
				last = n
				j++
			}
			if last == first || last == nil {
				continue
			}
			n := int(last.SequenceNumber - first.SequenceNumber)
			d := u.blocks[j].ts - u.blocks[j-n].ts
			if want := int64(last.Timestamp-first.Timestamp) / 48; d < want-1 || d > want+1 {
				return vShow(ps), fmt.Sprintf("audio packets %d to %d, without loss, written %d ms apart, not %d", first.SequenceNumber, last.SequenceNumber, d, want)
			}
		}
	}
	return "", ""
}

type vWebm struct {
	Header  webm.EBMLHeader `ebml:"EBML"`
	Segment webm.Segment    `ebml:"Segment"`
}

// vRead: the blocks of each track of a finished file
func vRead(file string) (map[uint64][]vBlock, *webm.Segment, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, nil, err
	}
	var f vWebm
	if len(b) > 0 {
		if err := ebml.Unmarshal(bytes.NewReader(b), &f); err != nil && err != io.ErrUnexpectedEOF {
			return nil, nil, err
		}
	}
	out := map[uint64][]vBlock{}
	for _, c := range f.Segment.Cluster {
		for _, s := range c.SimpleBlock {
			for _, d := range s.Data {
				out[s.TrackNumber] = append(out[s.TrackNumber], vBlock{s.Keyframe, int64(c.Timecode) + int64(s.Timecode), d})
			}
		}
	}
	return out, &f.Segment, nil
}

// whole recordings, to a file
func vFile(which string, r *rand.Rand, dir string) (string, string) {
	file := filepath.Join(dir, "r.webm")
	custom, ivf := r.Intn(2) == 0, r.Intn(3) > 0
	if which == "C14" {
		custom = true
	}
	if which == "C21" {
		ivf = true
	}
	if which == "C25" {
		custom = true // a failing write ends the built-in sampler
	}
	rec := NewWebmRecorder(file, 0o600, uint16(8+r.Intn(60)), uint16(8+r.Intn(60)), custom, ivf)
	rec.WithContext(context.Background())
	a := &vAsker{}
	if r.Intn(4) > 0 {
		rec.SetKeyframeRequester(a)
	}
	hasV, hasA := r.Intn(5) > 0, r.Intn(2) == 0
	rec.SetHasVideo(hasV)
	rec.SetHasAudio(hasA)
	nf := 3 + r.Intn(20)
	if which == "C21" && r.Intn(3) == 0 {
		nf = 250
	}
	vs := vStream(r, nf, r.Intn(3) > 0)
	var ps []vPkt
	seq, ats := uint16(r.Intn(65536)), r.Uint32()
	for _, p := range vs {
		ps = append(ps, p)
		for r.Intn(3) == 0 {
			b := make([]byte, r.Intn(12))
			r.Read(b)
			ps = append(ps, vPkt{audio: true, p: &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: seq, Timestamp: ats}, Payload: b}, seq: seq})
			seq++
			if r.Intn(12) == 0 {
				seq += uint16(r.Intn(70))
			}
			ats += 960
		}
	}
	head := fmt.Sprintf("custom=%v ivf=%v video=%v audio=%v ", custom, ivf, hasV, hasA)
	recV, recA := false, false // the current file has video, audio
	for i, k := range ps {
		ow, oa := rec.videoWriter, rec.audioWriter
		pv, pa := rec.VideoTimestamp(), rec.AudioTimestamp()
		switch {
		case k.skip:
			rec.NotifySkippedPacket(k.seq)
		case k.audio:
			rec.PushAudio(k.p)
		default:
			rec.PushVideo(k.p)
		}
		if rec.videoWriter != ow || rec.audioWriter != oa {
			if which == "C25" && (ow != nil || oa != nil) && (recV || !hasV) && (recA || !hasA) {
				return head + vShow(ps[:i+1]), "the recording was started over although every announced track had been recorded"
			}
			recV, recA = false, false
		} else {
			recV = recV || rec.VideoTimestamp() > pv
			recA = recA || rec.AudioTimestamp() > pa
		}
		if which == "C25" {
			switch r.Intn(12) {
			case 0:
				if rec.videoWriter != nil {
					rec.videoWriter = &vFlaky{rec.videoWriter, r}
				}
			case 1:
				rec.SetHasAudio(hasA)
			case 2:
				rec.SetHasVideo(hasV)
			case 3:
				rec.SetKeyframeRequester(a)
			case 4:
				rec.WithContext(context.Background())
			}
		}
		if r.Intn(60) == 0 {
			ps = ps[:i+1]
			break
		}
	}
	// a replaced writer is closed first: what it was given is written in the background
	if which == "C16" && r.Intn(3) == 0 && rec.videoWriter != nil {
		go rec.videoWriter.Close()
		rec.videoWriter = &vWriter{}
	}
	if which == "C16" && r.Intn(3) == 0 && rec.audioWriter != nil {
		go rec.audioWriter.Close()
		rec.audioWriter = &vWriter{}
	}
	mv, _ := rec.videoWriter.(*vWriter)
	ma, _ := rec.audioWriter.(*vWriter)
	want := rec.VideoTimestamp()
	wantA := rec.AudioTimestamp()
	ts := rec.Close()
	if which == "C16" {
		if ts != want {
			return head + vShow(ps), fmt.Sprintf("Close returned %v, the last position was %v", ts, want)
		}
		list := func() string {
			var s []string
			es, _ := os.ReadDir(dir)
			for _, e := range es {
				b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
				s = append(s, e.Name()+string(b))
			}
			return strings.Join(s, "|")
		}
		was := ""
		for n := 0; n < 50 && was != list(); n++ {
			was = list()
			time.Sleep(2 * time.Millisecond)
		}
		late := vStream(r, 4, false)
		for i, k := range late {
			if k.skip {
				rec.NotifySkippedPacket(k.seq)
			} else {
				rec.PushVideo(k.p)
			}
			rec.PushAudio(&rtp.Packet{Header: rtp.Header{SequenceNumber: seq + uint16(i), Timestamp: ats + uint32(i)*960}, Payload: []byte{1, 2, 3}})
		}
		if ts2 := rec.Close(); ts2 != ts {
			return head + vShow(ps), fmt.Sprintf("closing again returned %v, not %v", ts2, ts)
		}
		time.Sleep(2 * time.Millisecond)
		if rec.VideoTimestamp() != want || rec.AudioTimestamp() != wantA {
			return head + vShow(ps), "a position changed after closing"
		}
		if list() != was {
			return head + vShow(ps), "a file changed after closing"
		}
		for _, m := range []*vWriter{mv, ma} {
			if m != nil && (m.closes != 1 || m.bad != "") {
				return head + vShow(ps), fmt.Sprintf("a track writer was closed %d times %s", m.closes, m.bad)
			}
		}
		return "", ""
	}
	if which == "C12" {
		for _, k := range vStream(r, 3, true) {
			if k.skip {
				rec.NotifySkippedPacket(k.seq)
			} else {
				rec.PushVideo(k.p)
				rec.PushAudio(k.p)
			}
		}
		rec.Close()
		return "", ""
	}
	if rec.videoWriter == nil && rec.audioWriter == nil {
		return "", ""
	}
	var blocks map[uint64][]vBlock
	var seg *webm.Segment
	var err error
	for n := 0; n < 200; n++ { // the file is finished in the background
		blocks, seg, err = vRead(file)
		if err == nil && seg != nil {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	if err != nil {
		return head + vShow(ps), "the file cannot be read: " + err.Error()
	}
	vid := uint64(0)
	for _, t := range seg.Tracks.TrackEntry {
		if t.TrackType == 1 {
			vid = t.TrackNumber
		}
	}
	frames := blocks[vid]
	if which == "C14" && vid != 0 && len(frames) > 0 && !frames[0].kf {
		return head + vShow(ps), "the recording does not start with a keyframe"
	}
	if which == "C21" && hasV && rec.videoWriter != nil {
		b, err := os.ReadFile(filepath.Join(dir, "r.ivf"))
		if err != nil {
			return head + vShow(ps), "no IVF copy: " + err.Error()
		}
		if len(b) < 32 || string(b[:4]) != "DKIF" || b[6] != 32 || string(b[8:12]) != "VP80" {
			return head + vShow(ps), fmt.Sprintf("IVF header %x", b[:vMin(len(b), 32)])
		}
		var sizes [][]byte
		var stamps []uint64
		rest := b[32:]
		for len(rest) > 0 {
			if len(rest) < 12 {
				return head + vShow(ps), "the IVF copy ends inside a record header"
			}
			n := int(binary.LittleEndian.Uint32(rest))
			if n > len(rest)-12 {
				return head + vShow(ps), "the IVF copy ends inside a frame"
			}
			sizes = append(sizes, rest[12:12+n])
			stamps = append(stamps, binary.LittleEndian.Uint64(rest[4:]))
			rest = rest[12+n:]
		}
		if int(binary.LittleEndian.Uint32(b[24:])) != len(sizes) {
			return head + vShow(ps), fmt.Sprintf("the IVF header counts %d frames, the file has %d", binary.LittleEndian.Uint32(b[24:]), len(sizes))
		}
		if len(frames) > len(sizes) {
			return head + vShow(ps), fmt.Sprintf("%d frames recorded, %d in the IVF copy", len(frames), len(sizes))
		}
		off := len(sizes) - len(frames)
		for i, f := range frames {
			if !bytes.Equal(f.data, sizes[off+i]) {
				return head + vShow(ps), fmt.Sprintf("frame %d of the IVF copy is not the one recorded", off+i)
			}
		}
		var lastKey []byte
		for i, s := range sizes {
			hit := false
			for _, p := range ps {
				if !p.audio && !p.skip && uint64(p.p.Timestamp) == stamps[i] {
					d, _, _, ok := vParse(p.p.Payload)
					hit = hit || ok && (len(s) == 0 || bytes.Contains(s, d))
				}
			}
			if !hit {
				return head + vShow(ps), fmt.Sprintf("record %d of the IVF copy has timestamp %d, no packet of its frame does", i, stamps[i])
			}
			if len(s) >= 10 && s[0]&1 == 0 {
				lastKey = s
			}
		}
		if custom && lastKey != nil {
			w := binary.LittleEndian.Uint16(lastKey[6:]) & 0x3fff
			h := binary.LittleEndian.Uint16(lastKey[8:]) & 0x3fff
			if binary.LittleEndian.Uint16(b[12:]) != w || binary.LittleEndian.Uint16(b[14:]) != h {
				return head + vShow(ps), "the IVF header does not have the last keyframe's dimensions"
			}
		}
	}
	return "", ""
}

func vMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// the IVF writer alone
func vIVF(r *rand.Rand, dir string) (string, string) {
	w, err := NewIVFWriter(filepath.Join(dir, "x.webm"))
	if err != nil {
		return "", err.Error()
	}
	var frames [][]byte
	var ts []uint32
	wi, he := uint16(0), uint16(0)
	dims := false
	n := r.Intn(20)
	if r.Intn(4) == 0 {
		n = 90 + r.Intn(130)
	}
	in := ""
	for i := 0; i < n; i++ {
		if r.Intn(5) == 0 {
			wi, he = uint16(r.Intn(65536)), uint16(r.Intn(65536))
			dims = true
			w.UpdateDimensions(wi, he)
			in += fmt.Sprintf("dim(%d,%d) ", wi, he)
			continue
		}
		b := make([]byte, r.Intn(50))
		if r.Intn(30) == 0 {
			b = make([]byte, 70000)
		}
		r.Read(b)
		t := r.Uint32()
		if err := w.WriteFrame(b, t, r.Intn(2) == 0); err != nil {
			return in, err.Error()
		}
		in += fmt.Sprintf("frame(%d bytes,%d) ", len(b), t)
		frames, ts = append(frames, b), append(ts, t)
	}
	for i := r.Intn(2); i >= 0; i-- {
		w.Close()
		w.WriteFrame([]byte{1}, 1, false)
	}
	b, err := os.ReadFile(filepath.Join(dir, "x.ivf"))
	if err != nil {
		return in, err.Error()
	}
	want := make([]byte, 32)
	copy(want, "DKIF")
	want[6] = 32
	copy(want[8:], "VP80")
	if dims {
		binary.LittleEndian.PutUint16(want[12:], wi)
		binary.LittleEndian.PutUint16(want[14:], he)
	} else if len(b) >= 16 {
		copy(want[12:16], b[12:16])
	}
	binary.LittleEndian.PutUint32(want[16:], 90000)
	binary.LittleEndian.PutUint32(want[20:], 1)
	binary.LittleEndian.PutUint32(want[24:], uint32(len(frames)))
	for i, f := range frames {
		h := make([]byte, 12)
		binary.LittleEndian.PutUint32(h, uint32(len(f)))
		binary.LittleEndian.PutUint64(h[4:], uint64(ts[i]))
		want = append(append(want, h...), f...)
	}
	if !bytes.Equal(b, want) {
		at := 0
		for at < len(b) && at < len(want) && b[at] == want[at] {
			at++
		}
		return in, fmt.Sprintf("the IVF file (%d bytes) differs from the frames written (%d bytes) at byte %d", len(b), len(want), at)
	}
	return "", ""
}

// any bytes at all
func vGarbage(r *rand.Rand, dir string) (string, string) {
	rec, _, _, _ := vMock(r, r.Intn(2) == 0, nil)
	if r.Intn(2) == 0 {
		rec = NewWebmRecorder(filepath.Join(dir, "g.webm"), 0o600, uint16(r.Intn(40)), uint16(r.Intn(40)), r.Intn(2) == 0, r.Intn(2) == 0)
		rec.SetHasVideo(r.Intn(4) > 0)
		rec.SetHasAudio(r.Intn(2) > 0)
	}
	var ps []vPkt
	g := &vGen{r: r, seq: uint16(r.Intn(65536)), ts: r.Uint32()}
	in := func() string { return vShow(ps) }
	var bad string
	func() {
		defer func() {
			if x := recover(); x != nil {
				bad = fmt.Sprintf("panic: %v", x)
			}
		}()
		for i := 0; i < 60; i++ {
			var k vPkt
			switch r.Intn(6) {
			case 0:
				k = vPkt{skip: true, seq: g.seq - uint16(r.Intn(5))}
			case 1, 2:
				k = g.junk()
			default:
				fr := g.frame(r.Intn(2) == 0)
				k = fr[r.Intn(len(fr))]
				q := *k.p
				if r.Intn(3) == 0 && len(q.Payload) > 0 {
					q.Payload = q.Payload[:r.Intn(len(q.Payload)+1)]
				}
				q.Marker = r.Intn(2) == 0
				k.p = &q
			}
			if r.Intn(15) == 0 {
				g.seq += uint16(r.Intn(200))
			}
			k.audio = r.Intn(4) == 0
			if k.audio && k.p != nil {
				q := *k.p
				q.SequenceNumber = uint16(i) * uint16(1+r.Intn(3))
				k.p = &q
			}
			ps = append(ps, k)
			switch {
			case k.skip:
				rec.NotifySkippedPacket(k.seq)
			case k.audio:
				rec.PushAudio(k.p)
			default:
				rec.PushVideo(k.p)
			}
		}
		rec.Close()
	}()
	return in(), bad
}

// races and self-locking: the methods used from several goroutines
func vConcurrent(r *rand.Rand, dir string) (string, string) {
	rec := NewWebmRecorder(filepath.Join(dir, "k.webm"), 0o600, 16, 16, r.Intn(2) == 0, true)
	rec.SetHasVideo(true)
	rec.SetHasAudio(true)
	rec.SetKeyframeRequester(&vAsker{})
	ps := vStream(r, 20, true)
	var wg sync.WaitGroup
	wg.Add(3)
	fail := make(chan string, 3)
	run := func(f func()) {
		defer wg.Done()
		defer func() {
			if x := recover(); x != nil {
				fail <- fmt.Sprint(x)
			}
		}()
		f()
	}
	go run(func() {
		for _, p := range ps {
			if !p.skip {
				rec.PushVideo(p.p)
			}
		}
	})
	go run(func() {
		for i := 0; i < 40; i++ {
			rec.PushAudio(&rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(i), Timestamp: uint32(i) * 960}, Payload: []byte{1, 2, 3}})
		}
	})
	go run(func() {
		for _, p := range ps {
			if p.skip {
				rec.NotifySkippedPacket(p.seq)
			}
		}
		rec.Close()
	})
	wg.Wait()
	select {
	case e := <-fail:
		return "concurrent use", "panic: " + e
	default:
	}
	rec.Close()
	return "", ""
}

func TestVerifReplayC12(t *testing.T) {
	vRun(t, func(r *rand.Rand, dir string) (string, string) {
		switch r.Intn(6) {
		case 0:
			return vFile("C12", r, dir)
		case 1:
			return vConcurrent(r, dir)
		}
		return vGarbage(r, dir)
	})
}
func TestVerifReplayC13(t *testing.T) {
	vRun(t, func(r *rand.Rand, dir string) (string, string) {
		if r.Intn(3) == 0 {
			return vBuiltin("C13", r)
		}
		return vCustom("C13", r)
	})
}
func TestVerifReplayC14(t *testing.T) {
	vRun(t, func(r *rand.Rand, dir string) (string, string) {
		if r.Intn(4) == 0 {
			return vFile("C14", r, dir)
		}
		return vCustom("C14", r)
	})
}
func TestVerifReplayC15(t *testing.T) {
	vRun(t, func(r *rand.Rand, dir string) (string, string) {
		if r.Intn(2) == 0 {
			return vBuiltin("C15", r)
		}
		return vCustom("C15", r)
	})
}
func TestVerifReplayC16(t *testing.T) {
	vRun(t, func(r *rand.Rand, dir string) (string, string) { return vFile("C16", r, dir) })
}
func TestVerifReplayC21(t *testing.T) {
	vRun(t, func(r *rand.Rand, dir string) (string, string) {
		if r.Intn(2) == 0 {
			return vIVF(r, dir)
		}
		return vFile("C21", r, dir)
	})
}
func TestVerifReplayC25(t *testing.T) {
	vRun(t, func(r *rand.Rand, dir string) (string, string) { return vFile("C25", r, dir) })
}

// ---- where recordings go

func vName(r *rand.Rand) string {
	parts := []string{"..", ".", "", "a", "b", "x.webm", ".webm", "..webm", "...", "sub", "y.mp4", "a b", "é"}
	n := 1 + r.Intn(5)
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, parts[r.Intn(len(parts))])
	}
	x := strings.Join(s, "/")
	if r.Intn(4) == 0 {
		x = "/" + x
	}
	switch r.Intn(6) {
	case 0:
		return x
	case 1:
		return x + "/f.webm"
	default:
		return x + ".webm"
	}
}

func vBelow(d, f string) bool {
	if d == "." {
		return f != "." && f != ".." && !strings.HasPrefix(f, "../") && !strings.HasPrefix(f, "/")
	}
	if d == "/" {
		return strings.HasPrefix(f, "/") && f != "/"
	}
	return strings.HasPrefix(f, d+"/")
}

// the facts of package path the contracts of C11 use
func vPathFacts(r *rand.Rand) (string, string) {
	d, f := vName(r), vName(r)
	if r.Intn(3) == 0 {
		d = []string{"", ".", "/", "..", "../..", "//", "a/", "/x/../.."}[r.Intn(8)]
	}
	in := fmt.Sprintf("directory %q, name %q", d, f)
	cd := path.Clean(d)
	rf := path.Clean("/" + f)
	full := path.Clean(cd + "/" + rf)
	switch {
	case path.Clean(cd) != cd || cd == "":
		return in, "Clean"
	case path.Clean(d+rf) != path.Clean(d+"/"+rf):
		return in, "joining without a slash"
	case path.Ext(f) == ".webm" && !vBelow(cd, full):
		return in, "not below: " + full
	case path.Ext(f) == ".webm" && (path.Ext(path.Clean(f)) != ".webm" || path.Ext(d+f) != ".webm" || filepath.Ext(f) != ".webm"):
		return in, "extension"
	case path.Ext(f) == ".webm" && path.Dir(full) != cd && !vBelow(cd, path.Dir(full)):
		return in, "Dir: " + path.Dir(full)
	case path.Clean(path.Dir(f)) != path.Dir(f) || path.Dir(f) == "":
		return in, "Dir is clean"
	case path.Join(cd, rf) != full || filepath.Join(cd, rf) != full:
		return in, "Join"
	}
	return "", ""
}

func vPaths(r *rand.Rand, dir string) (string, string) {
	if r.Intn(2) == 0 {
		return vPathFacts(r)
	}
	root := filepath.Join(dir, "rec")
	os.MkdirAll(filepath.Join(root, "a"), 0o755)
	os.MkdirAll(filepath.Join(dir, "outside"), 0o755)
	old := filepath.Join(root, "a", "x.webm")
	if r.Intn(2) == 0 {
		os.WriteFile(old, []byte("old"), 0o600)
	}
	cfg := config.Recorder{Directory: root, DirFileMode: "0750", FileMode: "0640"}
	switch r.Intn(8) {
	case 0:
		cfg.Directory = filepath.Join(dir, "none")
	case 1:
		cfg.FileMode = []string{"", "rw", "0o9", "08", "-1", "0644 ", "4294967296"}[r.Intn(7)]
	case 2:
		cfg.WriteToDevNull = true
	case 3:
		cfg.Directory = root + "/"
	case 4:
		cfg.DirFileMode = "0700"
		cfg.FileMode = []string{"384", "416", "0x180"}[r.Intn(3)]
	}
	name := vName(r)
	in := fmt.Sprintf("name %q, config %+v", name, cfg)
	snap := func() map[string]bool {
		m := map[string]bool{}
		filepath.Walk(dir, func(p string, _ os.FileInfo, _ error) error { m[p] = true; return nil })
		return m
	}
	was := snap()
	rec, err := NewRecorder(context.Background(), cfg, name)
	now := snap()
	made := 0
	for p := range now {
		if !was[p] {
			made++
			if !strings.HasPrefix(p, root+"/") {
				return in, "created outside the directory: " + p
			}
			if st, e := os.Stat(p); e == nil {
				m, _ := strconv.ParseUint(cfg.DirFileMode, 0, 32)
				if !st.IsDir() || st.Mode().Perm() != os.FileMode(m)&^vUmask() {
					return in, fmt.Sprintf("created %s with mode %v", p, st.Mode())
				}
			}
		}
	}
	_, numErr := strconv.ParseUint(cfg.FileMode, 0, 32)
	_, dirErr := os.Stat(cfg.Directory)
	switch {
	case filepath.Ext(name) != ".webm" && (err == nil || made > 0):
		return in, "a name without the extension was accepted, or directories made for it"
	case os.IsNotExist(dirErr) && err == nil:
		return in, "accepted although the directory does not exist"
	case numErr != nil && err == nil:
		return in, "accepted although the file mode is not a number"
	}
	if err != nil {
		return "", ""
	}
	f := rec.GetFilePath()
	if cfg.WriteToDevNull {
		if f != os.DevNull {
			return in, "goes to " + f
		}
		return "", ""
	}
	if !vBelow(path.Clean(cfg.Directory), f) || path.Clean(f) != f || filepath.Ext(f) != ".webm" {
		return in, "goes to " + f
	}
	if was[f] {
		return in, "goes to the existing file " + f
	}
	rec.SetHasAudio(true)
	for i := 0; i < 4; i++ {
		rec.PushAudio(&rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(i), Timestamp: uint32(i) * 960}, Payload: []byte{1, 2, 3}})
	}
	st, e := os.Stat(f)
	if e != nil {
		return in, "nothing recorded: " + e.Error()
	}
	m, _ := strconv.ParseUint(cfg.FileMode, 0, 32)
	if st.Mode().Perm() != os.FileMode(m)&^vUmask() {
		return in, fmt.Sprintf("file mode %v", st.Mode())
	}
	rec.Close()
	return "", ""
}

var vMask = -1

func vUmask() os.FileMode {
	if vMask < 0 {
		f, err := os.CreateTemp("", "u")
		if err != nil {
			return 0
		}
		n := f.Name()
		f.Close()
		os.Remove(n)
		g, _ := os.OpenFile(n, os.O_CREATE|os.O_WRONLY, 0o777)
		st, _ := g.Stat()
		g.Close()
		os.Remove(n)
		vMask = int(^st.Mode().Perm() & 0o777)
	}
	return os.FileMode(vMask)
}

func TestVerifReplayC11(t *testing.T) {
	vRun(t, vPaths)
}
