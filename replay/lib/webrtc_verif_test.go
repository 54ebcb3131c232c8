package webrtc

// Random search for a concrete failing input, run on the real code (real peer connections over
// the machine's own interfaces) against the properties' statements. Bounded: it decides nothing
// by itself.

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sort"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/pion/interceptor"
	"github.com/pion/rtcp"
	"github.com/pion/rtp"
	"github.com/pion/stun"
	pwebrtc "github.com/pion/webrtc/v3"
	log "github.com/sirupsen/logrus"
)

func vRun(t *testing.T, f func(r *rand.Rand) (input, bad string)) {
	log.SetOutput(io.Discard)
	fmt.Println("REPLAY-START")
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 5
	}
	sd, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	until := time.Now().Add(time.Duration(b) * time.Second / 2)
	n := 0
	for seed := sd * 1000003; time.Now().Before(until) && n < 100000; seed++ {
		n++
		var in, bad string
		for try := 0; try < 3 && (try == 0 || bad != ""); try++ { // only what fails again is reported
			func() {
				defer func() {
					if x := recover(); x != nil {
						bad = fmt.Sprintf("panic: %v", x)
					}
				}()
				in, bad = f(rand.New(rand.NewSource(seed)))
			}()
		}
		if bad != "" {
			fmt.Printf("REPLAY-FAIL case seed %d: %s: %s\n", seed, in, bad)
			t.FailNow()
		}
	}
	fmt.Printf("REPLAY-STATS {\"cases\": %d}\n", n)
}

// vEvent is something the recorder was told: an audio or video packet, or a skip.
type vEvent struct {
	what byte // 'a', 'v', 's'
	seq  uint16
	p    *rtp.Packet
}

type vRec struct {
	m      sync.Mutex
	log    []vEvent
	a, v   time.Duration
	hasA   bool
	hasV   bool
	onPush func()
}

var _ recorder.Recorder = (*vRec)(nil)

func (r *vRec) add(e vEvent) {
	r.m.Lock()
	r.log = append(r.log, e)
	r.m.Unlock()
}
func (r *vRec) events() []vEvent {
	r.m.Lock()
	defer r.m.Unlock()
	return append([]vEvent(nil), r.log...)
}
func (r *vRec) GetFilePath() string                             { return "a.webm" }
func (r *vRec) PushVideo(p *rtp.Packet)                         { r.add(vEvent{'v', p.SequenceNumber, p}) }
func (r *vRec) PushAudio(p *rtp.Packet)                         { r.add(vEvent{'a', p.SequenceNumber, p}) }
func (r *vRec) NotifySkippedPacket(s uint16)                    { r.add(vEvent{'s', s, nil}) }
func (r *vRec) WithContext(context.Context)                     {}
func (r *vRec) VideoTimestamp() time.Duration                   { return 0 }
func (r *vRec) AudioTimestamp() time.Duration                   { return 0 }
func (r *vRec) SetKeyframeRequester(recorder.KeyframeRequester) {}
func (r *vRec) GetHasAudio() bool                               { r.m.Lock(); defer r.m.Unlock(); return r.hasA }
func (r *vRec) GetHasVideo() bool                               { r.m.Lock(); defer r.m.Unlock(); return r.hasV }
func (r *vRec) Close() time.Duration                            { return 0 }
func (r *vRec) SetHasAudio(b bool)                              { r.m.Lock(); r.hasA = b; r.m.Unlock() }
func (r *vRec) SetHasVideo(b bool)                              { r.m.Lock(); r.hasV = b; r.m.Unlock() }

// vStun answers binding requests, so that a peer has a candidate even without a network.
func vStun() (url string, stop func(), err error) {
	c, err := net.ListenPacket("udp4", "127.0.0.1:0")
	if err != nil {
		return "", nil, err
	}
	go func() {
		b := make([]byte, 1500)
		for {
			n, from, err := c.ReadFrom(b)
			if err != nil {
				return
			}
			m := &stun.Message{Raw: append([]byte(nil), b[:n]...)}
			if m.Decode() != nil {
				continue
			}
			u := from.(*net.UDPAddr)
			res, err := stun.Build(m, stun.BindingSuccess, &stun.XORMappedAddress{IP: u.IP, Port: u.Port}, stun.Fingerprint)
			if err == nil {
				c.WriteTo(res.Raw, from)
			}
		}
	}()
	return "stun:" + c.LocalAddr().String(), func() { c.Close() }, nil
}

// vSource is the sending end of one track.
type vSource struct {
	video bool
	tl    *pwebrtc.TrackLocalStaticRTP
	ssrc  uint32
	pt    uint8
	m     sync.Mutex
	plis  int
	nacks map[uint16]int
	asks  map[uint32]*vAsker
}

// vAsker is who asks for retransmissions: the receive loop does, every 40 ms, and so does a part of
// pion, every 100 ms and without a limit.
type vAsker struct {
	at  []time.Time
	seq map[uint16]int
}

// loop: the requests of a receive loop, nil when there are too few to tell.
func (s *vSource) loop() map[uint16]int {
	s.m.Lock()
	defer s.m.Unlock()
	for _, a := range s.asks {
		var gaps []time.Duration
		for i := 1; i < len(a.at); i++ {
			gaps = append(gaps, a.at[i].Sub(a.at[i-1]))
		}
		sort.Slice(gaps, func(i, j int) bool { return gaps[i] < gaps[j] })
		if len(gaps) > 4 && gaps[len(gaps)/2] < 60*time.Millisecond {
			m := map[uint16]int{}
			for q, n := range a.seq {
				m[q] = n
			}
			return m
		}
	}
	return nil
}

func (s *vSource) send(seq uint16, ts uint32) error {
	return s.tl.WriteRTP(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: seq, Timestamp: ts, Marker: true}, Payload: []byte{0x10, 1, 0, 0, byte(seq), byte(seq >> 8)}})
}
func (s *vSource) counts() (int, map[uint16]int) {
	s.m.Lock()
	defer s.m.Unlock()
	m := map[uint16]int{}
	for k, v := range s.nacks {
		m[k] = v
	}
	return s.plis, m
}

// vOffer makes a sending peer with these tracks.
func vOffer(kinds []bool) (pc *pwebrtc.PeerConnection, srcs []*vSource, err error) {
	m := &pwebrtc.MediaEngine{}
	if err := m.RegisterDefaultCodecs(); err != nil {
		return nil, nil, err
	}
	se := pwebrtc.SettingEngine{}
	se.SetIncludeLoopbackCandidate(true)
	pc, err = pwebrtc.NewAPI(pwebrtc.WithMediaEngine(m), pwebrtc.WithSettingEngine(se), pwebrtc.WithInterceptorRegistry(&interceptor.Registry{})).NewPeerConnection(pwebrtc.Configuration{})
	if err != nil {
		return nil, nil, err
	}
	for i, video := range kinds {
		mime := pwebrtc.MimeTypeOpus
		if video {
			mime = pwebrtc.MimeTypeVP8
		}
		tl, err := pwebrtc.NewTrackLocalStaticRTP(pwebrtc.RTPCodecCapability{MimeType: mime}, fmt.Sprintf("t%d", i), fmt.Sprintf("s%d", i))
		if err != nil {
			return pc, nil, err
		}
		snd, err := pc.AddTrack(tl)
		if err != nil {
			return pc, nil, err
		}
		s := &vSource{video: video, tl: tl, ssrc: uint32(snd.GetParameters().Encodings[0].SSRC), nacks: map[uint16]int{}, asks: map[uint32]*vAsker{}}
		go func() {
			for {
				ps, _, err := snd.ReadRTCP()
				if err != nil {
					return
				}
				s.m.Lock()
				for _, p := range ps {
					switch p := p.(type) {
					case *rtcp.PictureLossIndication:
						if p.MediaSSRC == s.ssrc {
							s.plis++
						}
					case *rtcp.TransportLayerNack:
						if p.MediaSSRC == s.ssrc {
							a := s.asks[p.SenderSSRC]
							if a == nil {
								a = &vAsker{seq: map[uint16]int{}}
								s.asks[p.SenderSSRC] = a
							}
							a.at = append(a.at, time.Now())
							for _, n := range p.Nacks {
								for _, q := range n.PacketList() {
									s.nacks[q]++
									a.seq[q]++
								}
							}
						}
					}
				}
				s.m.Unlock()
			}
		}()
		srcs = append(srcs, s)
	}
	d, err := pc.CreateOffer(nil)
	if err != nil {
		return pc, nil, err
	}
	g := pwebrtc.GatheringCompletePromise(pc)
	if err = pc.SetLocalDescription(d); err != nil {
		return pc, nil, err
	}
	<-g
	return pc, srcs, nil
}

func vNew(cfg config.WebRTC) *WebRTC {
	return NewWebRTC(context.WithValue(context.Background(), "session", "s"), cfg)
}

// vCall connects a session with the given tracks; fault is what went wrong outside the code under test.
func vCall(kinds []bool, jitter, timeout uint16, rec recorder.Recorder, flow func(bool, time.Duration, bool)) (w *WebRTC, srcs []*vSource, stop func(), fault error, bad string) {
	url, stopStun, err := vStun()
	if err != nil {
		return nil, nil, nil, err, ""
	}
	pc, srcs, err := vOffer(kinds)
	stop = func() {
		stopStun()
		if pc != nil {
			pc.Close()
		}
		if w != nil && w.pc != nil {
			w.pc.Close()
		}
	}
	if err != nil {
		return nil, nil, stop, err, ""
	}
	w = vNew(config.WebRTC{RTCMinPort: 24577, RTCMaxPort: 32768, JitterBuffer: jitter, JitterBufferPktTimeout: timeout, ICEServers: []pwebrtc.ICEServer{{URLs: []string{url}}}})
	up := make(chan pwebrtc.ICEConnectionState, 20)
	w.SetConnectionStateCallback(func(s pwebrtc.ICEConnectionState) { up <- s })
	w.SetFlowCallback(flow)
	w.SetSDPOffer(*pc.LocalDescription())
	ans, err := w.Init(rec)
	if err != nil {
		return w, srcs, stop, nil, "initialisation was refused with everything set: " + err.Error()
	}
	conn := make(chan bool, 20)
	pc.OnConnectionStateChange(func(s pwebrtc.PeerConnectionState) {
		if s == pwebrtc.PeerConnectionStateConnected {
			conn <- true
		}
	})
	if err := pc.SetRemoteDescription(ans); err != nil {
		return w, srcs, stop, nil, "the answer does not belong to the offer: " + err.Error()
	}
	select {
	case <-conn:
	case <-time.After(10 * time.Second):
		return w, srcs, stop, fmt.Errorf("no connection"), ""
	}
	// the state is passed on
	select {
	case <-up:
	case <-time.After(3 * time.Second):
		return w, srcs, stop, nil, "connected, but the connection state callback was not called"
	}
	return w, srcs, stop, nil, ""
}

// vStart sends first packets until the recorder has one of every source.
func vStart(srcs []*vSource, rec *vRec, first []uint16) bool {
	for i := 0; i < 100; i++ {
		for j, s := range srcs {
			s.send(first[j], uint32(first[j])*960)
		}
		time.Sleep(20 * time.Millisecond)
		a, v, wa, wv := 0, 0, 0, 0
		for _, s := range srcs {
			if s.video {
				wv++
			} else {
				wa++
			}
		}
		for _, e := range rec.events() {
			if e.what == 'a' {
				a++
			} else if e.what == 'v' {
				v++
			}
		}
		if a >= wa && v >= wv {
			return true
		}
	}
	return false
}

func (w *WebRTC) vCounts() map[uint32]int {
	w.m.Lock()
	defer w.m.Unlock()
	m := map[uint32]int{}
	for k, v := range w.pliStats {
		m[k] = v.count
	}
	return m
}

func vKeyframes(r *rand.Rand) (in, bad string) {
	kinds := []bool{true, false, true, true}[:1+r.Intn(4)]
	in = fmt.Sprintf("a session with tracks (video?) %v and keyframe requests", kinds)
	rec := &vRec{}
	var w *WebRTC
	w, srcs, stop, fault, bad := vCall(kinds, 16, 100, rec, func(bool, time.Duration, bool) {})
	if stop != nil {
		defer stop()
	}
	if fault != nil || bad != "" {
		if fault != nil {
			fmt.Println("no call:", fault)
		}
		return in, bad
	}
	// requests while the tracks start
	end := make(chan bool)
	var wg sync.WaitGroup
	wg.Add(1)
	asked := 0
	go func() {
		defer wg.Done()
		for {
			select {
			case <-end:
				return
			default:
				w.RequestKeyframe()
				asked++
				time.Sleep(time.Millisecond)
			}
		}
	}()
	first := make([]uint16, len(srcs))
	for i := range first {
		first[i] = uint16(r.Intn(65536))
	}
	ok := vStart(srcs, rec, first)
	close(end)
	wg.Wait()
	if !ok {
		fmt.Println("no packets arrive")
		return in, ""
	}
	video := 0
	for _, s := range srcs {
		if s.video {
			video++
		}
	}
	before := w.vCounts()
	w.RequestKeyframe()
	after := w.vCounts()
	if len(before) != video {
		return in, fmt.Sprintf("%d video sources are counted, want %d", len(before), video)
	}
	for k, n := range after {
		if n < before[k]+1 || n > before[k]+2 { // the interval may have passed meanwhile
			return in, fmt.Sprintf("one request counted %d times for source %d", n-before[k], k)
		}
	}
	for k := range after {
		w.RequestKeyframeForSSRC(k)
		for j, n := range w.vCounts() {
			if j == k && n < after[j]+1 || n > after[j]+2 {
				return in, fmt.Sprintf("a request for source %d counted %d times for %d", k, n-after[j], j)
			}
		}
		break
	}
	for try := 0; ; try++ {
		c := w.vCounts()
		bad = ""
		for _, s := range srcs {
			got, _ := s.counts()
			if s.video && got != c[s.ssrc] {
				bad = fmt.Sprintf("source %d received %d picture loss indications, %d are counted", s.ssrc, got, c[s.ssrc])
			}
			if !s.video && got != 0 {
				bad = "an audio source received a picture loss indication"
			}
		}
		if bad == "" || try == 20 {
			return in, bad
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// vRequests makes requests of a session whose connection is not up and looks at the counts.
func vRequests(r *rand.Rand, pc *pwebrtc.PeerConnection) (in, bad string) {
	w := vNew(config.WebRTC{})
	w.pc = pc
	want := map[uint32]int{}
	for i := r.Intn(4); i > 0; i-- {
		s := r.Uint32()
		w.videoTrackSSRCs = append(w.videoTrackSSRCs, s)
		if r.Intn(2) == 0 {
			want[s] = r.Intn(3)
			w.pliStats[s] = PLITracker{count: want[s], timestamp: time.Now()}
		}
	}
	in = fmt.Sprintf("sources %v, counts so far %v, requests:", w.videoTrackSSRCs, want)
	for i := r.Intn(5); i > 0; i-- {
		if len(w.videoTrackSSRCs) > 0 && r.Intn(2) == 0 {
			s := w.videoTrackSSRCs[r.Intn(len(w.videoTrackSSRCs))]
			in += fmt.Sprintf(" %d", s)
			w.RequestKeyframeForSSRC(s)
			want[s]++
		} else {
			in += " all"
			w.RequestKeyframe()
			for _, s := range w.videoTrackSSRCs {
				want[s]++
			}
		}
	}
	got := w.vCounts()
	for s, n := range want {
		if got[s] != n {
			return in, fmt.Sprintf("source %d is counted %d times, want %d", s, got[s], n)
		}
	}
	if len(got) != len(want) {
		return in, fmt.Sprintf("counts %v, want %v", got, want)
	}
	return in, ""
}

func TestVerifReplayC20(t *testing.T) {
	pc, _, err := vOffer([]bool{true})
	if err != nil {
		t.Skip(err)
	}
	offer := *pc.LocalDescription()
	defer pc.Close()
	n := 0
	vRun(t, func(r *rand.Rand) (string, string) {
		if n++; n%8 == 1 {
			return vKeyframes(r)
		}
		if n%2 == 0 {
			return vRequests(r, pc)
		}
		w := vNew(config.WebRTC{RTCMinPort: 24577, RTCMaxPort: 32768, JitterBuffer: 16, JitterBufferPktTimeout: 100})
		in := "setters called:"
		conn, flow, sdp := false, false, false
		for i := r.Intn(5); i > 0; i-- {
			switch r.Intn(3) {
			case 0:
				w.SetConnectionStateCallback(func(pwebrtc.ICEConnectionState) {})
				conn = true
				in += " connection-state"
			case 1:
				w.SetFlowCallback(func(bool, time.Duration, bool) {})
				flow = true
				in += " flow"
			case 2:
				w.SetSDPOffer(offer)
				sdp = true
				in += " offer"
			}
		}
		_, err := w.Init(&vRec{})
		if w.pc != nil {
			defer w.pc.Close()
		}
		if ready := conn && flow && sdp; ready != (err == nil) {
			return in, fmt.Sprintf("initialisation: error %v", err)
		}
		return in, ""
	})
}

// ---- C23: the receive loop and its retransmission requests

// vPlan is what one source sends.
type vPlan struct {
	start uint16
	n     int
	lost  map[int]int // index -> requests after which it is sent (0: never)
	back  map[int]bool
}

func vLoop(r *rand.Rand) (in, bad string) {
	kinds := [][]bool{{true}, {false}, {false, true}, {true, true, false}}[r.Intn(4)]
	timeout := []uint16{200, 600, 2000}[r.Intn(3)]
	size := []uint16{400, 512, 1024}[r.Intn(3)] // the buffer never slides
	plans := make([]vPlan, len(kinds))
	base := r.Intn(65536)
	if r.Intn(2) == 0 {
		base = 65536 - 20 - r.Intn(100)
	}
	for i := range kinds {
		p := vPlan{start: uint16(base + i*15000), n: 60 + r.Intn(140), lost: map[int]int{}, back: map[int]bool{}}
		if i > 0 && r.Intn(2) == 0 { // the numbers wrap around on this track instead
			p.start = uint16(65536 - r.Intn(60) - 1)
			if base > 65536-1000 || base < 1000 {
				p.start = uint16(base + i*15000)
			}
		}
		for k := r.Intn(4); k > 0; k-- {
			p.lost[2+r.Intn(p.n-4)] = r.Intn(4)
		}
		for k := r.Intn(4); k > 0; k-- {
			p.back[2+r.Intn(p.n-4)] = true
		}
		plans[i] = p
	}
	return vPlay(kinds, size, timeout, plans, true)
}

// vPlay has sources send their plans over a real connection. complete: the jitter buffer is large
// enough for everything that is missing.
func vPlay(kinds []bool, size, timeout uint16, plans []vPlan, complete bool) (in, bad string) {
	in = fmt.Sprintf("jitter buffer %d packets, %d ms;", size, timeout)
	first := make([]uint16, len(kinds))
	for i, p := range plans {
		first[i] = p.start
		in += fmt.Sprintf(" track %d: video %v, packets %d.. (%d), lost %v, swapped %v;", i, kinds[i], p.start, p.n, p.lost, p.back)
	}
	rec := &vRec{}
	_, srcs, stop, fault, bad := vCall(kinds, size, timeout, rec, func(bool, time.Duration, bool) {})
	if stop != nil {
		defer stop()
	}
	if fault != nil || bad != "" {
		if fault != nil {
			fmt.Println("no call:", fault)
		}
		return in, bad
	}
	if !vStart(srcs, rec, first) {
		fmt.Println("no packets arrive")
		return in, ""
	}
	n := 0
	for _, p := range plans {
		n = max(n, p.n)
	}
	resent := make([]map[int]bool, len(srcs))
	again := func() {
		for i, s := range srcs {
			p := plans[i]
			_, nk := s.counts()
			for j, after := range p.lost {
				q := p.start + uint16(j)
				if after > 0 && nk[q] >= after && !resent[i][j] {
					resent[i][j] = true
					s.send(q, uint32(q)*960)
				}
			}
		}
	}
	for i := range resent {
		resent[i] = map[int]bool{}
	}
	tail := n + 40 // packets that arrive after the last loss
	for j := 1; j < tail; j++ {
		for i, s := range srcs {
			p := plans[i]
			q := p.start + uint16(j)
			if _, lost := p.lost[j]; lost {
				continue
			}
			if p.back[j] {
				if _, lost := p.lost[j+1]; !lost && !p.back[j+1] {
					s.send(q+1, uint32(q+1)*960)
				}
			}
			if p.back[j-1] {
				if _, lost := p.lost[j-1]; !lost && !p.back[j] {
					continue // sent before the one in front of it
				}
			}
			s.send(q, uint32(q)*960)
		}
		again()
		time.Sleep(2 * time.Millisecond)
	}
	// packets go on arriving until everything that is missing is given up
	end := time.Now().Add(900 * time.Millisecond)
	for time.Now().Before(end) {
		for i, s := range srcs {
			s.send(plans[i].start+uint16(tail), uint32(plans[i].start+uint16(tail))*960)
		}
		tail++
		again()
		time.Sleep(20 * time.Millisecond)
	}
	time.Sleep(100 * time.Millisecond)
	evs := rec.events()
	for i, s := range srcs {
		p := plans[i]
		nk := s.loop()
		for q, c := range nk {
			j := int(q - p.start)
			if c > 10 {
				return in, fmt.Sprintf("track %d: packet %d was requested %d times", i, q, c)
			}
			if _, lost := p.lost[j]; !lost && c > 1 {
				return in, fmt.Sprintf("track %d: packet %d arrived and was requested %d times", i, q, c)
			}
		}
		for j, after := range p.lost {
			q := p.start + uint16(j)
			if _, all := s.counts(); after == 0 && all[q] == 0 || nk != nil && after == 0 && nk[q] == 0 {
				return in, fmt.Sprintf("track %d: packet %d was missing and never requested", i, q)
			}
		}
		last, skip := -1, map[int]bool{}
		seen := map[int]bool{}
		for _, e := range evs {
			j := int(e.seq - p.start)
			if e.what == 's' {
				if _, lost := p.lost[j]; lost {
					if last > j {
						return in, fmt.Sprintf("track %d: the skip of %d was reported after packet %d was pushed", i, e.seq, p.start+uint16(last))
					}
					skip[j] = true
				}
				continue
			}
			if e.p.SSRC != s.ssrc {
				continue
			}
			if (e.what == 'v') != s.video {
				return in, fmt.Sprintf("track %d: packet %d went to the wrong input", i, e.seq)
			}
			if j <= last {
				return in, fmt.Sprintf("track %d: packet %d was pushed after %d", i, e.seq, p.start+uint16(last))
			}
			if complete && last >= 0 && j > last+1 {
				told := false
				for k := last + 1; k < j; k++ {
					told = told || skip[k]
				}
				if !told {
					return in, fmt.Sprintf("track %d: after %d comes %d, and no skip was reported", i, p.start+uint16(last), e.seq)
				}
			}
			last = j
			seen[j] = true
		}
		for j := 0; complete && j < tail-5; j++ {
			_, lost := p.lost[j]
			if lost && !seen[j] && j > last {
				break // still waiting for it
			}
			if !lost && !seen[j] {
				return in, fmt.Sprintf("track %d: packet %d arrived and was never pushed", i, p.start+uint16(j))
			}
		}
	}
	return in, ""
}

func TestVerifReplayC23(t *testing.T) {
	vRun(t, func(r *rand.Rand) (string, string) { return vLoop(r) })
}

// ---- C19: the flow of mediasoup tracks

type vFlow struct {
	on, end bool
}

// vFlows has one track send and pause; phases: milliseconds between packets (0: a pause).
func vFlows(video bool, phases []int) (in, bad string) {
	in = fmt.Sprintf("a track (video %v), packets every (ms; 0: none) %v", video, phases)
	var m sync.Mutex
	var told []vFlow
	rec := &vRec{}
	_, srcs, stop, fault, bad := vCall([]bool{video}, 16, 50, rec, func(on bool, _ time.Duration, end bool) {
		m.Lock()
		told = append(told, vFlow{on, end})
		m.Unlock()
	})
	if fault != nil || bad != "" {
		if stop != nil {
			stop()
		}
		if fault != nil {
			fmt.Println("no call:", fault)
		}
		return in, bad
	}
	seq := uint16(1000)
	if !vStart(srcs, rec, []uint16{seq}) {
		stop()
		return in, ""
	}
	want := []vFlow{{true, false}}
	at := time.Now()
	state := true
	check := func(when string) string {
		m.Lock()
		defer m.Unlock()
		if fmt.Sprint(told) != fmt.Sprint(want) {
			return fmt.Sprintf("%s the callback was told %v, want %v (flowing, end)", when, told, want)
		}
		return ""
	}
	for i, gap := range phases {
		if gap == 0 {
			time.Sleep(2400 * time.Millisecond)
			if state {
				state = false
				want = append(want, vFlow{false, false})
			}
		} else {
			for at = time.Now(); time.Since(at) < 2400*time.Millisecond; time.Sleep(time.Duration(gap) * time.Millisecond) {
				seq++
				srcs[0].send(seq, uint32(seq)*960)
			}
			if !state {
				state = true
				want = append(want, vFlow{true, false})
			}
		}
		if bad := check(fmt.Sprintf("after phase %d", i)); bad != "" {
			stop()
			return in, bad
		}
	}
	stop()
	want = append(want, vFlow{false, true})
	for i := 0; i < 100; i++ {
		if bad = check("after the end"); bad == "" {
			break
		}
		time.Sleep(30 * time.Millisecond)
	}
	return in, bad
}

func TestVerifReplayC19(t *testing.T) {
	n := 0
	vRun(t, func(r *rand.Rand) (string, string) {
		var ph []int
		if n++; n < 3 {
			return vFlows(n == 1, [][]int{{20, 0}, {0, 20, 0, 20}}[n-1])
		}
		for i := 1 + r.Intn(3); i > 0; i-- {
			ph = append(ph, []int{0, 20, 250, 400}[r.Intn(4)])
		}
		return vFlows(r.Intn(2) == 0, ph)
	})
}
