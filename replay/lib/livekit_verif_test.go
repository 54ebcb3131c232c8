package livekit

// Random search for a concrete failing input, run on the real code against the properties'
// statements. Bounded: it decides nothing by itself.

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/gorilla/websocket"
	lkp "github.com/livekit/protocol/livekit"
	lksdk "github.com/livekit/server-sdk-go/v2"
	"github.com/pion/rtp"
	pwebrtc "github.com/pion/webrtc/v3"
	log "github.com/sirupsen/logrus"
	"google.golang.org/protobuf/proto"
)

func vRun(t *testing.T, f func(r *rand.Rand) (input, bad string)) {
	log.SetOutput(io.Discard)
	fmt.Println("REPLAY-START")
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 5
	}
	sd, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	until := time.Now().Add(time.Duration(b) * time.Second / 2)
	n := 0
	for seed := sd * 1000003; time.Now().Before(until) && n < 100000; seed++ {
		n++
		var in, bad string
		for try := 0; try < 3 && (try == 0 || bad != ""); try++ { // only what fails again is reported
			func() {
				defer func() {
					if x := recover(); x != nil {
						bad = fmt.Sprintf("panic: %v", x)
					}
				}()
				in, bad = f(rand.New(rand.NewSource(seed)))
			}()
		}
		if bad != "" {
			fmt.Printf("REPLAY-FAIL case seed %d: %s: %s\n", seed, in, bad)
			t.FailNow()
		}
	}
	fmt.Printf("REPLAY-STATS {\"cases\": %d}\n", n)
}

// vField reads an unexported field of another package's struct.
func vField(x reflect.Value, name string) reflect.Value {
	f := x.FieldByName(name)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

// vRec records what the recorder is told.
type vRec struct {
	audio, video bool
}

var _ recorder.Recorder = (*vRec)(nil)

func (r *vRec) GetFilePath() string                             { return "a.webm" }
func (r *vRec) PushVideo(*rtp.Packet)                           {}
func (r *vRec) PushAudio(*rtp.Packet)                           {}
func (r *vRec) NotifySkippedPacket(uint16)                      {}
func (r *vRec) WithContext(context.Context)                     {}
func (r *vRec) VideoTimestamp() time.Duration                   { return 0 }
func (r *vRec) AudioTimestamp() time.Duration                   { return 0 }
func (r *vRec) SetKeyframeRequester(recorder.KeyframeRequester) {}
func (r *vRec) GetHasAudio() bool                               { return r.audio }
func (r *vRec) GetHasVideo() bool                               { return r.video }
func (r *vRec) Close() time.Duration                            { return 0 }

func (r *vRec) SetHasAudio(b bool) { r.audio = b }
func (r *vRec) SetHasVideo(b bool) { r.video = b }

// vSignal is the LiveKit server's end of the signal connection: it collects what it is sent.
type vSignal struct {
	conn *websocket.Conn
	got  chan []byte
	stop func()
}

func vDial() (*vSignal, error) {
	s := &vSignal{got: make(chan []byte, 1000)}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		up := websocket.Upgrader{}
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer c.Close()
		for {
			_, b, err := c.ReadMessage()
			if err != nil {
				return
			}
			s.got <- b
		}
	}))
	c, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(srv.URL, "http"), nil)
	if err != nil {
		srv.Close()
		return nil, err
	}
	s.conn = c
	s.stop = func() { c.Close(); srv.Close() }
	return s, nil
}

// requests returns the tracks asked for since the last call, by publication id.
func (s *vSignal) requests() (asked map[string]int, bad string) {
	asked = map[string]int{}
	s.conn.WriteMessage(websocket.TextMessage, []byte("flush"))
	for {
		select {
		case b := <-s.got:
			if string(b) == "flush" {
				return asked, ""
			}
			m := &lkp.SignalRequest{}
			if err := proto.Unmarshal(b, m); err != nil || m.GetSubscription() == nil {
				return asked, fmt.Sprintf("unexpected request %x", b)
			}
			if !m.GetSubscription().Subscribe {
				return asked, "unsubscribes"
			}
			for _, p := range m.GetSubscription().ParticipantTracks {
				for _, id := range p.TrackSids {
					asked[id]++
				}
			}
		case <-time.After(3 * time.Second):
			return asked, "no answer from the test's signal server"
		}
	}
}

type vPubl struct {
	sid, kind        string
	subscribed, dead bool
}

// vRoom makes a room with these publications per participant.
func vRoom(parts [][]vPubl, conn *websocket.Conn) *lksdk.Room {
	room := lksdk.NewRoom(&lksdk.RoomCallback{})
	engine := vField(reflect.ValueOf(room).Elem(), "engine").Elem()
	client := vField(engine, "client")
	cf := vField(client.Elem(), "conn").Addr()
	cf.MethodByName("Store").Call([]reflect.Value{reflect.ValueOf(conn)})
	update := vField(engine, "OnParticipantUpdate").Interface().(func([]*lkp.ParticipantInfo))
	var infos []*lkp.ParticipantInfo
	for i, ps := range parts {
		pi := &lkp.ParticipantInfo{Sid: fmt.Sprintf("PA_%d", i), Identity: fmt.Sprintf("user%d", i), State: lkp.ParticipantInfo_ACTIVE}
		for _, p := range ps {
			ty := lkp.TrackType_AUDIO
			if p.kind == "video" {
				ty = lkp.TrackType_VIDEO
			}
			pi.Tracks = append(pi.Tracks, &lkp.TrackInfo{Sid: p.sid, Type: ty, Name: p.sid})
		}
		infos = append(infos, pi)
	}
	update(infos)
	byID := map[string]vPubl{}
	for _, ps := range parts {
		for _, p := range ps {
			byID[p.sid] = p
		}
	}
	for _, rp := range room.GetRemoteParticipants() {
		for _, tp := range rp.TrackPublications() {
			p := byID[tp.SID()]
			base := reflect.ValueOf(tp).Elem()
			if p.subscribed {
				vField(base, "track").Set(reflect.ValueOf(&pwebrtc.TrackRemote{}))
			}
			if p.dead {
				vField(base, "client").Set(reflect.ValueOf(lksdk.NewSignalClient()))
			}
		}
	}
	return room
}

func TestVerifReplayC18(t *testing.T) {
	sig, err := vDial()
	if err != nil {
		t.Skip(err)
	}
	defer sig.stop()
	vRun(t, func(r *rand.Rand) (string, string) {
		var parts [][]vPubl
		var ids []string
		k := 0
		names := []string{"TR_1", "R_1", "_1", "1", "TR_", "TR_11", "T", "TR", "tr_1", "TR_1 ", "TR_1,TR_2", "TR_2", "TR_3", "X", "TR_4", "TR_5"}
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		for i := r.Intn(4); i > 0; i-- {
			var ps []vPubl
			for j := r.Intn(5); j > 0; j-- {
				p := vPubl{sid: names[k], kind: []string{"audio", "video"}[r.Intn(2)], subscribed: r.Intn(4) == 0, dead: r.Intn(12) == 0}
				k++
				ps = append(ps, p)
				ids = append(ids, p.sid)
			}
			parts = append(parts, ps)
		}
		var req []string
		for _, id := range append(ids, "TR_none", "TR_") {
			if r.Intn(2) == 0 {
				req = append(req, id)
			}
		}
		in := fmt.Sprintf("room %+v, requested %v", parts, req)
		w := NewLiveKitWebRTC(context.WithValue(context.Background(), "session", "s"), config.LiveKit{}, "room", req)
		rec := &vRec{}
		w.handler = rec
		w.room = vRoom(parts, sig.conn)
		_, err := w.subscribeToTracks()
		asked, bad := sig.requests()
		if bad != "" {
			return in, bad
		}
		want := map[string]bool{}
		for _, id := range req {
			want[id] = true
		}
		fails, video, audio, wantN := false, false, false, 0
		for _, ps := range parts {
			for _, p := range ps {
				if !want[p.sid] {
					if asked[p.sid] != 0 {
						return in, p.sid + " is subscribed but was not requested"
					}
					continue
				}
				video = video || p.kind == "video"
				audio = audio || p.kind == "audio"
				if p.subscribed && asked[p.sid] != 0 {
					return in, p.sid + " is subscribed again"
				}
				if !p.subscribed && p.dead {
					fails = true
				} else if !p.subscribed {
					wantN++
					if err == nil && asked[p.sid] != 1 {
						return in, fmt.Sprintf("%s was requested %d times, no error reported", p.sid, asked[p.sid])
					}
				}
			}
		}
		if fails != (err != nil) {
			return in, fmt.Sprintf("a subscription failed: %v, error %v", fails, err)
		}
		if len(asked) > wantN {
			return in, fmt.Sprintf("tracks asked for: %v", asked)
		}
		if err == nil && (rec.audio != audio || rec.video != video) || rec.audio && !audio || rec.video && !video {
			return in, fmt.Sprintf("recorder told audio=%v video=%v, requested tracks: audio=%v video=%v, error %v", rec.audio, rec.video, audio, video, err)
		}
		return in, ""
	})
}

// vLoop connects two peer connections over the loopback interface; send puts a packet on a track
// of the given kind, and track is its other end.
func vLoop(video bool) (send func(p *rtp.Packet) error, track *pwebrtc.TrackRemote, stop func(), err error) {
	mk := func() (*pwebrtc.PeerConnection, error) {
		m := &pwebrtc.MediaEngine{}
		if err := m.RegisterDefaultCodecs(); err != nil {
			return nil, err
		}
		se := pwebrtc.SettingEngine{}
		se.SetIncludeLoopbackCandidate(true)
		return pwebrtc.NewAPI(pwebrtc.WithMediaEngine(m), pwebrtc.WithSettingEngine(se)).NewPeerConnection(pwebrtc.Configuration{})
	}
	a, err := mk()
	if err != nil {
		return nil, nil, nil, err
	}
	b, err := mk()
	if err != nil {
		return nil, nil, nil, err
	}
	stop = func() { a.Close(); b.Close() }
	mime := pwebrtc.MimeTypeOpus
	if video {
		mime = pwebrtc.MimeTypeVP8
	}
	tl, err := pwebrtc.NewTrackLocalStaticRTP(pwebrtc.RTPCodecCapability{MimeType: mime}, "t", "s")
	if err != nil {
		return nil, nil, stop, err
	}
	if _, err = a.AddTrack(tl); err != nil {
		return nil, nil, stop, err
	}
	got := make(chan *pwebrtc.TrackRemote, 1)
	b.OnTrack(func(t *pwebrtc.TrackRemote, _ *pwebrtc.RTPReceiver) { got <- t })
	up := make(chan bool, 1)
	a.OnConnectionStateChange(func(s pwebrtc.PeerConnectionState) {
		if s == pwebrtc.PeerConnectionStateConnected {
			up <- true
		}
	})
	swap := func(x, y *pwebrtc.PeerConnection, offer bool) error {
		var d pwebrtc.SessionDescription
		var err error
		if offer {
			d, err = x.CreateOffer(nil)
		} else {
			d, err = x.CreateAnswer(nil)
		}
		if err != nil {
			return err
		}
		g := pwebrtc.GatheringCompletePromise(x)
		if err = x.SetLocalDescription(d); err != nil {
			return err
		}
		<-g
		return y.SetRemoteDescription(*x.LocalDescription())
	}
	if err = swap(a, b, true); err != nil {
		return nil, nil, stop, err
	}
	if err = swap(b, a, false); err != nil {
		return nil, nil, stop, err
	}
	select {
	case <-up:
	case <-time.After(5 * time.Second):
		return nil, nil, stop, fmt.Errorf("no loopback connection")
	}
	tl.WriteRTP(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: 65500, Timestamp: 65500 * 960, Marker: true}, Payload: []byte{0x10, 1, 0, 0}})
	select {
	case track = <-got:
	case <-time.After(5 * time.Second):
		return nil, nil, stop, fmt.Errorf("no track")
	}
	return tl.WriteRTP, track, stop, nil
}

// vFlow records notifications.
type vFlow struct {
	m    sync.Mutex
	said []bool
	bad  string
}

func (f *vFlow) call(flowing bool, ts time.Duration, closed bool) {
	f.m.Lock()
	defer f.m.Unlock()
	f.said = append(f.said, flowing)
	if closed {
		f.bad = "the notification says that the session is closed"
	}
	if flowing != (len(f.said)%2 == 1) {
		f.bad = fmt.Sprintf("notifications %v do not alternate, beginning with flowing", f.said)
	}
}
func (f *vFlow) state() (int, string) {
	f.m.Lock()
	defer f.m.Unlock()
	return len(f.said), f.bad
}

// a real track: packets flow, pause and flow again
func vFlowLive(video bool) (string, string) {
	in := fmt.Sprintf("video=%v: packets for 700 ms, none for 3 s, packets for 700 ms, none for 3 s", video)
	send, track, stop, err := vLoop(video)
	if err != nil {
		if stop != nil {
			stop()
		}
		return in, ""
	}
	defer stop()
	kind := "audio"
	if video {
		kind = "video"
	}
	room := vRoom([][]vPubl{{{sid: "TR_1", kind: kind}}}, nil)
	rp := room.GetRemoteParticipants()[0]
	pub := rp.TrackPublications()[0].(*lksdk.RemoteTrackPublication)
	w := NewLiveKitWebRTC(context.WithValue(context.Background(), "session", "s"), config.LiveKit{}, "room", []string{"TR_1"})
	w.handler = &vRec{}
	f := &vFlow{}
	w.SetFlowCallback(f.call)
	w.onTrackSubscribed(track, pub, rp)
	seq, ts := uint16(65500), uint32(65500*960)
	for round := 1; round <= 2; round++ {
		for i := 0; i < 35; i++ {
			seq++
			ts += 960
			send(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: seq, Timestamp: ts, Marker: true}, Payload: []byte{0x10, 1, 0, 0, 0}})
			time.Sleep(20 * time.Millisecond)
		}
		n, bad := f.state()
		if bad != "" {
			return in, bad
		}
		if n != 2*round-1 {
			return in, fmt.Sprintf("%d notifications by the end of burst %d, want %d", n, round, 2*round-1)
		}
		time.Sleep(3 * time.Second)
		if n, bad = f.state(); bad != "" {
			return in, bad
		}
		if n != 2*round {
			return in, fmt.Sprintf("%d notifications by the end of pause %d, want %d", n, round, 2*round)
		}
	}
	return in, ""
}

func TestVerifReplayC19(t *testing.T) {
	type live struct{ in, bad string }
	done := make(chan live, 2)
	for _, v := range []bool{false, true} {
		v := v
		go func() {
			in, bad := vFlowLive(v)
			done <- live{in, bad}
		}()
	}
	vRun(t, func(r *rand.Rand) (string, string) {
		w := NewLiveKitWebRTC(context.WithValue(context.Background(), "session", "s"), config.LiveKit{}, "room", nil)
		calls := 0
		var flowing, closed bool
		var ts time.Duration
		w.SetFlowCallback(func(f bool, t time.Duration, c bool) { calls++; flowing, ts, closed = f, t, c })
		last := map[string]uint16{}
		lastTs := map[string]time.Duration{}
		is := map[string]bool{}
		in := ""
		ids := []string{"a", "b", "c"}
		for i := 1 + r.Intn(25); i > 0; i-- {
			id := ids[r.Intn(len(ids))]
			seq := last[id]
			switch r.Intn(4) {
			case 0:
				seq++
			case 1:
				seq = []uint16{0, 1, 65535, 32768}[r.Intn(4)]
			}
			tm := time.Duration(r.Intn(5)) * time.Second
			in += fmt.Sprintf("(%s %d %s) ", id, seq, tm)
			was, known := last[id]
			now := known && was != seq
			before := calls
			w.updateFlowState(id, seq, tm)
			last[id], lastTs[id] = seq, tm
			if now == is[id] {
				if calls != before {
					return in, "a notification without a change"
				}
				continue
			}
			is[id] = now
			if calls != before+1 || flowing != now || closed {
				return in, fmt.Sprintf("%s flowing=%v: %d notifications, flowing=%v closed=%v", id, now, calls-before, flowing, closed)
			}
			var max time.Duration
			for _, x := range lastTs {
				if x > max {
					max = x
				}
			}
			if ts != max {
				return in, fmt.Sprintf("notified timestamp %s, the largest is %s", ts, max)
			}
		}
		return in, ""
	})
	for i := 0; i < 2; i++ {
		if l := <-done; l.bad != "" {
			fmt.Printf("REPLAY-FAIL %s: %s\n", l.in, l.bad)
			t.FailNow()
		}
	}
}

func TestVerifReplayC20(t *testing.T) {
	vRun(t, func(r *rand.Rand) (string, string) {
		w := NewLiveKitWebRTC(context.WithValue(context.Background(), "session", "s"), config.LiveKit{}, "room", nil)
		room := vRoom(make([][]vPubl, r.Intn(4)), nil)
		in := fmt.Sprintf("%d participants, ", len(room.GetRemoteParticipants()))
		w.remoteParticipants = map[string]*lksdk.RemoteParticipant{}
		sent := map[string]map[uint32]int{}
		for _, p := range room.GetRemoteParticipants() {
			id := p.SID()
			w.remoteParticipants[id] = p
			sent[id] = map[uint32]int{}
			vField(reflect.ValueOf(p).Elem(), "pliWriter").Set(reflect.ValueOf(lksdk.PLIWriter(func(s pwebrtc.SSRC) { sent[id][uint32(s)]++ })))
		}
		connected := r.Intn(4) > 0
		if connected {
			w.room = room
		}
		want := map[uint32]int{}
		for i := r.Intn(4); i > 0; i-- {
			s := uint32(r.Intn(4))
			want[s] = 0
			w.pliStats[s] = PLITracker{timestamp: time.Now()}
		}
		in += fmt.Sprintf("connected %v, sources %v, requests:", connected, want)
		for i := r.Intn(5); i > 0; i-- {
			if r.Intn(2) == 0 {
				s := uint32(r.Intn(6))
				in += fmt.Sprintf(" %d", s)
				w.RequestKeyframeForSSRC(s)
				if connected && len(sent) > 0 {
					want[s]++
				}
			} else {
				in += " all"
				w.RequestKeyframe()
				for s := range want {
					if connected && len(sent) > 0 {
						want[s]++
					}
				}
			}
		}
		for s := uint32(0); s < 6; s++ {
			for id := range sent {
				if sent[id][s] != want[s] {
					return in, fmt.Sprintf("participant %s was asked %d times for source %d, want %d", id, sent[id][s], s, want[s])
				}
			}
			if w.pliStats[s].count != want[s]*len(sent) {
				return in, fmt.Sprintf("source %d is counted %d times, want %d", s, w.pliStats[s].count, want[s]*len(sent))
			}
		}
		return in, ""
	})
}
