package server

// Random search for a concrete failing input, run on the real code against the properties'
// statements. Bounded: it decides nothing by itself.

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/signal"
	pwebrtc "github.com/pion/webrtc/v3"
	prom "github.com/prometheus/client_golang/prometheus"
	log "github.com/sirupsen/logrus"
)

type vPub struct {
	m    sync.Mutex
	msgs []map[string]interface{}
	chs  []string
}

func (p *vPub) Subscribe(string, pubsub.PubSubHandler, func() error) {}
func (p *vPub) Publish(ch string, b []byte) {
	p.m.Lock()
	defer p.m.Unlock()
	m := map[string]interface{}{}
	json.Unmarshal(b, &m)
	p.msgs = append(p.msgs, m)
	p.chs = append(p.chs, ch)
}
func (p *vPub) take() (m []map[string]interface{}, c []string) {
	p.m.Lock()
	defer p.m.Unlock()
	m, c = p.msgs, p.chs
	p.msgs, p.chs = nil, nil
	return
}

type vRec struct {
	recorder.Recorder
	m      sync.Mutex
	closes int
	slow   bool
}

func (r *vRec) GetFilePath() string           { return "fake.webm" }
func (r *vRec) VideoTimestamp() time.Duration { return 0 }
func (r *vRec) AudioTimestamp() time.Duration { return 0 }
func (r *vRec) Close() time.Duration {
	r.m.Lock()
	r.closes++
	r.m.Unlock()
	if r.slow {
		time.Sleep(time.Millisecond)
	}
	return 1234 * time.Millisecond
}

var vReg = func() *prom.Registry { r := prom.NewRegistry(); r.MustRegister(prometheus.Sessions); return r }()

func vGauge() int {
	m, err := vReg.Gather()
	if err != nil || len(m) != 1 {
		return 0
	}
	return int(m[0].GetMetric()[0].GetGauge().GetValue())
}

func vBudget() time.Time {
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 6
	}
	return time.Now().Add(time.Duration(b) * time.Second / 2)
}

var vOfferOnce sync.Once
var vOfferText string

func vOffer() string {
	vOfferOnce.Do(func() {
		pc, err := pwebrtc.NewPeerConnection(pwebrtc.Configuration{})
		if err != nil {
			return
		}
		defer pc.Close()
		pc.AddTransceiverFromKind(pwebrtc.RTPCodecTypeAudio)
		o, err := pc.CreateOffer(nil)
		if err != nil {
			return
		}
		vOfferText = signal.Encode(o)
	})
	return vOfferText
}

// vField reads an unexported field of another package's struct (the zero Value when it is gone).
func vField(x interface{}, name string) reflect.Value {
	f := reflect.ValueOf(x).Elem().FieldByName(name)
	if !f.IsValid() || !f.CanAddr() {
		return reflect.Value{}
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

type vWorld struct {
	s     *Server
	p     *vPub
	dir   string
	tab   map[string]*Session
	fakes map[string]*vRec
	old   []*Session // sessions no longer registered
	log   []string
}

func vNew(n int) *vWorld {
	dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("s%d-%d", os.Getpid(), n))
	if os.Getenv("VERIF_SCRATCH") == "" {
		dir, _ = os.MkdirTemp("", "vsrv")
	}
	os.MkdirAll(dir, 0o755)
	cfg := &config.Config{}
	cfg.SetDefaults()
	cfg.Recorder.Directory = dir
	cfg.LiveKit.Host = "ws://127.0.0.1:1"
	cfg.PubSub.Channels.Publish = "the-channel"
	w := &vWorld{p: &vPub{}, dir: dir, tab: map[string]*Session{}, fakes: map[string]*vRec{}}
	w.s = NewServer(cfg, w.p)
	return w
}

func (w *vWorld) add(id string, slow bool) *Session {
	r := &vRec{slow: slow}
	s := NewSession(id, w.s, nil, nil, r)
	w.s.sessions.Store(id, s)
	prometheus.Sessions.Inc()
	w.tab[id] = s
	w.fakes[id] = r
	return s
}

func (w *vWorld) sameTab() string {
	n := 0
	bad := ""
	w.s.sessions.Range(func(k, v interface{}) bool {
		n++
		if w.tab[k.(string)] != v.(*Session) {
			bad = fmt.Sprintf("session table entry %v is not the expected session", k)
		}
		return true
	})
	if bad == "" && n != len(w.tab) {
		bad = fmt.Sprintf("%d sessions registered, %d expected", n, len(w.tab))
	}
	return bad
}

func (w *vWorld) handle(msg string) (bad string) {
	w.log = append(w.log, strings.ReplaceAll(msg, vOffer(), "<offer>"))
	defer func() {
		if x := recover(); x != nil {
			bad = fmt.Sprintf("panic: %v", x)
		}
	}()
	w.s.HandlePubSub(context.Background(), []byte(msg))
	return ""
}

func vStart(r *rand.Rand, sid string) map[string]interface{} {
	m := map[string]interface{}{"id": "startRecording", "recordingSessionId": sid}
	m["fileName"] = []string{"a.webm", fmt.Sprintf("d%d/b.webm", r.Intn(100)), "c.mp4", ""}[[]int{0, 0, 1, 1, 2, 3}[r.Intn(6)]]
	switch r.Intn(8) {
	case 0:
		m["adapter"] = "livekit"
		m["adapterOptions"] = map[string]interface{}{"livekit": map[string]interface{}{"room": []string{"", "r"}[r.Intn(2)], "trackIds": []string{"t"}}}
	case 1:
		m["adapter"] = "other"
		m["sdp"] = "e30="
	case 2:
		m["adapter"] = "mediasoup"
	case 3:
		m["adapter"] = "mediasoup"
		m["adapterOptions"] = map[string]interface{}{"mediasoup": map[string]interface{}{"sdp": vOffer()}}
	case 4:
		m["sdp"] = vOffer()
	case 5:
		m["sdp"] = []string{"%%%", "e30=", "eyJ0eXBlIjoib2ZmZXIiLCJzZHAiOiJ4In0=", ""}[r.Intn(4)]
	case 6:
		m["adapter"] = "mediasoup"
		m["sdp"] = "!"
		m["adapterOptions"] = map[string]interface{}{"mediasoup": map[string]interface{}{"sdp": "x"}}
	case 7:
		delete(m, "fileName")
		m["sdp"] = vOffer()
	}
	return m
}

// step performs one operation and compares everything observable with what the properties say.
func (w *vWorld) step(r *rand.Rand, ms int) string {
	ids := []string{"a", "b", "c", ""}
	sid := ids[r.Intn(len(ids))]
	g := vGauge()
	switch k := r.Intn(10); {
	case k == 0:
		msg := []string{"", "null", "{}", "{", "{\"id\":1}", "{\"id\":\"zzz\"}", "{\"id\":\"recordingStopped\",\"recordingSessionId\":\"a\"}",
			"{\"id\":\"startRecordingResponse\",\"recordingSessionId\":\"a\"}", "{\"id\":\"stopRecording\",\"recordingSessionId\":7}", "{\"id\":\"startRecording\",\"sdp\":{}}", "{\"id\":\"recorderStatus\"}"}[r.Intn(11)]
		if bad := w.handle(msg); bad != "" {
			return bad
		}
		if m, _ := w.p.take(); len(m) != 0 {
			return fmt.Sprintf("published %v", m)
		}
		if vGauge() != g {
			return "session count changed"
		}
	case k == 1:
		if bad := w.handle("{\"id\":\"getRecorderStatus\"}"); bad != "" {
			return bad
		}
		m, c := w.p.take()
		if len(m) != 1 || m[0]["id"] != "recorderStatus" || c[0] != "the-channel" {
			return fmt.Sprintf("status request answered with %v", m)
		}
		if vGauge() != g {
			return "session count changed"
		}
	case k <= 3:
		if _, ok := w.tab[sid]; !ok {
			w.log = append(w.log, "(session "+sid+" set up)")
			w.add(sid, false)
		}
	case k <= 5:
		b, _ := json.Marshal(map[string]interface{}{"id": "stopRecording", "recordingSessionId": sid})
		s := w.tab[sid]
		was := s != nil && s.stopped
		closes := 0
		if s != nil && w.fakes[sid] != nil {
			closes = w.fakes[sid].closes
		}
		if bad := w.handle(string(b)); bad != "" {
			return bad
		}
		m, c := w.p.take()
		if s == nil {
			if len(m) != 0 || vGauge() != g {
				return fmt.Sprintf("stop of an unknown session published %v, session count %d -> %d", m, g, vGauge())
			}
			break
		}
		if len(m) != 1 || m[0]["id"] != "recordingStopped" || m[0]["recordingSessionId"] != nil && m[0]["recordingSessionId"] != sid || m[0]["recordingSessionId"] == nil && sid != "" || c[0] != "the-channel" {
			return fmt.Sprintf("stop published %v on %v", m, c)
		}
		d := 1
		if was {
			d = 0
		}
		if vGauge() != g-d {
			return fmt.Sprintf("stop changed the session count from %d to %d", g, vGauge())
		}
		if f := w.fakes[sid]; f != nil && f.closes != closes+d {
			return fmt.Sprintf("recorder closed %d times", f.closes)
		}
		if !s.stopped {
			return "session is not marked stopped"
		}
		delete(w.tab, sid)
		w.old = append(w.old, s)
	case k == 6:
		// stopped again, from elsewhere
		if s := w.tab[sid]; s != nil {
			w.log = append(w.log, "(session "+sid+" stopped by the server)")
			was := s.stopped
			s.StopRecording()
			d := 1
			if was {
				d = 0
			}
			if vGauge() != g-d {
				return fmt.Sprintf("stopping changed the session count from %d to %d", g, vGauge())
			}
			if f := w.fakes[sid]; f != nil && f.closes != 1 {
				return fmt.Sprintf("recorder closed %d times", f.closes)
			}
		}
	default:
		m := vStart(r, sid)
		if r.Intn(12) == 0 {
			// an already existing file
			os.WriteFile(filepath.Join(w.dir, "a.webm"), nil, 0o600)
		} else {
			os.Remove(filepath.Join(w.dir, "a.webm"))
		}
		b, _ := json.Marshal(m)
		old := w.tab[sid]
		oldStopped := old != nil && old.stopped
		if bad := w.handle(string(b)); bad != "" {
			return bad
		}
		ans, c := w.p.take()
		if len(ans) != 1 {
			return fmt.Sprintf("%d answers: %v", len(ans), ans)
		}
		a := ans[0]
		if a["id"] != "startRecordingResponse" || a["recordingSessionId"] != nil && a["recordingSessionId"] != sid || a["recordingSessionId"] == nil && sid != "" || c[0] != "the-channel" {
			return fmt.Sprintf("answer %v on %v", a, c)
		}
		v, has := w.s.sessions.Load(sid)
		switch a["status"] {
		case "failed":
			if a["error"] == nil || a["sdp"] != nil {
				return fmt.Sprintf("answer %v", a)
			}
			if vGauge() != g {
				return fmt.Sprintf("a failed start changed the session count from %d to %d", g, vGauge())
			}
			if old != nil && old.stopped != oldStopped {
				return "a refused start stopped the existing session"
			}
		case "ok":
			if old != nil {
				return "a session id in use was accepted"
			}
			if !has {
				return "answered ok without a registered session"
			}
			s := v.(*Session)
			if a["error"] != nil || a["fileName"] != s.recorder.GetFilePath() || s.stopped {
				return fmt.Sprintf("answer %v", a)
			}
			if vGauge() != g+1 {
				return fmt.Sprintf("a start changed the session count from %d to %d", g, vGauge())
			}
			if !strings.HasPrefix(fmt.Sprint(a["fileName"]), w.dir) || s.webrtc == nil {
				return fmt.Sprintf("answer %v", a)
			}
			pc := vField(s.webrtc, "pc")
			if !pc.IsValid() || pc.IsNil() {
				return fmt.Sprintf("answered ok without a connection: %v", a)
			}
			w.tab[sid] = s
			delete(w.fakes, sid)
		default:
			return fmt.Sprintf("answer %v", a)
		}
	}
	return w.sameTab()
}

func vSearch(t *testing.T) {
	log.SetOutput(io.Discard)
	fmt.Println("REPLAY-START")
	sd, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	until := vBudget()
	n, ops := 0, 0
	vOffer()
	for seed := sd * 1000003; time.Now().Before(until); seed++ {
		r := rand.New(rand.NewSource(seed))
		w := vNew(n)
		n++
		for i := 0; i < 12; i++ {
			ops++
			// the media connections of accepted sessions are closed at once, and that is reported through
			// the callbacks: wait for it to settle before looking at the next step
			if bad := w.settle(); bad != "" {
				fmt.Printf("REPLAY-FAIL case seed %d: %v: %s\n", seed, w.log, bad)
				t.FailNow()
			}
			if bad := w.step(r, 0); bad != "" {
				fmt.Printf("REPLAY-FAIL case seed %d: %v: %s\n", seed, w.log, bad)
				t.FailNow()
			}
		}
		w.settle()
		for _, s := range w.tab {
			s.StopRecording()
		}
		os.RemoveAll(w.dir)
	}
	fmt.Printf("REPLAY-STATS {\"cases\": %d, \"operations\": %d}\n", n, ops)
}

// settle waits for the reports of closed media connections.
func (w *vWorld) settle() string {
	for id, s := range w.tab {
		if w.fakes[id] != nil || s.webrtc == nil {
			continue
		}
		go s.webrtc.Close()
		if cb := vField(s.webrtc, "connStateCallbackFn"); cb.IsValid() && cb.Kind() == reflect.Func && !cb.IsNil() {
			if f, ok := cb.Interface().(func(pwebrtc.ICEConnectionState)); ok {
				f(pwebrtc.ICEConnectionStateClosed)
			}
		}
		for i := 0; i < 3000; i++ {
			w.p.m.Lock()
			n := len(w.p.msgs)
			w.p.m.Unlock()
			if _, ok := w.s.sessions.Load(id); n > 0 && !ok {
				break
			}
			time.Sleep(time.Millisecond)
		}
		m, _ := w.p.take()
		if len(m) != 1 || m[0]["id"] != "recordingStopped" || m[0]["recordingSessionId"] != nil && m[0]["recordingSessionId"] != id {
			return fmt.Sprintf("the end of the connection of session %q published %v", id, m)
		}
		delete(w.tab, id)
	}
	return ""
}

func TestVerifReplayC07(t *testing.T) { vSearch(t) }
func TestVerifReplayC09(t *testing.T) { vSearch(t) }

func TestVerifReplayC10(t *testing.T) {
	log.SetOutput(io.Discard)
	fmt.Println("REPLAY-START")
	until := vBudget()
	n := 0
	fail := func(in, bad string) {
		fmt.Printf("REPLAY-FAIL %s: %s\n", in, bad)
		t.FailNow()
	}
	half := time.Now().Add(time.Until(until) / 2)
	for n < 3000 && time.Now().Before(half) {
		n++
		r := rand.New(rand.NewSource(int64(n)))
		w := vNew(n)
		rec := &vRec{slow: n%2 == 0}
		wr := webrtc.NewWebRTC(context.Background(), w.s.cfg.WebRTC)
		s := NewSession("a", w.s, wr, nil, rec)
		w.s.sessions.Store("a", s)
		other := w.add("b", false)
		g := vGauge()
		func() {
			defer func() { recover() }()
			m := vStart(r, "a")
			m["sdp"] = "e30="
			b, _ := json.Marshal(m)
			e := events.Decode(b).StartRecording()
			s.StartRecording(e) // registers the callbacks; there is no usable offer
		}()
		if vGauge() != g+1 {
			fail("starting a session", fmt.Sprintf("session count %d -> %d", g, vGauge()))
		}
		cb := vField(wr, "connStateCallbackFn")
		fc := vField(wr, "flowCallback")
		lost := []pwebrtc.ICEConnectionState{pwebrtc.ICEConnectionStateDisconnected, pwebrtc.ICEConnectionStateFailed, pwebrtc.ICEConnectionStateClosed}[r.Intn(3)]
		stop := "{\"id\":\"stopRecording\",\"recordingSessionId\":\"a\"}"
		var in string
		conn, okc := func() (func(pwebrtc.ICEConnectionState), bool) {
			if !cb.IsValid() || cb.Kind() != reflect.Func || cb.IsNil() {
				return nil, false
			}
			f, ok := cb.Interface().(func(pwebrtc.ICEConnectionState))
			return f, ok
		}()
		if fc.IsValid() && fc.Kind() == reflect.Func && !fc.IsNil() && n%3 == 0 {
			if f, ok := fc.Interface().(func(bool, time.Duration, bool)); ok {
				f(n%2 == 0, time.Second, false)
				m, _ := w.p.take()
				if len(m) != 1 || m[0]["id"] != "recordingRtpStatusChanged" || m[0]["recordingSessionId"] != "a" || w.sameTab2("a", "b") != "" {
					fail("media flow reported", fmt.Sprintf("published %v %s", m, w.sameTab2("a", "b")))
				}
				want := map[bool]string{true: "flowing", false: "not_flowing"}[n%2 == 0]
				if m[0]["status"] != want {
					fail("media flow reported", fmt.Sprintf("status %v", m[0]["status"]))
				}
			}
		}
		switch {
		case okc && n%4 == 0:
			in = "connection lost and stop request at the same time"
			var wg sync.WaitGroup
			for i := 0; i < 3; i++ {
				wg.Add(2)
				go func() { defer wg.Done(); conn(lost) }()
				go func() { defer wg.Done(); w.s.HandlePubSub(context.Background(), []byte(stop)) }()
			}
			wg.Wait()
		case okc && n%4 == 1:
			in = "connection lost, then lost again, then a stop request"
			conn(pwebrtc.ICEConnectionStateConnected)
			if m, _ := w.p.take(); len(m) != 0 || rec.closes != 0 {
				fail("connection established", fmt.Sprintf("published %v, closes %d", m, rec.closes))
			}
			in = "connection " + lost.String() + ", then failed and closed, then a stop request"
			conn(lost)
			m, _ := w.p.take()
			if len(m) != 1 || m[0]["id"] != "recordingStopped" || m[0]["recordingSessionId"] != "a" {
				fail("connection "+lost.String(), fmt.Sprintf("published %v", m))
			}
			conn(pwebrtc.ICEConnectionStateFailed)
			conn(pwebrtc.ICEConnectionStateClosed)
			w.s.HandlePubSub(context.Background(), []byte(stop))
			if m, _ := w.p.take(); len(m) != 0 {
				fail(in, fmt.Sprintf("published %v", m))
			}
		case okc && n%4 == 2:
			in = "stop request, then connection lost"
			w.s.HandlePubSub(context.Background(), []byte(stop))
			m, _ := w.p.take()
			if len(m) != 1 || m[0]["id"] != "recordingStopped" || m[0]["recordingSessionId"] != "a" {
				fail(in, fmt.Sprintf("published %v", m))
			}
			conn(lost)
			if m, _ := w.p.take(); len(m) != 0 {
				fail(in, fmt.Sprintf("published %v", m))
			}
		default:
			in = "two stop requests and a direct stop"
			w.s.HandlePubSub(context.Background(), []byte(stop))
			w.s.HandlePubSub(context.Background(), []byte(stop))
			m, _ := w.p.take()
			if len(m) != 1 || m[0]["id"] != "recordingStopped" || m[0]["recordingSessionId"] != "a" || m[0]["timestampHR"] != float64(1234) {
				fail(in, fmt.Sprintf("published %v", m))
			}
			s.StopRecording()
		}
		if rec.closes != 1 {
			fail(in, fmt.Sprintf("recorder closed %d times", rec.closes))
		}
		if vGauge() != g {
			fail(in, fmt.Sprintf("session count %d, expected %d", vGauge(), g))
		}
		if bad := w.sameTab(); bad != "" {
			fail(in, bad)
		}
		if other.stopped || w.fakes["b"].closes != 0 {
			fail(in, "another session was stopped")
		}
		other.StopRecording()
		os.RemoveAll(w.dir)
	}
	vSearch(t)
}

func (w *vWorld) sameTab2(ids ...string) string {
	for _, id := range ids {
		if _, ok := w.s.sessions.Load(id); !ok {
			return "session " + id + " is gone"
		}
	}
	return ""
}
