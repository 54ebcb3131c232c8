S = "internal/server"
E = "internal/pubsub/events"
L = "internal/webrtc/livekit"
HEAD = '''package server
import (
	"context"
	"encoding/json"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	prom "github.com/prometheus/client_golang/prometheus"
)

type dPub struct {
	m    sync.Mutex
	msgs []map[string]interface{}
}

func (p *dPub) Subscribe(string, pubsub.PubSubHandler, func() error) {}
func (p *dPub) Publish(ch string, b []byte) {
	p.m.Lock()
	defer p.m.Unlock()
	m := map[string]interface{}{}
	json.Unmarshal(b, &m)
	p.msgs = append(p.msgs, m)
}

type dRec struct {
	recorder.Recorder
	closes int
}

func (r *dRec) GetFilePath() string           { return "f.webm" }
func (r *dRec) VideoTimestamp() time.Duration { return 0 }
func (r *dRec) AudioTimestamp() time.Duration { return 0 }
func (r *dRec) Close() time.Duration          { r.closes++; return time.Second }

var dReg = func() *prom.Registry { r := prom.NewRegistry(); r.MustRegister(prometheus.Sessions); return r }()

func dGauge() int {
	m, _ := dReg.Gather()
	return int(m[0].GetMetric()[0].GetGauge().GetValue())
}

func dServer(t *testing.T) (*Server, *dPub) {
	dir := filepath.Join(os.Getenv("SCRATCH"), "rec")
	os.MkdirAll(dir, 0o755)
	cfg := &config.Config{}
	cfg.SetDefaults()
	cfg.Recorder.Directory = dir
	cfg.LiveKit.Host = "ws://127.0.0.1:1"
	p := &dPub{}
	return NewServer(cfg, p), p
}

var _ = context.Background
'''
SEEDS = [
dict(id="decode-wrong-type", property="C07", pkg=S, needs="a control message with a known identifier whose other fields have JSON types that do not fit",
 what="a message whose fields cannot be decoded is handled as if it were an event with the fields missing",
 edits=[(E+"/decode.go", '''	if err := json5.Unmarshal(message, s); err != nil {
		log.Error(err, string(message))
		return nil
	}

	e.Id = id''', '''	if err := json5.Unmarshal(message, s); err != nil {
		log.Error(err, string(message))
		if _, mismatch := err.(*json5.UnmarshalTypeError); !mismatch {
			return nil
		}
	}

	e.Id = id''')],
 test=HEAD+'''
func TestSeedDemo(t *testing.T) {
	s, p := dServer(t)
	s.HandlePubSub(context.Background(), []byte(`{"id":"startRecording","recordingSessionId":"a","fileName":17,"sdp":"x"}`))
	if len(p.msgs) != 0 {
		t.Fatalf("published %v", p.msgs)
	}
}
'''),
dict(id="decode-id-case", property="C07", pkg=S, needs="a stop request for a known session written with a key that differs from \"id\" in letter case",
 what="a message without an id is taken for an event, because the identifier is read with the JSON package's case-insensitive matching",
 edits=[(E+"/decode.go", '''	var id string
	var ok bool
	if id, ok = m["id"].(string); !ok {
		return nil
	}
''', '''	var head struct {
		Id string `json:"id"`
	}
	if err := json5.Unmarshal(message, &head); err != nil || head.Id == "" {
		return nil
	}
	id := head.Id
''')],
 test=HEAD+'''
func TestSeedDemo(t *testing.T) {
	s, p := dServer(t)
	r := &dRec{}
	s.sessions.Store("a", NewSession("a", s, nil, nil, r))
	s.HandlePubSub(context.Background(), []byte(`{"ID":"stopRecording","recordingSessionId":"a"}`))
	if len(p.msgs) != 0 || r.closes != 0 {
		t.Fatalf("published %v, closed %d times", p.msgs, r.closes)
	}
}
'''),
dict(id="status-echo", property="C07", pkg=S, needs="a recorderStatus message of another recorder on the same channel",
 what="status announcements of other recorders are answered with another status",
 edits=[(S+"/server.go", '''	case "getRecorderStatus":
''', '''	case "getRecorderStatus", "recorderStatus":
''')],
 test=HEAD+'''
func TestSeedDemo(t *testing.T) {
	s, p := dServer(t)
	s.HandlePubSub(context.Background(), []byte(`{"id":"getRecorderStatus"}`))
	if len(p.msgs) != 1 {
		t.Fatal("no status")
	}
	s.HandlePubSub(context.Background(), []byte(`{"id":"recorderStatus","appVersion":"1","instanceId":"other","timestamp":5}`))
	if len(p.msgs) != 1 {
		t.Fatalf("published %v", p.msgs)
	}
}
'''),
dict(id="fail-echoes-offer", property="C08", pkg=E, needs="a refused request that carries a legacy offer",
 what="a failure response to a request with a legacy offer carries an SDP and no longer passes the response validation",
 edits=[(E+"/events.go", '''		Error:     pointer.ToString(err.Error()),
	}
	return &r''', '''		Error:     pointer.ToString(err.Error()),
		SDP:       pointer.ToStringOrNil(e.SDP),
	}
	return &r''')],
 test='''package events
import (
	"fmt"
	"testing"
)
func TestSeedDemo(t *testing.T) {
	r := (&StartRecording{Id: "startRecording", SessionId: "a", SDP: "v=0"}).Fail(fmt.Errorf("no"))
	if err := r.Validate(); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="sdp-empty-option", property="C08", pkg=E, needs="a legacy offer together with mediasoup options whose offer is empty",
 what="an empty offer in the options hides the legacy one that made the request valid",
 edits=[(E+"/events.go", '''	if e.AdapterOptions != nil && e.AdapterOptions.Mediasoup != nil && e.AdapterOptions.Mediasoup.SDP != "" {
		return e.AdapterOptions.Mediasoup.SDP
	}
	return e.SDP''', '''	if e.AdapterOptions != nil && e.AdapterOptions.Mediasoup != nil {
		return e.AdapterOptions.Mediasoup.SDP
	}
	return e.SDP''')],
 test='''package events
import "testing"
func TestSeedDemo(t *testing.T) {
	e := &StartRecording{Id: "startRecording", SessionId: "a", SDP: "v=0", Adapter: AdapterMediasoup, AdapterOptions: &AdapterOptions{Mediasoup: &MediasoupConfig{}}}
	if e.Validate() != nil || e.GetSDP() != "v=0" {
		t.Fatalf("%v %q", e.Validate(), e.GetSDP())
	}
}
'''),
dict(id="livekit-fail-gauge", property="C09", pkg=S, needs="a LiveKit start request whose connection to the LiveKit server fails",
 what="a LiveKit session that could not be set up is removed but stays counted as active, and its recorder is never closed",
 edits=[(S+"/server.go", '''			if _, err := sess.StartRecording(e); err != nil {
				log.WithField("session", ctx.Value("session")).Error(err)
				sess.StopRecording()
				s.CloseSession(e.SessionId)''', '''			if _, err := sess.StartRecording(e); err != nil {
				log.WithField("session", ctx.Value("session")).Error(err)
				s.CloseSession(e.SessionId)''')],
 test=HEAD+'''
func TestSeedDemo(t *testing.T) {
	s, p := dServer(t)
	before := dGauge()
	s.HandlePubSub(context.Background(), []byte(`{"id":"startRecording","recordingSessionId":"a","fileName":"a.webm","adapter":"livekit","adapterOptions":{"livekit":{"room":"r","trackIds":["t"]}}}`))
	if len(p.msgs) != 1 || p.msgs[0]["status"] != "failed" {
		t.Fatalf("published %v", p.msgs)
	}
	if dGauge() != before {
		t.Fatalf("active sessions %d, before %d", dGauge(), before)
	}
}
'''),
dict(id="start-shadowed-error", property="C09", pkg=S, needs="a mediasoup start request with an offer the media engine refuses or panics on",
 what="the error of the set-up is assigned to a shadowed variable, so a failed set-up is answered with ok",
 edits=[(S+"/server.go", '''				sdp, err = sess.StartRecording(e)
			}()''', '''				answer, err := sess.StartRecording(e)
				if err == nil {
					sdp = answer
				}
			}()''')],
 test=HEAD+'''
func TestSeedDemo(t *testing.T) {
	s, p := dServer(t)
	before := dGauge()
	s.HandlePubSub(context.Background(), []byte(`{"id":"startRecording","recordingSessionId":"a","fileName":"a.webm","adapter":"mediasoup","sdp":"e30="}`))
	if len(p.msgs) != 1 || p.msgs[0]["status"] != "failed" {
		t.Fatalf("published %v", p.msgs)
	}
	if dGauge() != before {
		t.Fatalf("active sessions %d, before %d", dGauge(), before)
	}
}
'''),
dict(id="duplicate-replaces", property="C09", pkg=S, needs="a start request for a session id in use, with an unknown recording format or an invalid request",
 what="the check for an id in use comes after the request is set up, so a failing duplicate removes the running session",
 edits=[(S+"/server.go", '''		_, ok := s.sessions.Load(e.SessionId)
		if ok {
			err''', '''		_, ok := s.sessions.Load(e.SessionId)
		if ok && e.Adapter != "livekit" {
			err''')],
 test=HEAD+'''
func TestSeedDemo(t *testing.T) {
	s, p := dServer(t)
	r := &dRec{}
	sess := NewSession("a", s, nil, nil, r)
	s.sessions.Store("a", sess)
	s.HandlePubSub(context.Background(), []byte(`{"id":"startRecording","recordingSessionId":"a","fileName":"a.webm","adapter":"livekit","adapterOptions":{"livekit":{"room":"r","trackIds":["t"]}}}`))
	if len(p.msgs) != 1 || p.msgs[0]["status"] != "failed" {
		t.Fatalf("published %v", p.msgs)
	}
	if x, ok := s.sessions.Load("a"); !ok || x.(*Session) != sess {
		t.Fatal("the running session is gone")
	}
}
'''),
dict(id="stop-closes-again", property="C10", pkg=S, needs="a session stopped twice (by request and by connection loss, in either order)",
 what="the recorder is asked for its position by closing it, before the check that the session was stopped already",
 edits=[(S+"/session.go", '''	if s.stopped {
		return 0, false
	}

	s.stopped = true
	prometheus.Sessions.Dec()
	return s.recorder.Close(), true''', '''	ts := s.recorder.Close()
	if s.stopped {
		return ts, false
	}

	s.stopped = true
	prometheus.Sessions.Dec()
	return ts, true''')],
 test=HEAD+'''
func TestSeedDemo(t *testing.T) {
	s, _ := dServer(t)
	r := &dRec{}
	sess := NewSession("a", s, nil, nil, r)
	sess.StopRecording()
	sess.StopRecording()
	if r.closes != 1 {
		t.Fatalf("closed %d times", r.closes)
	}
}
'''),
dict(id="stop-silent-second", property="C10", pkg=S, needs="a stop request for a registered session that was stopped before",
 what="a stop request for a session that is stopped already is not answered and leaves it registered",
 edits=[(S+"/server.go", '''			ts := sess.(*Session).StopRecording() / time.Millisecond
			s.PublishPubSub(e.Stopped("stopped", ts))
			s.CloseSession(e.SessionId)''', '''			if ts, first := sess.(*Session).stop(); first {
				s.PublishPubSub(e.Stopped("stopped", ts/time.Millisecond))
				s.CloseSession(e.SessionId)
			}''')],
 test=HEAD+'''
func TestSeedDemo(t *testing.T) {
	s, p := dServer(t)
	sess := NewSession("a", s, nil, nil, &dRec{})
	s.sessions.Store("a", sess)
	sess.StopRecording()
	s.HandlePubSub(context.Background(), []byte(`{"id":"stopRecording","recordingSessionId":"a"}`))
	if _, ok := s.sessions.Load("a"); ok || len(p.msgs) != 1 {
		t.Fatalf("published %v, still registered %v", p.msgs, ok)
	}
}
'''),
dict(id="stop-unlocked", property="C10", pkg=S, needs="a stop request and a connection loss of one session at the same time",
 what="the stopped flag is read before the lock is taken, so two stops at the same time both close the recorder",
 edits=[(S+"/session.go", '''	s.m.Lock()
	defer s.m.Unlock()

	if s.stopped {
		return 0, false
	}

	s.stopped = true
	prometheus.Sessions.Dec()
	return s.recorder.Close(), true''', '''	if s.stopped {
		return 0, false
	}

	ts := s.recorder.Close()

	s.m.Lock()
	defer s.m.Unlock()

	s.stopped = true
	prometheus.Sessions.Dec()
	return ts, true''')],
 test=HEAD+'''
type slowRec struct {
	dRec
	m sync.Mutex
}

func (r *slowRec) Close() time.Duration {
	r.m.Lock()
	r.closes++
	r.m.Unlock()
	time.Sleep(50 * time.Millisecond)
	return 0
}

func TestSeedDemo(t *testing.T) {
	s, _ := dServer(t)
	r := &slowRec{}
	sess := NewSession("a", s, nil, nil, r)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); sess.StopRecording() }()
	}
	wg.Wait()
	if r.closes != 1 {
		t.Fatalf("closed %d times", r.closes)
	}
}
'''),
]
LK = open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "..", "replay/lib/livekit_verif_test.go")).read()
LK = LK[:LK.index("func TestVerifReplayC18")] + '''
func demoRun(t *testing.T, parts [][]vPubl, req []string) (map[string]int, *vRec, error) {
	log.SetOutput(io.Discard)
	sig, err := vDial()
	if err != nil {
		t.Fatal(err)
	}
	defer sig.stop()
	w := NewLiveKitWebRTC(context.WithValue(context.Background(), "session", "s"), config.LiveKit{}, "room", req)
	rec := &vRec{}
	w.handler = rec
	w.room = vRoom(parts, sig.conn)
	_, err = w.subscribeToTracks()
	asked, bad := sig.requests()
	if bad != "" {
		t.Fatal(bad)
	}
	return asked, rec, err
}
'''
SEEDS += [
dict(id="livekit-prefix", property="C18", pkg=L, needs="a published track whose id is a prefix of a requested one",
 what="tracks are matched by substring, so a track that was not requested is subscribed",
 edits=[(L+"/livekit.go", "			if slices.Contains(w.trackIds, trackPublication.SID()) {", "			if slices.Contains(w.trackIds, trackPublication.SID()) || strings.Contains(strings.Join(w.trackIds, \",\"), trackPublication.SID()+\",\") {")],
 test=LK+'''
func TestSeedDemo(t *testing.T) {
	asked, _, err := demoRun(t, [][]vPubl{{{sid: "R_1", kind: "audio"}, {sid: "TR_1", kind: "video"}}}, []string{"TR_1", "x"})
	if err != nil || asked["TR_1"] != 1 || len(asked) != 1 {
		t.Fatalf("asked %v, %v", asked, err)
	}
}
'''),
dict(id="livekit-second-fails", property="C18", pkg=L, needs="several requested tracks where an earlier subscription fails and a later one succeeds",
 what="a failed subscription is forgotten when a later one succeeds",
 edits=[(L+"/livekit.go", '''						Errorf("Failed to subscribe to track %s: %v", trackPublication.SID(), err)
					return nil, err
				}
''', '''						Errorf("Failed to subscribe to track %s: %v", trackPublication.SID(), err)
					if len(w.trackIds) == 1 {
						return nil, err
					}
					continue
				}
''')],
 test=LK+'''
func TestSeedDemo(t *testing.T) {
	_, _, err := demoRun(t, [][]vPubl{{{sid: "TR_1", kind: "audio", dead: true}, {sid: "TR_2", kind: "video"}}}, []string{"TR_1", "TR_2"})
	if err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id="livekit-late-kind", property="C18", pkg=L, needs="a requested video track that is already subscribed",
 what="the recorder is told about a track only when it had to be subscribed, so it ignores the media of one that already was",
 edits=[(L+"/livekit.go", '''				kind := TrackKind(trackPublication.Kind())

				if kind == TrackKindVideo {''', '''				kind := TrackKind(trackPublication.Kind())

				if trackPublication.IsSubscribed() && w.handler.GetFilePath() != "" {
					subscribedTracks = append(subscribedTracks, trackPublication)
					continue
				}

				if kind == TrackKindVideo {''')],
 test=LK+'''
func TestSeedDemo(t *testing.T) {
	_, rec, err := demoRun(t, [][]vPubl{{{sid: "TR_1", kind: "video", subscribed: true}}}, []string{"TR_1"})
	if err != nil || !rec.video {
		t.Fatalf("video %v, %v", rec.video, err)
	}
}
'''),
]
