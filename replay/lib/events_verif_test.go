package events

// Random search for a concrete failing input, run on the real code against the properties'
// statements. Bounded: it decides nothing by itself.

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	log "github.com/sirupsen/logrus"
)

func vRun(t *testing.T, f func(r *rand.Rand) (input, bad string)) {
	log.SetOutput(io.Discard)
	fmt.Println("REPLAY-START")
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 5
	}
	sd, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	until := time.Now().Add(time.Duration(b) * time.Second / 2)
	n := 0
	for seed := sd * 1000003; time.Now().Before(until) && n < 100000; seed++ {
		n++
		var in, bad string
		for try := 0; try < 3 && (try == 0 || bad != ""); try++ { // only what fails again is reported
			func() {
				defer func() {
					if x := recover(); x != nil {
						bad = fmt.Sprintf("panic: %v", x)
					}
				}()
				in, bad = f(rand.New(rand.NewSource(seed)))
			}()
		}
		if bad != "" {
			fmt.Printf("REPLAY-FAIL case seed %d: %s: %s\n", seed, in, bad)
			t.FailNow()
		}
	}
	fmt.Printf("REPLAY-STATS {\"cases\": %d}\n", n)
}

func vStr(r *rand.Rand) string {
	return []string{"", "x", "ok", "failed", "mediasoup", "livekit", "other", "startRecording", "v=0"}[r.Intn(9)]
}

// vMessage writes a message and what it is.
func vMessage(r *rand.Rand) (string, map[string]interface{}) {
	if r.Intn(8) == 0 {
		return []string{"", "null", "[]", "{", "{}", "1", "\"id\"", "{\"id\":1}", "{\"id\":null}", "{\"ID\":\"stopRecording\"}"}[r.Intn(10)], nil
	}
	m := map[string]interface{}{}
	ids := []string{StartRecordingKey, StartRecordingResponseKey, RecordingRtpStatusChangedKey, StopRecordingKey, RecorderStatusKey, GetRecorderStatusKey, RecordingStoppedKey, "", "zzz"}
	m["id"] = ids[r.Intn(len(ids))]
	val := func() interface{} {
		if r.Intn(14) == 0 {
			return []interface{}{1.5, true, nil, map[string]interface{}{}, []interface{}{}}[r.Intn(5)]
		}
		return vStr(r)
	}
	for _, k := range []string{"recordingSessionId", "fileName", "adapter", "sdp", "status", "error"} {
		if r.Intn(2) == 0 {
			m[k] = val()
		}
	}
	if r.Intn(2) == 0 {
		o := map[string]interface{}{}
		if r.Intn(2) == 0 {
			o["mediasoup"] = map[string]interface{}{"sdp": val()}
		}
		if r.Intn(2) == 0 {
			o["livekit"] = map[string]interface{}{"room": val(), "trackIds": []interface{}{val()}}
		}
		m["adapterOptions"] = o
	}
	b, _ := json.Marshal(m)
	return string(b), m
}

func TestVerifReplayC07(t *testing.T) {
	vRun(t, func(r *rand.Rand) (string, string) {
		msg, m := vMessage(r)
		e := Decode([]byte(msg))
		if e == nil {
			// nothing: only when it cannot be read as its identifier's type
			if m == nil {
				return msg, ""
			}
			id := m["id"].(string)
			var err error
			b := []byte(msg)
			switch id {
			case StartRecordingKey:
				err = json.Unmarshal(b, &StartRecording{})
			case StopRecordingKey:
				err = json.Unmarshal(b, &StopRecording{})
			case StartRecordingResponseKey:
				err = json.Unmarshal(b, &StartRecordingResponse{})
			case GetRecorderStatusKey:
				err = json.Unmarshal(b, &GetRecorderStatus{})
			default:
				return msg, ""
			}
			if err == nil {
				return msg, "a readable message was ignored"
			}
			return msg, ""
		}
		e.IsValid()
		if m == nil {
			return msg, "an unreadable message gave an event"
		}
		if e.Id != m["id"] {
			return msg, fmt.Sprintf("identifier %q", e.Id)
		}
		get := func(k string) string { s, _ := m[k].(string); return s }
		switch e.Id {
		case StartRecordingKey:
			x := e.StartRecording()
			if x == nil {
				return msg, "no start request"
			}
			if x.SessionId != get("recordingSessionId") || x.FileName != get("fileName") || string(x.Adapter) != get("adapter") || x.SDP != get("sdp") {
				return msg, fmt.Sprintf("misread as %+v", *x)
			}
			o, _ := m["adapterOptions"].(map[string]interface{})
			if (o != nil) != (x.AdapterOptions != nil) {
				return msg, "adapter options misread"
			}
			if o != nil {
				lk, _ := o["livekit"].(map[string]interface{})
				ms, _ := o["mediasoup"].(map[string]interface{})
				if (lk != nil) != (x.AdapterOptions.LiveKit != nil) || (ms != nil) != (x.AdapterOptions.Mediasoup != nil) {
					return msg, "adapter options misread"
				}
				if lk != nil {
					rm, _ := lk["room"].(string)
					if x.AdapterOptions.LiveKit.Room != rm || len(x.AdapterOptions.LiveKit.TrackIDs) != 1 {
						return msg, "livekit options misread"
					}
				}
				if ms != nil {
					s, _ := ms["sdp"].(string)
					if x.AdapterOptions.Mediasoup.SDP != s {
						return msg, "mediasoup options misread"
					}
				}
			}
		case StopRecordingKey:
			if x := e.StopRecording(); x == nil || x.SessionId != get("recordingSessionId") {
				return msg, "stop request misread"
			}
		case GetRecorderStatusKey:
			if e.GetRecorderStatus() == nil {
				return msg, "status request misread"
			}
		case StartRecordingResponseKey:
			if x := e.StartRecordingResponse(); x == nil || x.SessionId != get("recordingSessionId") || x.Status != get("status") {
				return msg, "response misread"
			}
		}
		if (e.StartRecording() != nil) != (e.Id == StartRecordingKey) || (e.StopRecording() != nil) != (e.Id == StopRecordingKey) || (e.GetRecorderStatus() != nil) != (e.Id == GetRecorderStatusKey) || (e.StartRecordingResponse() != nil) != (e.Id == StartRecordingResponseKey) {
			return msg, "payload of another type than the identifier says"
		}
		return msg, ""
	})
}

func TestVerifReplayC08(t *testing.T) {
	vRun(t, func(r *rand.Rand) (string, string) {
		e := &StartRecording{Id: StartRecordingKey, SessionId: "s" + vStr(r), FileName: vStr(r), Adapter: AdapterType([]string{"", "mediasoup", "livekit", "other", "x"}[r.Intn(5)]), SDP: []string{"", "legacy"}[r.Intn(2)]}
		opt := ""
		if r.Intn(3) > 0 {
			e.AdapterOptions = &AdapterOptions{}
			if r.Intn(3) > 0 {
				opt = []string{"", "offer"}[r.Intn(2)]
				e.AdapterOptions.Mediasoup = &MediasoupConfig{SDP: opt}
			}
			if r.Intn(3) > 0 {
				e.AdapterOptions.LiveKit = &LiveKitConfig{Room: []string{"", "room"}[r.Intn(2)]}
				for n := r.Intn(3); n > 0; n-- {
					e.AdapterOptions.LiveKit.TrackIDs = append(e.AdapterOptions.LiveKit.TrackIDs, vStr(r))
				}
			}
		}
		b, _ := json.Marshal(e)
		in := string(b)
		offer := e.SDP
		if opt != "" {
			offer = opt
		}
		if e.GetSDP() != offer {
			return in, fmt.Sprintf("offer %q", e.GetSDP())
		}
		want := false
		switch e.Adapter {
		case "livekit":
			want = e.AdapterOptions != nil && e.AdapterOptions.LiveKit != nil && e.AdapterOptions.LiveKit.Room != "" && len(e.AdapterOptions.LiveKit.TrackIDs) > 0
		case "mediasoup":
			want = offer != ""
		default:
			want = e.SDP != ""
		}
		if (e.Validate() == nil) != want {
			return in, fmt.Sprintf("validation says %v", e.Validate())
		}
		f := e.Fail(errors.New("why"))
		if f.Id != StartRecordingResponseKey || f.SessionId != e.SessionId || f.Status != "failed" || f.Error == nil || *f.Error != "why" || f.SDP != nil || f.Validate() != nil {
			return in, fmt.Sprintf("failure response %+v", *f)
		}
		s := e.Success("answer", "file")
		if s.Id != StartRecordingResponseKey || s.SessionId != e.SessionId || s.Status != "ok" || s.Error != nil || s.SDP == nil || *s.SDP != "answer" || s.FileName == nil || *s.FileName != "file" || s.Validate() != nil {
			return in, fmt.Sprintf("success response %+v", *s)
		}
		p := func(s string) *string {
			if r.Intn(2) == 0 {
				return nil
			}
			return &s
		}
		q := &StartRecordingResponse{Id: []string{StartRecordingResponseKey, "x"}[r.Intn(2)], SessionId: vStr(r), Status: []string{"ok", "failed", ""}[r.Intn(3)], Error: p("e"), SDP: p("s"), FileName: p("f")}
		ok := q.Id == StartRecordingResponseKey && q.SessionId != "" && (q.Status == "ok" && q.Error == nil && q.FileName != nil || q.Status == "failed" && q.Error != nil && q.SDP == nil)
		if (q.Validate() == nil) != ok {
			b, _ := json.Marshal(q)
			return string(b), fmt.Sprintf("validation says %v", q.Validate())
		}
		return in, ""
	})
}
