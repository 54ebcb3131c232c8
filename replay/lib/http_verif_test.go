package server

// Random search for a concrete failing input, on the real web server of the test page. Bounded: it
// decides nothing by itself.

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	log "github.com/sirupsen/logrus"
)

type vBus struct {
	sync.Mutex
	heard string
	h     pubsub.PubSubHandler
	chans []string
	asked []map[string]interface{}
}

func (b *vBus) Subscribe(channel string, handler pubsub.PubSubHandler, onStart func() error) {
	b.Lock()
	defer b.Unlock()
	b.heard, b.h = channel, handler
}
func (b *vBus) Publish(channel string, message []byte) {
	b.Lock()
	defer b.Unlock()
	m := map[string]interface{}{}
	json.Unmarshal(message, &m)
	b.chans, b.asked = append(b.chans, channel), append(b.asked, m)
}

// vTell hands a message to the server, as the subscription would; bad: it crashed or never came back.
func vTell(b *vBus, msg string) (bad string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				done <- fmt.Sprintf("panic: %v", x)
			}
		}()
		b.h(context.Background(), []byte(msg))
		done <- ""
	}()
	select {
	case bad = <-done:
	case <-time.After(2 * time.Second):
		bad = "the subscription is blocked"
	}
	if bad != "" {
		bad = fmt.Sprintf("response %q: %s", msg, bad)
	}
	return
}

func vDig(m map[string]interface{}, path ...string) interface{} {
	var v interface{} = m
	for _, k := range path {
		x, ok := v.(map[string]interface{})
		if !ok {
			return nil
		}
		v = x[k]
	}
	return v
}

func TestVerifReplayC22(t *testing.T) {
	log.SetOutput(io.Discard)
	fmt.Println("REPLAY-START")
	fail := func(f string, a ...interface{}) {
		fmt.Printf("REPLAY-FAIL %s\n", fmt.Sprintf(f, a...))
		t.FailNow()
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	bus := &vBus{}
	cfg := &config.Config{}
	cfg.HTTP.Port = port
	cfg.Recorder.Directory = t.TempDir()
	cfg.PubSub.Channels.Publish, cfg.PubSub.Channels.Subscribe = "from", "to"
	NewHTTPServer(cfg, bus).Serve()
	url := fmt.Sprintf("http://127.0.0.1:%d/sdp", port)
	up := false
	for i := 0; i < 200 && !up; i++ {
		time.Sleep(10 * time.Millisecond)
		bus.Lock()
		up = bus.h != nil
		bus.Unlock()
		if c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
			c.Close()
		} else {
			up = false
		}
	}
	if !up {
		t.Skip("the server does not come up")
	}
	if bus.heard != "from" {
		fail("responses are awaited on channel %q", bus.heard)
	}
	client := &http.Client{Timeout: 5 * time.Second}
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 5
	}
	sd, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	until := time.Now().Add(time.Duration(b) * time.Second / 2)
	n, reqs, seen := 0, 0, map[string]bool{}
	for seed := sd * 1000003; time.Now().Before(until); seed++ {
		n++
		r := rand.New(rand.NewSource(seed))
		bus.Lock()
		bus.chans, bus.asked = nil, nil
		bus.Unlock()
		k := 1 + r.Intn(12)
		got, code := make([]string, k), make([]int, k)
		var wg sync.WaitGroup
		for i := 0; i < k; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				resp, err := client.Post(url, "text/plain", strings.NewReader(fmt.Sprintf("offer %d/%d", n, i)))
				if err != nil {
					got[i] = "no answer: " + err.Error()
					return
				}
				defer resp.Body.Close()
				y, _ := io.ReadAll(resp.Body)
				got[i], code[i] = string(y), resp.StatusCode
			}(i)
		}
		in := fmt.Sprintf("seed %d, %d simultaneous requests", seed, k)
		var asked []map[string]interface{}
		for i := 0; i < 300; i++ {
			bus.Lock()
			asked = append(asked[:0], bus.asked...)
			bus.Unlock()
			if len(asked) == k {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		if len(asked) != k {
			fail("%s: %d recordings were asked for", in, len(asked))
		}
		for i, c := range bus.chans {
			if c != "to" {
				fail("%s: request %v on channel %q", in, asked[i], c)
			}
		}
		want := map[string]string{}
		var msgs []string
		r.Shuffle(k, func(i, j int) { asked[i], asked[j] = asked[j], asked[i] })
		for i, a := range asked {
			id, _ := a["recordingSessionId"].(string)
			offer, _ := vDig(a, "adapterOptions", "mediasoup", "sdp").(string)
			if a["id"] != "startRecording" || a["adapter"] != "mediasoup" || id == "" {
				fail("%s: it asks for %v", in, a)
			}
			if seen[id] {
				fail("%s: two requests ask for a recording with the same session id %q", in, id)
			}
			seen[id] = true
			if _, twice := want[offer]; twice {
				fail("%s: two recordings are asked for the offer %q", in, offer)
			}
			want[offer] = fmt.Sprintf("answer %%d %s\r\n<%d>", offer, i)
			for r.Intn(3) == 0 {
				msgs = append(msgs, []string{
					`{"id":"startRecordingResponse","recordingSessionId":"nobody","status":"ok","sdp":"x","fileName":"f"}`,
					`{"id":"startRecordingResponse","recordingSessionId":"","status":"ok","sdp":"x"}`,
					fmt.Sprintf(`{"id":"startRecordingResponse","recordingSessionId":%q,"status":"failed","error":"e"}`, id),
					fmt.Sprintf(`{"id":"recordingRtpStatusChanged","recordingSessionId":%q,"status":"flowing","sdp":"y"}`, id),
					fmt.Sprintf(`{"id":"recordingStopped","recordingSessionId":%q,"reason":"r","sdp":"y"}`, id),
					fmt.Sprintf(`{"id":"startRecordingResponse","recordingSessionId":%q,"sdp":7}`, id),
					fmt.Sprintf(`{"id":"startRecordingResponse","recordingSessionId":%q,"sdp":null}`, id),
					`{"id":"startRecordingResponse"`, ``, `null`, `[]`, `7`, `{"id":7}`, `{}`, `{"id":"startRecordingResponse","sdp":"z"}`,
				}[r.Intn(15)])
			}
			y, _ := json.Marshal(map[string]string{"id": "startRecordingResponse", "recordingSessionId": id, "status": "ok", "sdp": want[offer], "fileName": "f"})
			msgs = append(msgs, string(y))
			if r.Intn(3) == 0 {
				y, _ := json.Marshal(map[string]string{"id": "startRecordingResponse", "recordingSessionId": id, "status": "ok", "sdp": "late", "fileName": "f"})
				msgs = append(msgs, string(y))
			}
		}
		for _, m := range msgs {
			if bad := vTell(bus, m); bad != "" {
				fail("%s: %s", in, bad)
			}
		}
		wg.Wait()
		for i := 0; i < k; i++ {
			offer := fmt.Sprintf("offer %d/%d", n, i)
			if w, ok := want[offer]; !ok || got[i] != w || code[i] != 200 {
				fail("%s: the request with %q got %d %q, want %q", in, offer, code[i], got[i], w)
			}
		}
		// not an offer: refused, and nothing is asked for
		for _, q := range []struct{ m, b string }{{"GET", "offer"}, {"POST", ""}, {"PUT", "offer"}} {
			req, _ := http.NewRequest(q.m, url, strings.NewReader(q.b))
			resp, err := client.Do(req)
			if err != nil {
				fail("%s: %s %q: %v", in, q.m, q.b, err)
			}
			resp.Body.Close()
			bus.Lock()
			c := len(bus.asked)
			bus.Unlock()
			if c != k {
				fail("%s: %s %q: a recording was asked for", in, q.m, q.b)
			}
		}
		reqs += k
	}
	fmt.Printf("REPLAY-STATS {\"rounds\": %d, \"requests\": %d}\n", n, reqs)
}
