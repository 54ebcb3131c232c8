// The browser test page (C22)

// the last id made up; the last channel made, values sent into channels, the last value received
// and the channel it came from
ghost uuid string
ghost made ref
ghost sends int
ghost got string
ghost gotFrom ref
uf room(ref) int
extern uuid.NewString() (r)
  modifies uuid
  sets uuid = r
extern chan.string.make(n, c)
  modifies made
  sets made = ref(c)
  ensures room(ref(c)) == n
extern chan.string.send(c, v)
  modifies sends
  sets sends = old(sends) + 1
extern chan.string.recv(c) (v)
  modifies got, gotFrom
  sets got = v
  sets gotFrom = ref(c)

// what the table of waiting requests had when the lock was taken: for the session sid, for any other
ghost waited bool
ghost waitedOn ref
ghost waited2 bool
ghost waitedOn2 ref

// d is a response with an SDP answer
pure answer(d) = msgResponse(d) && jsonobj(d, "sdp")

func server.HTTPServer.Serve(s)
  props C22
  requires s != nil && s.cfg != nil && s.pubsub != nil
  modifies *
  oncall pubsub.PubSub.Subscribe(p, ch, h, started) responses: p == s.pubsub && ch == s.cfg.PubSub.Channels.Publish && h != nil && started != nil
  oncall server.HTTPServer.serve(t, h) requests: t == s && h != nil

func server.HTTPServer.Serve$1(ctx, msg)
  props C22
  anchor calls events.Decode
  local m sync.Mutex
  local waiting map[string]chan(string)
  logic sid string
  logic other string
  requires waiting != nil && !held(m)
  requires {assumed} sends == 0 && sid == jsonstr(array(msg), "recordingSessionId")
  modifies *
  monitor m guards waiting
  monitor m changes map(waiting)
  monitor m inv room: forall k string :: has(waiting, k) ==> waiting[k] != nil && room(ref(waiting[k])) >= 1
  monitor m inv apart: forall k string, l string :: has(waiting, k) && has(waiting, l) && k != l ==> waiting[k] != waiting[l]
  monitor m sets waited = has(waiting, sid)
  monitor m sets waitedOn = ref(waiting[sid])
  monitor m sets waited2 = has(waiting, other)
  monitor m sets waitedOn2 = ref(waiting[other])
  oncall sync.Mutex.Unlock(l) others-wait-on: other != sid || !answer(array(msg)) ==> (has(waiting, other) <==> waited2) && (waited2 ==> ref(waiting[other]) == waitedOn2)
  oncall chan.string.send(c, v) the-answer: answer(array(msg)) && v == jsonstr(array(msg), "sdp")
  oncall chan.string.send(c, v) own-request: waited && ref(c) == waitedOn
  oncall chan.string.send(c, v) no-wait: !held(m) && sends == 0 && c != nil && room(ref(c)) >= 1 && !has(waiting, sid)
  ensures delivered: answer(array(msg)) && waited ==> sends == 1
  ensures ignored: !answer(array(msg)) ==> sends == 0
  ensures free: !held(m)

func server.HTTPServer.Serve$3(sdp) (r)
  props C22
  anchor passed server.HTTPServer.serve
  local m sync.Mutex
  local waiting map[string]chan(string)
  logic other string
  requires s != nil && s.cfg != nil && s.pubsub != nil && waiting != nil && !held(m)
  modifies *
  monitor m guards waiting
  monitor m changes map(waiting)
  monitor m inv room: forall k string :: has(waiting, k) ==> waiting[k] != nil && room(ref(waiting[k])) >= 1
  monitor m inv apart: forall k string, l string :: has(waiting, k) && has(waiting, l) && k != l ==> waiting[k] != waiting[l]
  monitor m given not-yet-shared: forall k string :: has(waiting, k) && k != uuid ==> ref(waiting[k]) != made
  monitor m sets waited2 = has(waiting, other)
  monitor m sets waitedOn2 = ref(waiting[other])
  oncall sync.Mutex.Unlock(l) others-wait-on: other != uuid && waited2 ==> has(waiting, other) && ref(waiting[other]) == waitedOn2
  oncall pubsub.PubSub.Publish(p, ch, msg) asks: p == s.pubsub && ch == s.cfg.PubSub.Channels.Subscribe
     && jsonout(array(msg), "id") == "startRecording" && jsonout(array(msg), "recordingSessionId") == uuid && jsonout(array(msg), "adapter") == "mediasoup" && jsonout(array(msg), "adapterOptions.mediasoup.sdp") == sdp
  oncall pubsub.PubSub.Publish(p, ch, msg) waits-already: !held(m) && has(waiting, uuid) && ref(waiting[uuid]) == made && fresh(waiting[uuid])
  oncall chan.string.recv(c) asked: !held(m) && published == old(published) + 1
  ensures own-answer: r == got && gotFrom == made

// a request's body, what the handler made of it, and what was answered
ghost body string
ghost offers int
ghost reply string
ghost answered int
ghost answerText string
extern io.ReadAll(r) (b, err)
  modifies body
  sets body = string(b)
  ensures fresh(b)
var server.handler(f, offer) (r)
  modifies offers, reply
  sets offers = old(offers) + 1
  sets reply = r
extern fmt.Fprint(w, a) (n, err)
  modifies answered, answerText
  sets answered = old(answered) + 1
  sets answerText = len(a) == 1 && istype(a[0], string) ? as(a[0], string) : "?"
extern fmt.Fprintf(w, format, a) (n, err)
  modifies answered, answerText
  sets answered = old(answered) + 1
  sets answerText = format == "%s" && len(a) == 1 && istype(a[0], string) ? as(a[0], string) : "?"
extern io.WriteString(w, s) (n, err)
  modifies answered, answerText
  sets answered = old(answered) + 1
  sets answerText = s

func server.HTTPServer.serve$1(w, r)
  props C22
  anchor calls io.ReadAll
  requires w != nil && r != nil && handler != nil
  requires {assumed} offers == 0 && answered == 0
  modifies body, offers, reply, answered, answerText
  oncall io.ReadAll(x) whole-body: ref(x) == ref(r.Body)
  oncall var handler(f, offer) the-offer: offer == body && offer != "" && r.Method == "POST"
  ensures answered: r.Method == "POST" && body != "" ==> offers == 1 && answered == 1 && answerText == reply
  ensures refused: !(r.Method == "POST" && body != "") ==> offers == 0
