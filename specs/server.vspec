// The control-message handler (C07, C09, C10).

// what is published: number of messages, the bytes of the last one, its channel
ghost published int
ghost pubref ref
ghost pubchan string
// the active-session gauge
ghost gauge int
// how often each recorder was closed
ghost closes [ref]int
// outcome of the media engine's set-up in the current request: 0 none yet, 1 succeeded, 2 failed
ghost setup int

uf recFile(ref) string

iface pubsub.PubSub.Publish(ps, channel, message)
  modifies published, pubref, pubchan
  sets published = old(published) + 1
  sets pubref = array(message)
  sets pubchan = channel

iface xprometheus.Gauge.Inc(g)
  modifies gauge
  sets gauge = old(gauge) + 1

iface xprometheus.Gauge.Dec(g)
  modifies gauge
  sets gauge = old(gauge) - 1

iface recorder.Recorder.Close(r) (ts)
  modifies closes[ref(r)]
  sets closes[ref(r)] = old(closes[ref(r)]) + 1

iface recorder.Recorder.GetFilePath(r) (p)
  modifies nothing
  ensures p == recFile(ref(r))

func livekit.NewLiveKitWebRTC(ctx, cfg, roomId, trackIds) (r)
  props C09 C18 C19
  modifies nothing
  ensures new: fresh(r) && r.ctx == ctx && !held(r.m)
  ensures {C19} flow: flowOK(r)

// encoding a session description (two strings) as JSON never fails
func signal.Encode(obj) (r)
  trusted
  modifies nothing

// ---- sessions

guard server.Session.m: stopped

pure sessOK(x) = x != nil && x.server != nil && x.recorder != nil && !held(x.m)
pure sess(s, k) = as(at(s.sessions, k), *server.Session)
pure tabInv(s) = forall k string :: has(s.sessions, k) ==> istype(at(s.sessions, k), *server.Session) && sess(s, k) != nil
   && sess(s, k).server == s && sess(s, k).recorder != nil && !held(sess(s, k).m) && sess(s, k).id == k
pure srvOK(s) = s != nil && s.cfg != nil && s.pubsub != nil && prometheus.Sessions != nil
pure sameTab(s) = forall k string :: (has(s.sessions, k) <==> old(has(s.sessions, k))) && (has(s.sessions, k) ==> at(s.sessions, k) == old(at(s.sessions, k)))
pure sameCloses() = forall r ref :: closes[r] == old(closes[r])
pure sameTabBut(s, id) = forall k string :: k != id ==> (has(s.sessions, k) <==> old(has(s.sessions, k))) && (has(s.sessions, k) ==> at(s.sessions, k) == old(at(s.sessions, k)))
// exactly one message was published, on the configured channel, with this id for this session
pure one(s, id, sid) = published == old(published) + 1 && pubchan == s.cfg.PubSub.Channels.Publish
   && jsonout(pubref, "id") == id && jsonout(pubref, "recordingSessionId") == sid

func server.NewServer(cfg, ps) (r)
  props C07 C09 C10
  modifies nothing
  ensures empty: fresh(r) && r.cfg == cfg && r.pubsub == ps && (forall k string :: !has(r.sessions, k))

func server.NewSession(id, s, wrtc, lk, rec) (r)
  props C09 C10
  modifies nothing
  ensures new: fresh(r) && r.id == id && r.server == s && r.webrtc == wrtc && r.livekit == lk && r.recorder == rec
  ensures running: !r.stopped && !held(r.m)

func server.Server.PublishPubSub(s, msg)
  inline

func server.Server.CloseSession(s, id)
  props C09 C10
  requires s != nil
  modifies s.sessions
  ensures removed: !has(s.sessions, id)
  ensures others: sameTabBut(s, id)

func server.Session.StartRecording(s, e) (sdp, err)
  props C09 C10 C20
  requires s != nil && e != nil && s.server != nil && s.recorder != nil && prometheus.Sessions != nil
  requires s.webrtc != nil || s.livekit != nil
  requires (s.webrtc != nil ==> s.webrtc.ctx != nil) && (s.livekit != nil ==> s.livekit.ctx != nil && !held(s.livekit.m))
  modifies gauge, setup, s.webrtc.*, s.livekit.*, asked, subFailed, recAudio, recVideo, peerFailed
  panics counted: gauge == old(gauge) + 1
  panics no-answer: setup == old(setup)
  panics mediasoup-only: s.webrtc != nil
  oncall webrtc.WebRTC.Init(x, r) {C20 optional} callbacks-set: x == s.webrtc && x.connStateCallbackFn != nil && x.flowCallback != nil && r == s.recorder
  oncall livekit.LiveKitWebRTC.Init(x, r) {C20 optional} callbacks-set-livekit: x == s.livekit && x.flowCallback != nil && r == s.recorder
  ensures counted: gauge == old(gauge) + 1
  ensures truthful: err == nil <==> setup == 1

func server.Session.stop(s) (ts, first)
  props C09 C10
  requires s != nil && s.recorder != nil && !held(s.m) && prometheus.Sessions != nil
  modifies s.stopped, s.m, gauge, closes[ref(s.recorder)]
  ensures unlocked: !held(s.m)
  ensures stopped: s.stopped
  ensures once: first <==> !old(s.stopped)
  ensures closed: closes[ref(s.recorder)] == old(closes[ref(s.recorder)]) + (first ? 1 : 0)
  ensures counted: gauge == old(gauge) - (first ? 1 : 0)

func server.Session.StopRecording(s) (ts)
  props C09 C10
  requires s != nil && s.recorder != nil && !held(s.m) && prometheus.Sessions != nil
  modifies s.stopped, s.m, gauge, closes[ref(s.recorder)]
  ensures unlocked: !held(s.m)
  ensures stopped: s.stopped
  ensures closed: closes[ref(s.recorder)] == old(closes[ref(s.recorder)]) + (old(s.stopped) ? 0 : 1)
  ensures counted: gauge == old(gauge) - (old(s.stopped) ? 0 : 1)

// the message handler
pure mSid(msg) = jsonstr(array(msg), "recordingSessionId")
pure startOK(d) = jsonstr(d, "adapter") == "livekit" && jsonobj(d, "adapterOptions") && jsonobj(d, "adapterOptions.livekit") && jsonstr(d, "adapterOptions.livekit.room") != "" && jsonlen(d, "adapterOptions.livekit.trackIds") > 0
  || jsonstr(d, "adapter") == "mediasoup" && (jsonstr(d, "sdp") != "" || jsonobj(d, "adapterOptions") && jsonobj(d, "adapterOptions.mediasoup") && jsonstr(d, "adapterOptions.mediasoup.sdp") != "")
  || jsonstr(d, "adapter") == "" && jsonstr(d, "sdp") != ""

func server.Server.HandlePubSub(s, ctx, msg)
  props C07 C09 C10
  requires srvOK(s) && ctx != nil && tabInv(s) && setup == 0
  modifies s.sessions, published, pubref, pubchan, gauge, closes, setup, absent, made, asked, subFailed, recAudio, recVideo, peerFailed, sess(s, mSid(msg)).stopped, sess(s, mSid(msg)).m
  inst mSid(msg)
  ensures table: tabInv(s)
  ensures {C07} ignored: !msgStart(array(msg)) && !msgStatus(array(msg)) && !(msgStop(array(msg)) && old(has(s.sessions, mSid(msg)))) ==> published == old(published) && gauge == old(gauge) && sameTab(s) && sameCloses()
  ensures {C07} status: msgStatus(array(msg)) ==> published == old(published) + 1 && pubchan == s.cfg.PubSub.Channels.Publish && jsonout(pubref, "id") == "recorderStatus" && gauge == old(gauge) && sameTab(s)
  ensures {C09} answered: msgStart(array(msg)) ==> one(s, "startRecordingResponse", mSid(msg))
  ensures {C09} truthful: msgStart(array(msg)) ==> (jsonout(pubref, "status") == "ok" <==> setup == 1)
  ensures {C09} or-failed: msgStart(array(msg)) && setup != 1 ==> jsonout(pubref, "status") == "failed"
  ensures {C09} registered: msgStart(array(msg)) && setup == 1 ==> has(s.sessions, mSid(msg)) && !old(has(s.sessions, mSid(msg))) && !sess(s, mSid(msg)).stopped && gauge == old(gauge) + 1
  ensures {C09} file: msgStart(array(msg)) && setup == 1 ==> jsonout(pubref, "fileName") == recFile(ref(sess(s, mSid(msg)).recorder))
  ensures {C09} others-kept: msgStart(array(msg)) ==> sameTabBut(s, mSid(msg))
  ensures {C09} failed-no-trace: msgStart(array(msg)) && setup != 1 ==> sameTab(s) && gauge == old(gauge)
  ensures {C09} in-use: msgStart(array(msg)) && old(has(s.sessions, mSid(msg))) ==> setup == 0 && sess(s, mSid(msg)).stopped == old(sess(s, mSid(msg)).stopped) && sameCloses()
  ensures {C09} invalid: msgStart(array(msg)) && !startOK(array(msg)) ==> setup == 0
  ensures {C10} stopped: msgStop(array(msg)) && old(has(s.sessions, mSid(msg))) ==> one(s, "recordingStopped", mSid(msg)) && !has(s.sessions, mSid(msg)) && sameTabBut(s, mSid(msg))
  ensures {C10} closed-once: msgStop(array(msg)) && old(has(s.sessions, mSid(msg))) ==> old(sess(s, mSid(msg))).stopped && gauge == old(gauge) - (old(sess(s, mSid(msg)).stopped) ? 0 : 1)
     && closes[ref(old(sess(s, mSid(msg))).recorder)] == old(closes[ref(sess(s, mSid(msg)).recorder)]) + (old(sess(s, mSid(msg)).stopped) ? 0 : 1)
  ensures {C10} unknown: msgStop(array(msg)) && !old(has(s.sessions, mSid(msg))) ==> published == old(published) && gauge == old(gauge) && sameTab(s) && sameCloses()
  cover ok: msgStart(array(msg)) && setup == 1
  cover failed: msgStart(array(msg)) && setup == 2
  cover stop: msgStop(array(msg)) && old(has(s.sessions, mSid(msg)))

// what a session's callbacks do when the media engine calls them

func server.Session.StartRecording$1(state)
  props C10
  anchor passed webrtc.WebRTC.SetConnectionStateCallback
  requires s != nil && sessOK(s) && srvOK(s.server)
  modifies s.stopped, s.m, gauge, closes[ref(s.recorder)], published, pubref, pubchan, s.server.sessions
  ensures lost: state >= 5 && !old(s.stopped) ==> one(s.server, "recordingStopped", s.id) && s.stopped && gauge == old(gauge) - 1
      && closes[ref(s.recorder)] == old(closes[ref(s.recorder)]) + 1 && !has(s.server.sessions, s.id)
  ensures not-lost: state <= 3 || old(s.stopped) ==> published == old(published) && gauge == old(gauge) && s.stopped == old(s.stopped)
      && closes[ref(s.recorder)] == old(closes[ref(s.recorder)]) && sameTab(s.server)
  ensures others: sameTabBut(s.server, s.id)

pure flowMsg(s, isFlowing, closed) = closed ? one(s.server, "recordingStopped", s.id) && !has(s.server.sessions, s.id) && sameTabBut(s.server, s.id)
   : one(s.server, "recordingRtpStatusChanged", s.id) && sameTab(s.server)

func server.Session.StartRecording$2(isFlowing, timestamp, closed)
  props C10 C19
  anchor passed webrtc.WebRTC.SetFlowCallback
  requires s != nil && sessOK(s) && srvOK(s.server)
  modifies published, pubref, pubchan, s.server.sessions
  ensures told: flowMsg(s, isFlowing, closed)

func server.Session.StartRecording$3(isFlowing, timestamp, closed)
  props C10 C19
  anchor passed livekit.LiveKitWebRTC.SetFlowCallback
  requires s != nil && sessOK(s) && srvOK(s.server)
  modifies published, pubref, pubchan, s.server.sessions
  ensures told: flowMsg(s, isFlowing, closed)
