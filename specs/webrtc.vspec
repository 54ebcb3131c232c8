// The mediasoup adapter (C20).

guard webrtc.WebRTC.m: videoTrackSSRCs, pliStats
guardinv webrtc.WebRTC.m(w) track-table: w.pliStats != nil

func webrtc.NewWebRTC(ctx, cfg) (r)
  props C09 C20
  modifies nothing
  ensures new: fresh(r) && r.ctx == ctx && !held(r.m)
  ensures {C20} unset: r.connStateCallbackFn == nil && r.flowCallback == nil && r.sdpOffer == zero(xwebrtc.SessionDescription)
  ensures {C20} table: r.pliStats != nil && fresh(r.pliStats) && len(r.videoTrackSSRCs) == 0

func webrtc.WebRTC.SetConnectionStateCallback(w, fn)
  props C20
  requires w != nil
  modifies w.connStateCallbackFn
  ensures set: w.connStateCallbackFn == fn

func webrtc.WebRTC.SetFlowCallback(w, fn)
  props C20
  requires w != nil
  modifies w.flowCallback
  ensures set: w.flowCallback == fn

func webrtc.WebRTC.SetSDPOffer(w, offer)
  props C20
  requires w != nil
  modifies w.sdpOffer
  ensures set: w.sdpOffer == offer

pure webReady(w) = w.connStateCallbackFn != nil && w.flowCallback != nil && w.sdpOffer != zero(xwebrtc.SessionDescription)

func webrtc.WebRTC.validateInitParams(w) (err)
  props C20
  requires w != nil
  modifies nothing
  ensures exact: err == nil <==> webReady(w)

// ---- keyframe requests

// RTCP packets sent; the video source each picture loss indication was for
ghost rtcps int
ghost pliTo [int]uint32
extern xwebrtc.PeerConnection.WriteRTCP(pc, ps) (err)
  modifies rtcps
  sets rtcps = old(rtcps) + 1

pure isPLI(ps, ssrc) = len(ps) == 1 && istype(ps[0], *rtcp.PictureLossIndication) && as(ps[0], *rtcp.PictureLossIndication) != nil && as(ps[0], *rtcp.PictureLossIndication).MediaSSRC == ssrc

func webrtc.WebRTC.requestKeyframeForSSRC(w, ssrc)
  props C20
  optional
  logic s uint32
  requires w != nil && w.pc != nil && w.ctx != nil && held(w.m) && w.pliStats != nil
  modifies map(w.pliStats), rtcps, pliTo[rtcps]
  sets pliTo[rtcps] = ssrc
  oncall xwebrtc.PeerConnection.WriteRTCP(pc, ps) indication: pc == w.pc && isPLI(ps, ssrc)
  ensures lock: held(w.m)
  ensures one: rtcps == old(rtcps) + 1
  ensures counted: has(w.pliStats, ssrc) && w.pliStats[ssrc].count == old(has(w.pliStats, ssrc) ? w.pliStats[ssrc].count : 0) + 1
  ensures others: s != ssrc ==> (has(w.pliStats, s) <==> old(has(w.pliStats, s))) && w.pliStats[s] == old(w.pliStats[s])

func webrtc.WebRTC.RequestKeyframeForSSRC(w, ssrc)
  props C20
  logic s uint32
  requires w != nil && w.pc != nil && w.ctx != nil && !held(w.m)
  modifies w.m, map(w.pliStats), rtcps, pliTo[rtcps]
  sets pliTo[rtcps] = ssrc
  ensures lock: !held(w.m)
  ensures one: rtcps == old(rtcps) + 1
  ensures counted: has(w.pliStats, ssrc) && w.pliStats[ssrc].count == old(has(w.pliStats, ssrc) ? w.pliStats[ssrc].count : 0) + 1
  ensures others: s != ssrc ==> (has(w.pliStats, s) <==> old(has(w.pliStats, s))) && w.pliStats[s] == old(w.pliStats[s])

func webrtc.WebRTC.RequestKeyframe(w)
  props C20
  requires w != nil && w.pc != nil && w.ctx != nil && !held(w.m)
  modifies w.m, map(w.pliStats), rtcps, pliTo
  ensures lock: !held(w.m)
  ensures one-each: rtcps == old(rtcps) + len(w.videoTrackSSRCs)
  ensures each: forall i int :: 0 <= i && i < len(w.videoTrackSSRCs) ==> pliTo[old(rtcps) + i] == w.videoTrackSSRCs[i]
  inv ($i int) sent: rtcps == old(rtcps) + $i
  inv ($i int) sent-to: forall j int :: 0 <= j && j < $i ==> pliTo[old(rtcps) + j] == w.videoTrackSSRCs[j]
  inv still: held(w.m)
  cover several: rtcps > old(rtcps) + 1

// ---- set-up

// the media engine refused the offer or made no answer
ghost peerFailed bool
extern xwebrtc.API.NewPeerConnection(api, cfg) (pc, err)
  modifies nothing
  ensures err == nil ==> pc != nil
extern xwebrtc.PeerConnection.SetRemoteDescription(pc, d) (err)
  modifies peerFailed
  sets peerFailed = old(peerFailed) || err != nil
extern xwebrtc.PeerConnection.CreateAnswer(pc, o) (d, err)
  modifies peerFailed
  sets peerFailed = old(peerFailed) || err != nil

func webrtc.WebRTC.Init(w, rec) (sd, err)
  props C09 C20
  maypanic
  requires w != nil && w.ctx != nil
  panics no-answer: setup == old(setup)
  modifies w.*, setup, recAudio, recVideo, peerFailed
  sets setup = (err == nil ? 1 : 2)
  oncall xwebrtc.PeerConnection.SetRemoteDescription(pc, d) {C20} the-offer: d == old(w.sdpOffer) && pc == w.pc
  ensures {C20} refused: !old(webReady(w)) ==> err != nil && w.pc == old(w.pc)
  ensures {C20} not-refused: old(webReady(w)) && err != nil ==> peerFailed && w.pc != nil
  ensures {C20} kept: w.connStateCallbackFn == old(w.connStateCallbackFn) && w.flowCallback == old(w.flowCallback) && w.sdpOffer == old(w.sdpOffer)
  cover answered: err == nil

// the connection state is passed on to the callback that was set
ghost stateCalls int
field webrtc.WebRTC.connStateCallbackFn(f, state)
  modifies stateCalls
  sets stateCalls = old(stateCalls) + 1
func webrtc.WebRTC.Init$2(state)
  props C20
  anchor passed xwebrtc.PeerConnection.OnICEConnectionStateChange
  requires w != nil && w.ctx != nil && w.connStateCallbackFn != nil && peerConnection != nil
  modifies stateCalls
  oncall field webrtc.WebRTC.connStateCallbackFn(f, x) same-state: x == state
  ensures passed-on: stateCalls == old(stateCalls) + 1

// ---- the LiveKit adapter's keyframe requests

// picture loss indications written to a participant, and written for a source
ghost plisTo [ref]int
ghost pliFor [uint32]int
extern lksdk.RemoteParticipant.WritePLI(p, ssrc)
  modifies pliFor[uint32(ssrc)], plisTo[ref(p)]
  sets pliFor[uint32(ssrc)] = old(pliFor[uint32(ssrc)]) + 1
  sets plisTo[ref(p)] = old(plisTo[ref(p)]) + 1

pure partsOK(w) = (forall k string :: has(w.remoteParticipants, k) ==> w.remoteParticipants[k] != nil) && w.pliStats != nil

func livekit.LiveKitWebRTC.requestKeyframeForSSRC(w, ssrc)
  props C20
  optional
  logic s uint32
  logic p string
  requires w != nil && w.ctx != nil && held(w.m) && partsOK(w)
  modifies map(w.pliStats), pliFor[ssrc], plisTo
  inv counted: w.pliStats[ssrc].count - old(w.pliStats[ssrc].count) == pliFor[ssrc] - old(pliFor[ssrc])
  inv more: forall r ref :: plisTo[r] >= old(plisTo[r])
  inv reached: visited(p) ==> plisTo[ref(w.remoteParticipants[p])] > old(plisTo[ref(w.remoteParticipants[p])])
  inv others: s != ssrc ==> (has(w.pliStats, s) <==> old(has(w.pliStats, s))) && w.pliStats[s] == old(w.pliStats[s])
  inv kept: old(has(w.pliStats, ssrc)) ==> has(w.pliStats, ssrc)
  oncall lksdk.RemoteParticipant.WritePLI(x, n) source: n == ssrc
  ensures lock: held(w.m)
  ensures counted: w.pliStats[ssrc].count - old(w.pliStats[ssrc].count) == pliFor[ssrc] - old(pliFor[ssrc])
  ensures each: w.room != nil && has(w.remoteParticipants, p) ==> plisTo[ref(w.remoteParticipants[p])] > old(plisTo[ref(w.remoteParticipants[p])])
  ensures not-connected: w.room == nil ==> pliFor[ssrc] == old(pliFor[ssrc])
  ensures others: s != ssrc ==> (has(w.pliStats, s) <==> old(has(w.pliStats, s))) && w.pliStats[s] == old(w.pliStats[s])
  ensures kept: old(has(w.pliStats, ssrc)) ==> has(w.pliStats, ssrc)

func livekit.LiveKitWebRTC.RequestKeyframeForSSRC(w, ssrc)
  props C20
  logic s uint32
  logic p string
  requires w != nil && w.ctx != nil && !held(w.m)
  modifies w.m, map(w.pliStats), pliFor[ssrc], plisTo
  ensures lock: !held(w.m)
  ensures counted: w.pliStats[ssrc].count - old(w.pliStats[ssrc].count) == pliFor[ssrc] - old(pliFor[ssrc])
  ensures each: w.room != nil && has(w.remoteParticipants, p) ==> plisTo[ref(w.remoteParticipants[p])] > old(plisTo[ref(w.remoteParticipants[p])])
  ensures not-connected: w.room == nil ==> pliFor[ssrc] == old(pliFor[ssrc])
  ensures others: s != ssrc ==> (has(w.pliStats, s) <==> old(has(w.pliStats, s))) && w.pliStats[s] == old(w.pliStats[s])
  ensures kept: old(has(w.pliStats, ssrc)) ==> has(w.pliStats, ssrc)

func livekit.LiveKitWebRTC.RequestKeyframe(w)
  props C20
  logic s uint32
  requires w != nil && w.ctx != nil && !held(w.m)
  modifies w.m, map(w.pliStats), pliFor, plisTo
  inv counted: w.pliStats[s].count - old(w.pliStats[s].count) == pliFor[s] - old(pliFor[s])
  inv known: has(w.pliStats, s) <==> old(has(w.pliStats, s))
  inv parts: partsOK(w)
  ensures lock: !held(w.m)
  ensures counted: w.pliStats[s].count - old(w.pliStats[s].count) == pliFor[s] - old(pliFor[s])
  ensures only-known: !old(has(w.pliStats, s)) ==> pliFor[s] == old(pliFor[s])
  oncall livekit.LiveKitWebRTC.requestKeyframeForSSRC(x, n) {C20 optional} known: x == w && has(w.pliStats, n)

// ---- the mediasoup receive loop (C23)

uf kindOf(ref) int
uf ssrcOf(ref) uint32
extern xwebrtc.TrackRemote.Kind(t) (r)
  modifies nothing
  ensures int(r) == kindOf(ref(t))
extern xwebrtc.TrackRemote.SSRC(t) (r)
  modifies nothing
  ensures uint32(r) == ssrcOf(ref(t))

// the packets the jitter buffer released last, and how many packets had been pushed before
ghost rel []*rtp.Packet
ghost relBase int
// a skip was made and not yet collected; collected and not yet reported to the recorder
ghost uncollected bool
ghost owed bool
ghost owedSeq int64
// packets read from a track, the last one, and packets given to the jitter buffer
ghost reads int
ghost lastRead *rtp.Packet
ghost adds int

iface recorder.Recorder.NotifySkippedPacket(r, s)
  modifies owed
  sets owed = false

func webrtc.WebRTC.Init$1(track, receiver)
  props C23 C20 C19
  anchor passed xwebrtc.PeerConnection.OnTrack
  aborts
  local m sync.Mutex
  local jb *utils.JitterBuffer
  local rl *utils.ReceiveLog
  local su *utils.SequenceUnwrapper
  local s2 uint16 2
  requires w != nil && w.ctx != nil && rec != nil && track != nil && peerConnection != nil && w.pliStats != nil && w.flowCallback != nil
  requires w.cfg.JitterBuffer >= 1 && !held(w.m) && rlTable()
  requires {assumed} (kindOf(ref(track)) == 1 || kindOf(ref(track)) == 2) && pushes == relBase + len(rel) && !owed && !uncollected && adds == reads && lastPush == 0
  modifies *
  monitor m shared
  monitor m changes jb.nextStart, jb.lastSkippedSeq, jb.hasLastSkipped, elems(jb.packets), rl.lastConsecutive, elems(rl.packets)
  monitor m inv buffer: jbInv(jb)
  monitor m inv log: rlInv(rl)
  inv unlocked: !held(m)
  inv unwrapper: unwInv(su) && (!su.started ==> su.wrapArounds == 0)
  inv all-pushed: pushes == relBase + len(rel)
  inv all-told: !owed && !uncollected
  inv all-kept: adds == reads
  inv noticed: s2 == lastPush
  inv ($i int) pushed: pushes == relBase + $i
  oncall xwebrtc.TrackRemote.ReadRTP(t) {C23} this-track: t == track
  oncall xwebrtc.TrackRemote.ReadRTP(t) {C23} kept: adds == reads
  oncall xwebrtc.TrackRemote.ReadRTP(t) {C19} noticed: s2 == lastPush
  oncall utils.JitterBuffer.Add(b, q, p) {C23} as-read: held(m) && b == jb && p == lastRead && q % 65536 == int64(p.SequenceNumber)
  oncall utils.ReceiveLog.Add(l, n) {C23} noted: held(m) && l == rl && n == lastRead.SequenceNumber
  oncall utils.JitterBuffer.NextPackets(b) {C23} none-lost: held(m) && pushes == relBase + len(rel)
  oncall recorder.Recorder.PushAudio(r, p) {C23} own-input: kindOf(ref(track)) == 1 && r == rec
  oncall recorder.Recorder.PushVideo(r, p) {C23} own-input: kindOf(ref(track)) == 2 && r == rec
  oncall recorder.Recorder.PushAudio(r, p) {C23} in-order: pushes - relBase < len(rel) && p == rel[pushes - relBase]
  oncall recorder.Recorder.PushVideo(r, p) {C23} in-order: pushes - relBase < len(rel) && p == rel[pushes - relBase]
  oncall recorder.Recorder.PushAudio(r, p) {C23} skips-first: !owed && !uncollected
  oncall recorder.Recorder.PushVideo(r, p) {C23} skips-first: !owed && !uncollected
  oncall recorder.Recorder.NotifySkippedPacket(r, s) {C23} the-skip: owed && int64(s) == owedSeq % 65536 && r == rec
  oncall utils.NewReceiveLog(n) {C20} listed: kindOf(ref(track)) == 2 ==> exists i int :: 0 <= i && i < len(w.videoTrackSSRCs) && w.videoTrackSSRCs[i] == ssrcOf(ref(track))

// ---- retransmission requests

// the packets missing at the last tick, those requested since, and the pairs they were put into;
// the last packet given up on, since the lock was taken
ghost missing []uint16
ghost lastReq []uint16
ghost lastPairs []rtcp.NackPair
ghost gaveUp bool
ghost given [uint16]bool
ghost givenUp uint16

func webrtc.WebRTC.Init$1$4()
  props C23
  anchor calls utils.ReceiveLog.MissingSeqNumbers
  local m sync.Mutex
  local jb *utils.JitterBuffer
  local rl *utils.ReceiveLog
  local nacked map[uint16]webrtc.NACKTracker
  local now time.Time
  logic x int
  logic k int
  logic q uint16
  requires w != nil && w.ctx != nil && track != nil && peerConnection != nil && done != nil && !held(m) && jb != nil && rl != nil
  requires {assumed} len(missing) == 0 && len(lastReq) == 0
  modifies *
  monitor m shared
  monitor m changes jb.started, jb.nextStart, jb.end, jb.packets, jb.lastSkippedSeq, jb.hasLastSkipped, elems(jb.packets), map(jb.missingPacketTimers), rl.started, rl.end, rl.lastConsecutive, elems(rl.packets)
  monitor m inv buffer: jbInv(jb)
  monitor m inv log: rlInv(rl)
  monitor m sets gaveUp = false
  inv unlocked: !held(m)
  inv counts: forall n uint16 :: has(nacked, n) ==> 1 <= nacked[n].count && nacked[n].count <= 11
  inv given-up: forall n uint16 :: has(nacked, n) && nacked[n].count > 10 ==> given[n]
  inv asked: 0 <= x && x < len(missing) && !given[missing[x]] ==> exists k int :: 0 <= k && k < len(lastReq) && lastReq[k] == missing[x]
  inv ($i int) untouched: (forall a int :: 0 <= a && a < len(missing) && missing[a] == q ==> a >= $i) ==> (has(nacked, q) <==> head(has(nacked, q))) && nacked[q] == head(nacked[q])
  inv ($i int) seen: 0 <= x && x < len(missing) && x < $i && !given[missing[x]] ==> has(nacked, missing[x]) && nacked[missing[x]].timestamp == now
  inv ($i int, $f []uint16) newest: $i < len(missing) && x == $i && !given[missing[x]] && $i >= 0 ==> len($f) > 0 && $f[len($f)-1] == missing[x]
  inv ($i int, $f []uint16) chosen: 0 <= x && x < len(missing) && x < $i && !given[missing[x]] ==> exists k int :: 0 <= k && k < len($f) && $f[k] == missing[x]
  inv ($i int, $f []uint16) only-missing: 0 <= k && k < len($f) ==> exists x int :: 0 <= x && x < $i && missing[x] == $f[k]
  inv ($i int, $f []uint16) once: forall a int :: 0 <= k && k < len($f) && 0 <= a && a < len(missing) && a >= $i ==> $f[k] != missing[a]
  inv ($f []uint16) within: 0 <= k && k < len($f) && $f[k] == q ==> has(nacked, q) && nacked[q].timestamp == now && nacked[q].count <= 10 && nacked[q].count == (head(has(nacked, q)) ? head(nacked[q].count) : 0) + 1
  inv ($vf []uint16) still-chosen: 0 <= x && x < len(missing) && !given[missing[x]] ==> exists k int :: 0 <= k && k < len($vf) && $vf[k] == missing[x]
  inv ($vf []uint16) still-within: 0 <= k && k < len($vf) && $vf[k] == q ==> has(nacked, q) && nacked[q].timestamp == now && nacked[q].count <= 10 && nacked[q].count == (head(has(nacked, q)) ? head(nacked[q].count) : 0) + 1
  oncall utils.ReceiveLog.MissingSeqNumbers(l, n) the-log: held(m) && l == rl
  oncall utils.ReceiveLog.MissingSeqNumbers(l, n) all-asked: 0 <= x && x < len(missing) && !given[missing[x]] ==> exists k int :: 0 <= k && k < len(lastReq) && lastReq[k] == missing[x]
  oncall utils.ReceiveLog.IgnoreSeqNum(l, n) ten-times: held(m) && l == rl && has(nacked, n) && nacked[n].count >= 10
  oncall utils.JitterBuffer.GetNextStart(b) locked: held(m) && b == jb
  oncall utils.JitterBuffer.SkipPacket(b, p) ten-times: held(m) && b == jb && gaveUp && p % 65536 == int64(givenUp)
  oncall sync.Mutex.Unlock(l) passed-over: gaveUp ==> jb.nextStart % 65536 != int64(givenUp)
  oncall utils.NackPairs(s) at-most-ten: 0 <= k && k < len(s) && s[k] == q ==> has(nacked, q) && nacked[q].count <= 10 && nacked[q].count == (head(has(nacked, q)) ? head(nacked[q].count) : 0) + 1
  oncall utils.NackPairs(s) only-missing: 0 <= k && k < len(s) ==> exists x int :: 0 <= x && x < len(missing) && missing[x] == s[k]
  oncall xwebrtc.PeerConnection.WriteRTCP(pc, ps) request: pc == peerConnection && len(ps) == 1 && istype(ps[0], *rtcp.TransportLayerNack) && as(ps[0], *rtcp.TransportLayerNack).Nacks == lastPairs && as(ps[0], *rtcp.TransportLayerNack).MediaSSRC == ssrcOf(ref(track))

// ---- the flow of a mediasoup track

// what the flow callback was told last, and whether it was told the end
ghost flowTold bool
ghost flowEnded bool
field webrtc.WebRTC.flowCallback(f, flowing, ts, closed)
  modifies flowTold, flowEnded
  sets flowTold = flowing
  sets flowEnded = closed

func webrtc.WebRTC.Init$1$6()
  props C19 C23
  anchor calls webrtc.WebRTC.flowCallback
  local m sync.Mutex
  local s1 uint16 1
  local s2 uint16 2
  local lastTimestamp time.Duration
  requires w != nil && w.flowCallback != nil && rec != nil && done != nil && !held(m)
  requires {assumed} !flowTold && !flowEnded
  modifies *
  monitor m shared
  monitor m changes s2, lastTimestamp
  inv unlocked: !held(m)
  inv ($w bool) last-told: flowTold == $w
  inv running: !flowEnded
  oncall field webrtc.WebRTC.flowCallback(f, flowing, ts, closed) {C19} at-end: closed ==> !flowing
  oncall field webrtc.WebRTC.flowCallback(f, flowing, ts, closed) {C19} on-change: !closed ==> flowing != flowTold
  oncall field webrtc.WebRTC.flowCallback(f, flowing, ts, closed) {C19} flowing-if-pushed: !closed ==> flowing == (head(s1) != s1) && !held(m)
  oncall field webrtc.WebRTC.flowCallback(f, flowing, ts, closed) {C19} once: !flowEnded
  ensures {C19} ended: flowEnded && !flowTold
