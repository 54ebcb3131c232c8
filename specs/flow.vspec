// The LiveKit adapter's flow status (C19).

guard livekit.LiveKitWebRTC.m: flowState, pliStats, jitterBuffers, remoteParticipants
guardinv livekit.LiveKitWebRTC.m(w) flow-table: flowOK(w) && partsOK(w)

// notifications sent, and what the last one said
ghost notes int
ghost noteFlow bool
ghost noteTs int
ghost noteEnd bool
// per track: the status its last notification gave; false before the first one
ghost told [ref]bool zero

pure flowOK(w) = w.flowState != nil
  && (forall a string :: has(w.flowState, a) ==> w.flowState[a] != nil && (w.flowCallback != nil ==> told[ref(w.flowState[a])] == w.flowState[a].isFlowing))
  && (forall a string, b string :: has(w.flowState, a) && has(w.flowState, b) && a != b ==> ref(w.flowState[a]) != ref(w.flowState[b]))

field livekit.LiveKitWebRTC.flowCallback(f, flowing, ts, closed)
  modifies notes, noteFlow, noteTs, noteEnd
  sets notes = old(notes) + 1
  sets noteFlow = flowing
  sets noteTs = ts
  sets noteEnd = closed

func livekit.LiveKitWebRTC.SetFlowCallback(w, f)
  props C19
  requires w != nil
  modifies w.flowCallback
  ensures set: w.flowCallback == f

func livekit.LiveKitWebRTC.updateFlowStateLocked(w, id, seq, ts)
  props C19
  optional
  logic k string
  requires w != nil && w.ctx != nil && held(w.m) && flowOK(w)
  modifies map(w.flowState), w.flowState[id].lastSeqNum, w.flowState[id].lastTimestamp, w.flowState[id].isFlowing, notes, noteFlow, noteTs, noteEnd, told[ref(w.flowState[id])]
  sets told[ref(w.flowState[id])] = notes > old(notes) ? noteFlow : old(told[ref(w.flowState[id])])
  oncall field livekit.LiveKitWebRTC.flowCallback(f, flowing, t, closed) alternates: flowing != told[ref(w.flowState[id])] && !closed
  oncall field livekit.LiveKitWebRTC.flowCallback(f, flowing, t, closed) once: notes == old(notes)
  inv ($m time.Duration) most: visited(k) && has(w.flowState, k) ==> $m >= w.flowState[k].lastTimestamp
  inv ($m time.Duration) from: $m == 0 || exists x string :: has(w.flowState, x) && w.flowState[x].lastTimestamp == $m
  ensures table: flowOK(w)
  ensures lock: held(w.m)
  ensures known: has(w.flowState, id) && w.flowState[id].lastSeqNum == seq && w.flowState[id].lastTimestamp == ts
  ensures first: !old(has(w.flowState, id)) ==> !w.flowState[id].isFlowing && notes == old(notes)
  ensures flowing: old(has(w.flowState, id)) ==> (w.flowState[id].isFlowing <==> old(w.flowState[id].lastSeqNum) != seq)
  ensures on-change: old(has(w.flowState, id)) && w.flowCallback != nil ==> notes == old(notes) + (w.flowState[id].isFlowing != old(w.flowState[id].isFlowing) ? 1 : 0)
  ensures says: notes > old(notes) ==> (noteFlow <==> w.flowState[id].isFlowing)
  ensures latest: notes > old(notes) && has(w.flowState, k) ==> noteTs >= w.flowState[k].lastTimestamp
  ensures latest-is-one: notes > old(notes) ==> noteTs == 0 || exists x string :: has(w.flowState, x) && w.flowState[x].lastTimestamp == noteTs
  ensures others: k != id ==> (has(w.flowState, k) <==> old(has(w.flowState, k))) && w.flowState[k] == old(w.flowState[k])
  cover tells: notes > old(notes)

func livekit.LiveKitWebRTC.updateFlowState(w, id, seq, ts)
  props C19
  logic k string
  requires w != nil && w.ctx != nil && !held(w.m)
  modifies w.m, map(w.flowState), w.flowState[id].lastSeqNum, w.flowState[id].lastTimestamp, w.flowState[id].isFlowing, notes, noteFlow, noteTs, noteEnd, told[ref(w.flowState[id])]
  sets told[ref(w.flowState[id])] = notes > old(notes) ? noteFlow : old(told[ref(w.flowState[id])])
  inv ($m time.Duration) most: visited(k) && has(w.flowState, k) ==> $m >= w.flowState[k].lastTimestamp
  inv ($m time.Duration) from: $m == 0 || exists x string :: has(w.flowState, x) && w.flowState[x].lastTimestamp == $m
  ensures table: flowOK(w)
  ensures lock: !held(w.m)
  ensures known: has(w.flowState, id) && w.flowState[id].lastSeqNum == seq && w.flowState[id].lastTimestamp == ts
  ensures first: !old(has(w.flowState, id)) ==> !w.flowState[id].isFlowing && notes == old(notes)
  ensures flowing: old(has(w.flowState, id)) ==> (w.flowState[id].isFlowing <==> old(w.flowState[id].lastSeqNum) != seq)
  ensures on-change: old(has(w.flowState, id)) && w.flowCallback != nil ==> notes == old(notes) + (w.flowState[id].isFlowing != old(w.flowState[id].isFlowing) ? 1 : 0)
  ensures says: notes > old(notes) ==> (noteFlow <==> w.flowState[id].isFlowing)
  ensures latest: notes > old(notes) && has(w.flowState, k) ==> noteTs >= w.flowState[k].lastTimestamp
  ensures latest-is-one: notes > old(notes) ==> noteTs == 0 || exists x string :: has(w.flowState, x) && w.flowState[x].lastTimestamp == noteTs
  ensures others: k != id ==> (has(w.flowState, k) <==> old(has(w.flowState, k))) && w.flowState[k] == old(w.flowState[k])
  cover tells: notes > old(notes)

// the packets the SDK's jitter buffer released last, and how many packets were pushed to a recorder
ghost popEpoch int
ghost popLen int
ghost popBase int
ghost pushes int
ghost lastPush uint16
ghost forAudio bool
uf popAt(int, int) ref
extern jitter.Buffer.Push(b, p)
  modifies nothing
// every packet released before has been pushed by the time more are asked for
extern jitter.Buffer.Pop(b, force) (ps)
  requires pushes == popBase + popLen
  modifies popEpoch, popLen, popBase
  sets popEpoch = old(popEpoch) + 1
  sets popLen = len(ps)
  sets popBase = pushes
  ensures forall i int :: 0 <= i && i < len(ps) ==> ps[i] != nil && ref(ps[i]) == popAt(popEpoch, i)
extern xwebrtc.TrackRemote.ReadRTP(t) (p, attrs, err)
  modifies reads, lastRead
  sets reads = old(reads) + (err == nil ? 1 : 0)
  sets lastRead = p
  ensures err == nil ==> p != nil
iface recorder.Recorder.PushVideo(r, p)
  modifies pushes, lastPush
  sets pushes = old(pushes) + 1
  sets lastPush = p.SequenceNumber
iface recorder.Recorder.PushAudio(r, p)
  modifies pushes, lastPush
  sets pushes = old(pushes) + 1
  sets lastPush = p.SequenceNumber

// the periodic check: it repeats the last observation
func livekit.LiveKitWebRTC.onTrackSubscribed$3()
  props C19
  anchor calls livekit.LiveKitWebRTC.updateFlowStateLocked
  anchor calls time.NewTicker
  requires w != nil && w.ctx != nil && !held(w.m)
  modifies w.m, w.flowState, w.pliStats, w.jitterBuffers, w.remoteParticipants, allmaps(w.flowState), all(livekit.TrackFlowState.*), notes, noteFlow, noteTs, noteEnd, told
  oncall livekit.LiveKitWebRTC.updateFlowStateLocked(x, id, seq, ts) repeats: x == w && id == trackID && has(w.flowState, id) && seq == w.flowState[id].lastSeqNum && ts == w.flowState[id].lastTimestamp
  inv unlocked: !held(w.m)

// the read loop
func livekit.LiveKitWebRTC.onTrackSubscribed$4()
  props C19 C23
  anchor calls xwebrtc.TrackRemote.ReadRTP
  requires w != nil && w.ctx != nil && done != nil && !held(w.m) && w.handler != nil
  requires {assumed} (trackKind == "video" || trackKind == "audio") && clockRate > 0
  requires {assumed} pushes == popBase + popLen
  modifies w.m, w.flowState, w.pliStats, w.jitterBuffers, w.remoteParticipants, allmaps(w.flowState), all(livekit.TrackFlowState.*), notes, noteFlow, noteTs, noteEnd, told, pushes, lastPush, popEpoch, popLen, popBase, reads, lastRead
  inv unlocked: !held(w.m)
  inv all-pushed: pushes == popBase + popLen
  inv ($i int) pushed: pushes == popBase + $i
  oncall recorder.Recorder.PushVideo(r, p) {C23} own-track: trackKind == "video" && r == w.handler
  oncall recorder.Recorder.PushAudio(r, p) {C23} own-track: trackKind == "audio" && r == w.handler
  oncall recorder.Recorder.PushVideo(r, p) {C23} in-order: pushes < popBase + popLen && ref(p) == popAt(popEpoch, pushes - popBase)
  oncall recorder.Recorder.PushAudio(r, p) {C23} in-order: pushes < popBase + popLen && ref(p) == popAt(popEpoch, pushes - popBase)
  oncall recorder.Recorder.PushVideo(r, p) {C19} observed: has(w.flowState, trackID) && w.flowState[trackID].lastSeqNum == p.SequenceNumber
  oncall recorder.Recorder.PushAudio(r, p) {C19} observed: has(w.flowState, trackID) && w.flowState[trackID].lastSeqNum == p.SequenceNumber

func livekit.LiveKitWebRTC.onTrackSubscribed(w, track, pub, rp)
  props C19
  requires w != nil && w.ctx != nil && track != nil && pub != nil && rp != nil && w.handler != nil && !held(w.m) && w.jitterBuffers != nil && w.pliStats != nil
  modifies w.m, map(w.jitterBuffers), map(w.pliStats)
  ensures unlocked: !held(w.m)
func livekit.LiveKitWebRTC.Close(w) (err)
  props C19
  requires w != nil && !held(w.m)
  modifies w.m
  ensures unlocked: !held(w.m)
