// The LiveKit adapter (C09, C18, C19).

// what the recorder was told
ghost recAudio bool
ghost recVideo bool
// the publications a subscription was requested for
ghost asked [ref]bool

iface recorder.Recorder.SetHasAudio(r, on)
  modifies recAudio
  sets recAudio = on
iface recorder.Recorder.SetHasVideo(r, on)
  modifies recVideo
  sets recVideo = on

// the LiveKit SDK: a room's participants and their publications do not change during one call
uf roomN(ref) int
uf roomAt(ref, int) ref
uf inRoom(ref, ref) bool
uf partN(ref) int
uf pubAt(ref, int) ref
uf pubRemote(ref) bool
uf pubSID(ref) string
uf pubKind(ref) string
uf pubSub(ref) bool
// a request to subscribe failed
ghost subFailed bool

extern lksdk.ConnectToRoom(url, info, callback, opts) (room, err)
  modifies nothing
  ensures err == nil ==> room != nil
extern lksdk.Room.GetRemoteParticipants(r) (ps)
  modifies nothing
  ensures len(ps) == roomN(ref(r))
  ensures forall i int :: 0 <= i && i < len(ps) ==> ps[i] != nil && ref(ps[i]) == roomAt(ref(r), i) && inRoom(ref(r), ref(ps[i]))
extern lksdk.baseParticipant.TrackPublications(p) (ts)
  modifies nothing
  ensures len(ts) == partN(owner(p))
  ensures forall i int :: 0 <= i && i < len(ts) ==> ts[i] != nil && ref(ts[i]) == pubAt(owner(p), i) && ref(ts[i]) != 0 && (istype(ts[i], *lksdk.RemoteTrackPublication) <==> pubRemote(ref(ts[i])))
iface lksdk.TrackPublication.SID(p) (r)
  modifies nothing
  ensures r == pubSID(ref(p))
iface lksdk.TrackPublication.Kind(p) (r)
  modifies nothing
  ensures r == pubKind(ref(p))
extern lksdk.trackPublicationBase.SID(p) (r)
  modifies nothing
  ensures r == pubSID(owner(p))
extern lksdk.trackPublicationBase.IsSubscribed(p) (r)
  modifies nothing
  ensures r == pubSub(owner(p))
extern lksdk.RemoteTrackPublication.SetSubscribed(p, on) (err)
  requires on
  modifies asked[ref(p)], subFailed
  sets asked[ref(p)] = true
  sets subFailed = old(subFailed) || err != nil
extern slices.Contains(s, v) (r)
  modifies nothing
  ensures r <==> exists i int :: 0 <= i && i < len(s) && s[i] == v

func livekit.LiveKitWebRTC.subscribe(w, track) (err)
  props C18
  requires w != nil && w.ctx != nil && track != nil && ref(track) != 0
  modifies asked[ref(track)], subFailed
  ensures requested: err == nil && istype(track, *lksdk.RemoteTrackPublication) && !pubSub(ref(track)) ==> asked[ref(track)]
  ensures kept: asked[ref(track)] == old(asked[ref(track)]) || istype(track, *lksdk.RemoteTrackPublication) && !pubSub(ref(track)) && asked[ref(track)]
  ensures refused: !istype(track, *lksdk.RemoteTrackPublication) ==> err != nil
  ensures failure: subFailed ==> old(subFailed) || err != nil
  ensures only-failure: err != nil && istype(track, *lksdk.RemoteTrackPublication) ==> subFailed

pure wanted(w, sid) = exists k int :: 0 <= k && k < len(w.trackIds) && w.trackIds[k] == sid
pure pubOf(w, i, j) = pubAt(roomAt(ref(w.room), i), j)
pure foundAt(w, i, j, k) = 0 <= i && i < roomN(ref(w.room)) && 0 <= j && j < partN(roomAt(ref(w.room), i)) && 0 <= k && k < len(w.trackIds) && w.trackIds[k] == pubSID(pubOf(w, i, j))

func livekit.LiveKitWebRTC.subscribeToTracks(w) (pubs, err)
  props C18 C09
  joint
  logic a int
  logic b int
  logic k int
  logic p ref
  logic asksP bool
  logic someVideo bool
  logic someAudio bool
  given asks: forall x int :: 0 <= x && x < len(w.trackIds) && w.trackIds[x] == pubSID(p) ==> asksP
  given video: forall q ref, y int :: inRoom(ref(w.room), q) && 0 <= y && y < partN(q) && wanted(w, pubSID(pubAt(q, y))) && pubKind(pubAt(q, y)) == "video" ==> someVideo
  given audio: forall q ref, y int :: inRoom(ref(w.room), q) && 0 <= y && y < partN(q) && wanted(w, pubSID(pubAt(q, y))) && pubKind(pubAt(q, y)) == "audio" ==> someAudio
  requires w != nil && w.ctx != nil && w.room != nil && w.handler != nil && !held(w.m)
  modifies w.m, w.hasVideo, w.hasAudio, w.remoteParticipants, asked, subFailed, recAudio, recVideo
  inv ($i int) all: a <= $i && foundAt(w, a, b, k) && !pubSub(pubOf(w, a, b)) ==> asked[pubOf(w, a, b)]
  inv ($vi int) all-before: a < $vi && foundAt(w, a, b, k) && !pubSub(pubOf(w, a, b)) ==> asked[pubOf(w, a, b)]
  inv ($vi int, $j int) all-here: a == $vi && b <= $j && foundAt(w, a, b, k) && !pubSub(pubOf(w, a, b)) ==> asked[pubOf(w, a, b)]
  inv only: asked[p] != old(asked[p]) ==> asked[p] && !pubSub(p) && asksP
  inv ok: subFailed ==> old(subFailed)
  inv ($vm map[string]*lksdk.RemoteParticipant) parts: forall q string :: has($vm, q) ==> $vm[q] != nil
  inv told: (old(recVideo) ==> recVideo) && (old(recAudio) ==> recAudio)
  inv ($i int) video: a <= $i && foundAt(w, a, b, k) && pubKind(pubOf(w, a, b)) == "video" ==> recVideo && w.hasVideo
  inv ($vi int) video-before: a < $vi && foundAt(w, a, b, k) && pubKind(pubOf(w, a, b)) == "video" ==> recVideo && w.hasVideo
  inv ($vi int, $j int) video-here: a == $vi && b <= $j && foundAt(w, a, b, k) && pubKind(pubOf(w, a, b)) == "video" ==> recVideo && w.hasVideo
  inv video-only: (recVideo ==> old(recVideo) || someVideo) && (w.hasVideo ==> old(w.hasVideo) || someVideo)
  inv ($i int) audio: a <= $i && foundAt(w, a, b, k) && pubKind(pubOf(w, a, b)) == "audio" ==> recAudio && w.hasAudio
  inv ($vi int) audio-before: a < $vi && foundAt(w, a, b, k) && pubKind(pubOf(w, a, b)) == "audio" ==> recAudio && w.hasAudio
  inv ($vi int, $j int) audio-here: a == $vi && b <= $j && foundAt(w, a, b, k) && pubKind(pubOf(w, a, b)) == "audio" ==> recAudio && w.hasAudio
  inv audio-only: (recAudio ==> old(recAudio) || someAudio) && (w.hasAudio ==> old(w.hasAudio) || someAudio)
  ensures unlocked: !held(w.m)
  ensures {C18} all: err == nil && foundAt(w, a, b, k) && !pubSub(pubOf(w, a, b)) ==> asked[pubOf(w, a, b)]
  ensures {C18} only: asked[p] != old(asked[p]) ==> asked[p] && !pubSub(p) && asksP
  ensures {C18} fails: subFailed && !old(subFailed) ==> err != nil
  ensures {C18} video: err == nil && foundAt(w, a, b, k) && pubKind(pubOf(w, a, b)) == "video" ==> recVideo
  ensures {C18} audio: err == nil && foundAt(w, a, b, k) && pubKind(pubOf(w, a, b)) == "audio" ==> recAudio
  ensures {C18} video-only: recVideo != old(recVideo) ==> recVideo && someVideo
  ensures {C18} audio-only: recAudio != old(recAudio) ==> recAudio && someAudio
  cover some: err == nil && len(pubs) > 0
  cover failed: err != nil

func livekit.LiveKitWebRTC.Init(w, rec) (err)
  props C18
  logic a int
  logic b int
  logic k int
  requires w != nil && w.ctx != nil && !held(w.m)
  modifies w.m, w.handler, w.room, w.hasVideo, w.hasAudio, w.remoteParticipants, setup, asked, subFailed, recAudio, recVideo
  sets setup = (err == nil ? 1 : 2)
  oncall lksdk.WithAutoSubscribe(on) {C18} nothing-unasked: !on
  ensures unlocked: !held(w.m)
  ensures {C18} refused: old(w.flowCallback) == nil || rec == nil ==> err != nil
  ensures {C18} all: err == nil && foundAt(w, a, b, k) && !pubSub(pubOf(w, a, b)) ==> asked[pubOf(w, a, b)]
  ensures {C18} video: err == nil && foundAt(w, a, b, k) && pubKind(pubOf(w, a, b)) == "video" ==> recVideo
  ensures {C18} audio: err == nil && foundAt(w, a, b, k) && pubKind(pubOf(w, a, b)) == "audio" ==> recAudio
  ensures {C18} fails: subFailed && !old(subFailed) ==> err != nil
  cover connected: err == nil
