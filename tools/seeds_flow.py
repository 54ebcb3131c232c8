L = "internal/webrtc/livekit"
F = L + "/livekit.go"
def t(body):
    return '''package livekit
import (
	"context"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
)
type note struct { flowing bool; ts time.Duration; closed bool }
func TestSeedDemo(t *testing.T) {
	w := NewLiveKitWebRTC(context.WithValue(context.Background(), "session", "s"), config.LiveKit{}, "room", nil)
	var got []note
	w.SetFlowCallback(func(f bool, ts time.Duration, c bool) { got = append(got, note{f, ts, c}) })
	s := time.Second
	_ = s
	want := []note{}
''' + body + '''
	if len(got) != len(want) { t.Fatalf("notifications %v, want %v", got, want) }
	for i := range want { if got[i] != want[i] { t.Fatalf("notifications %v, want %v", got, want) } }
}
'''
SEEDS = [
 dict(id="flow-late-packet", property="C19", needs="a packet released after a newer one of the same track was observed (numbering restarted or reordered)",
      what="a track whose latest packet number is behind the previous one counts as not flowing",
      edits=[(F, "state.isFlowing = state.lastSeqNum != seqNum", "state.isFlowing = seqNum != state.lastSeqNum && seqNum-state.lastSeqNum < 1<<15")], pkg=L,
      test=t('''	for _, n := range []uint16{10, 11, 12, 5, 6} { w.updateFlowState("a", n, s) }
	want = append(want, note{true, s, false})
''')),
 dict(id="flow-quiet-track", property="C19", needs="two tracks, the one with the larger timestamp not flowing when the other one's status changes",
      what="the notified timestamp leaves out tracks that are not flowing",
      edits=[(F, "if s.lastTimestamp > latestTimestamp {", "if s.isFlowing && s.lastTimestamp > latestTimestamp {")], pkg=L,
      test=t('''	w.updateFlowState("a", 1, 9*s)
	w.updateFlowState("b", 1, 2*s)
	w.updateFlowState("b", 2, 3*s)
	want = append(want, note{true, 9 * s, false})
''')),
 dict(id="flow-same-time", property="C19", needs="two packets of one frame (same timestamp, different numbers) as consecutive observations",
      what="consecutive packets with one timestamp count as not flowing",
      edits=[(F, "state.isFlowing = state.lastSeqNum != seqNum", "state.isFlowing = state.lastSeqNum != seqNum && (state.lastTimestamp != timestamp || !wasFlowing)")], pkg=L,
      test=t('''	w.updateFlowState("a", 1, s)
	w.updateFlowState("a", 2, 2*s)
	w.updateFlowState("a", 3, 2*s)
	w.updateFlowState("a", 4, 3*s)
	want = append(want, note{true, 2 * s, false})
''')),
]
