R = "internal/webrtc/recorder"
W = R + "/webm.go"
HEAD = '''package recorder
import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/pion/rtp"
)

var _ = bytes.Equal
var _ = binary.LittleEndian
var _ = errors.New
var _ = os.Stat
var _ = filepath.Join
var _ = time.Second
var _ = config.Recorder{}
var _ = context.Background

type dw struct {
	kf     []bool
	ts     []int64
	data   [][]byte
	closes int
	fail   int
}

func (w *dw) Write(kf bool, ts int64, b []byte) (int, error) {
	if w.fail > 0 {
		w.fail--
		return 0, errors.New("no")
	}
	w.kf, w.ts, w.data = append(w.kf, kf), append(w.ts, ts), append(w.data, append([]byte{}, b...))
	return len(b), nil
}
func (w *dw) Close() error { w.closes++; return nil }

type da struct{ n int }

func (a *da) RequestKeyframe()              { a.n++ }
func (a *da) RequestKeyframeForSSRC(uint32) { a.n++ }

func dRec(custom bool) (*WebmRecorder, *dw, *dw, *da) {
	r := NewWebmRecorder("/dev/null", 0o600, 16, 16, custom, false)
	a := &da{}
	r.SetKeyframeRequester(a)
	r.SetHasVideo(true)
	r.SetHasAudio(true)
	v, u := &dw{}, &dw{}
	r.videoWriter, r.audioWriter = v, u
	r.hasValidAudio, r.hasValidVideo = true, true
	return r, v, u, a
}

var key = []byte{0, 0, 0, 0x9d, 1, 0x2a, 64, 0, 64, 0, 7, 7}
var delta = []byte{1, 0, 0, 5, 5, 5, 5, 5, 5, 5, 5, 5}

func dP(seq uint16, ts uint32, m bool, desc byte, data []byte) *rtp.Packet {
	return &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: seq, Timestamp: ts, Marker: m}, Payload: append([]byte{desc}, data...)}
}

func dTmp(t *testing.T) string {
	d, err := os.MkdirTemp(os.Getenv("SCRATCH"), "d")
	if err != nil {
		t.Fatal(err)
	}
	return d
}

func TestSeedDemo(t *testing.T) {
'''
def s(id, prop, needs, what, edits, body):
    return dict(id=id, property=prop, needs=needs, what=what, edits=edits, pkg=R, test=HEAD + body + "}\n")
SEEDS = [
 s("paths-mode-octal", "C11", "a file mode written in another base than octal, such as 416",
   "the configured file mode is read as octal only: 416 becomes 0416",
   [(R + "/recorder.go", "strconv.ParseUint(cfg.FileMode, 0, 32)", "strconv.ParseUint(cfg.FileMode, 8, 32)")],
   '''	d := dTmp(t)
	r, err := NewRecorder(context.Background(), config.Recorder{Directory: d, DirFileMode: "0700", FileMode: "416"}, "x.webm")
	if err != nil || r.(*WebmRecorder).fileMode != 0o640 {
		t.Fatal(err)
	}
'''),
 s("paths-exists-dir", "C11", "a second recording with the same name in a sub-directory that already exists",
   "the check that the file is new only runs when its directory had to be created, so an existing recording is overwritten",
   [(R + "/recorder.go", '''				return "", 0, fmt.Errorf("file directory could not be created %s", fileDir)
			}
		}

		if _, err := os.Stat(file); !os.IsNotExist(err) {
			return "", 0, fmt.Errorf("file already exists %s", file)
		}
''', '''				return "", 0, fmt.Errorf("file directory could not be created %s", fileDir)
			}
		} else if _, err := os.Stat(fileDir + file); err == nil {
			return "", 0, fmt.Errorf("file already exists %s", file)
		}
''')],
   '''	d := dTmp(t)
	os.MkdirAll(filepath.Join(d, "s"), 0o700)
	os.WriteFile(filepath.Join(d, "s", "x.webm"), []byte("old"), 0o600)
	if _, err := NewRecorder(context.Background(), config.Recorder{Directory: d, DirFileMode: "0700", FileMode: "0600"}, "s/x.webm"); err == nil {
		t.Fatal("accepted")
	}
'''),
 s("vp8-nine-bytes", "C12", "a complete keyframe of exactly nine bytes",
   "the minimum length of a keyframe is off by one, so reading its dimensions runs past the end",
   [(W, "	minFrameLen := 10\n", "	minFrameLen := 9\n"), (W, "		if len(frame) < 10 {\n			return false, \"keyframe too small\"", "		if len(frame) < minFrameLen {\n			return false, \"keyframe too small\"")],
   '''	r, _, _, _ := dRec(true)
	r.PushVideo(dP(1, 0, true, 0x10, key[:9]))
'''),
 s("skip-locks-twice", "C12", "a skip notice while a frame is being assembled",
   "the recorder reports progress with its own lock held and blocks on itself",
   [(W, "		log.WithField(\"session\", r.ctx.Value(\"session\")).\n			Warnf(\"Discarding frame due to skipped packet: seq=%d, frame=%v\", seq, logMsgPkts)\n",
        "		log.WithField(\"session\", r.ctx.Value(\"session\")).\n			Warnf(\"Discarding frame due to skipped packet: seq=%d, frame=%v, at=%v\", seq, logMsgPkts, r.position())\n"),
    (W, "func isSequenceInRange(seq, start, end uint16) bool {", "func (r *WebmRecorder) position() time.Duration {\n	r.m.Lock()\n	defer r.m.Unlock()\n\n	return r.videoTimestamp\n}\n\nfunc isSequenceInRange(seq, start, end uint16) bool {")],
   '''	r, _, _, _ := dRec(true)
	r.PushVideo(dP(1, 0, false, 0x10, key))
	done := make(chan bool)
	go func() { r.NotifySkippedPacket(1); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("blocked")
	}
'''),
 s("frame-glued", "C13", "a partial frame followed by a keyframe with consecutive numbers",
   "a keyframe that interrupts a partial frame is appended to it, and the mixture is written as one frame",
   [(W, "		if r.currentFrame != nil && len(r.currentFrame) > 0 {\n			var logMsgPkts = \"none\"", "		if r.currentFrame != nil && len(r.currentFrame) > 0 && !isKeyFrame {\n			var logMsgPkts = \"none\"")],
   '''	r, v, _, _ := dRec(true)
	r.PushVideo(dP(1, 0, true, 0x10, key))
	r.PushVideo(dP(2, 3000, false, 0x10, key))
	r.PushVideo(dP(3, 6000, true, 0x10, key))
	for _, d := range v.data {
		if !bytes.Equal(d, key) {
			t.Fatalf("%x", d)
		}
	}
'''),
 s("skip-wrap", "C13", "a reported skip inside a frame whose packets straddle the 16 bit wraparound",
   "the range test is wrong across the wraparound, so a frame with a reported skip is written",
   [(W, "	return seq >= start || seq <= end\n", "	return seq >= start && seq <= end\n")],
   '''	r, v, _, _ := dRec(true)
	r.PushVideo(dP(65530, 0, true, 0x10, key))
	r.PushVideo(dP(65531, 3000, false, 0x10, delta))
	for i := uint16(65532); i != 2; i++ {
		r.PushVideo(dP(i, 3000, false, 0, delta))
	}
	r.NotifySkippedPacket(65534)
	r.PushVideo(dP(2, 3000, true, 0, delta))
	if len(v.data) != 1 {
		t.Fatal(len(v.data))
	}
'''),
 s("write-failure-forgotten", "C14", "a failing write followed by frames that are not keyframes",
   "after a frame could not be written the recorder goes on with frames that depend on it",
   [(W, "				Errorf(\"Error writing video frame: %v\", err)\n			r.hasKeyFrame = false\n", "				Errorf(\"Error writing video frame: %v\", err)\n")],
   '''	r, v, _, _ := dRec(true)
	r.PushVideo(dP(1, 0, true, 0x10, key))
	v.fail = 1
	r.PushVideo(dP(2, 3000, true, 0x10, delta))
	r.PushVideo(dP(3, 6000, true, 0x10, delta))
	if len(v.data) != 1 {
		t.Fatal(len(v.data))
	}
'''),
 s("interrupted-not-damaged", "C14", "a frame whose start interrupts an unfinished one (marker packet lost before renumbering, or marker never set)",
   "a frame discarded because the next one starts does not close the keyframe gate",
   [(W, "					time.Since(r.frameStartTime), p.SequenceNumber)\n\n			r.currentFrame = nil\n			r.currentFrameInfo = nil\n			r.hasKeyFrame = false\n", "					time.Since(r.frameStartTime), p.SequenceNumber)\n\n			r.currentFrame = nil\n			r.currentFrameInfo = nil\n")],
   '''	r, v, _, _ := dRec(true)
	r.PushVideo(dP(1, 0, true, 0x10, key))
	r.PushVideo(dP(2, 3000, false, 0x10, delta))
	r.PushVideo(dP(3, 6000, true, 0x10, delta))
	if len(v.data) != 1 {
		t.Fatal(len(v.data))
	}
'''),
 s("keyframe-wait-longer", "C14", "video damaged again between one and two seconds after the last keyframe request",
   "the limit on keyframe requests counts from the time the keyframe arrived as well, so a loss soon afterwards asks for nothing",
   [(W, "				Tracef(\"Writing frame to WebM: pts=%d, isKey=%v, size=%d\",\n				newPts, isKeyFrame, frameSize)\n" if False else "		if isKeyFrame {\n			r.lastKeyFrameTime = time.Now()\n		}\n\n		log", "		if isKeyFrame {\n			r.lastKeyFrameTime = time.Now()\n			r.lastKeyframeRequestTime = r.lastKeyFrameTime.Add(time.Second)\n		}\n\n		log")],
   '''	r, _, _, a := dRec(true)
	r.PushVideo(dP(1, 0, true, 0x10, key))
	time.Sleep(1100 * time.Millisecond)
	n := a.n
	r.PushVideo(dP(2, 3000, false, 0x10, delta))
	r.PushVideo(dP(4, 6000, true, 0x10, delta))
	if a.n == n {
		t.Fatal("nothing asked")
	}
'''),
 s("rtp-wrap-duration", "C15", "an RTP timestamp that wraps around 2^32",
   "the duration is computed without wraparound: the video position jumps back by half a day",
   [(W, "float64(p.Timestamp-r.packetTimestamp)/float64(vp8SampleRate)", "(float64(p.Timestamp)-float64(r.packetTimestamp))/float64(vp8SampleRate)")],
   '''	r, v, _, _ := dRec(true)
	r.PushVideo(dP(1, 4294966000, true, 0x10, key))
	r.PushVideo(dP(2, 4294966000+1000, true, 0x10, delta))
	r.PushVideo(dP(3, 1704, true, 0x10, delta))
	if v.ts[2] < v.ts[1] {
		t.Fatal(v.ts)
	}
'''),
 s("audio-rounded", "C15", "audio samples whose length is not a whole number of milliseconds (2.5 ms Opus frames)",
   "each sample's duration is cut to whole milliseconds, so the audio falls behind the video",
   [(W, "			r.audioTimestamp += sample.Duration\n", "			r.audioTimestamp += sample.Duration.Truncate(time.Millisecond)\n")],
   '''	r, _, u, _ := dRec(true)
	for i := 0; i < 100; i++ {
		r.PushAudio(dP(uint16(i), uint32(i)*120, false, 1, []byte{2, 3}))
	}
	n := len(u.ts)
	if d := u.ts[n-1] - u.ts[0]; n < 90 || d < int64(n-1)*5/2-2 {
		t.Fatal(n, d)
	}
'''),
 s("builtin-after-close", "C16", "video for the built-in sampler that arrives after the recorder was closed",
   "the built-in video sampler writes to writers that are closed already",
   [(W, "	if len(packet.Payload) == 0 || r.closed {\n", "	if len(packet.Payload) == 0 || (r.closed && r.videoWriter == nil) {\n")],
   '''	r, v, _, _ := dRec(false)
	for i := 0; i < 4; i++ {
		r.PushVideo(dP(uint16(i), uint32(i)*3000, true, 0x10, key))
	}
	r.Close()
	n := len(v.data)
	for i := 4; i < 9; i++ {
		r.PushVideo(dP(uint16(i), uint32(i)*3000, true, 0x10, key))
	}
	if len(v.data) != n || v.closes != 1 {
		t.Fatal(n, len(v.data))
	}
'''),
 s("close-audio-only-twice", "C16", "closing an audio-only recording twice",
   "a recorder counts as closed only once it has closed a video writer",
   [(W, "	r.closed = true\n\n	if r.audioWriter != nil {", "	r.closed = r.videoWriter != nil || r.audioWriter == nil\n\n	if r.audioWriter != nil {")],
   '''	r, _, u, _ := dRec(true)
	r.SetHasVideo(false)
	r.videoWriter = nil
	r.Close()
	r.Close()
	if u.closes != 1 {
		t.Fatal(u.closes)
	}
'''),
 s("ivf-hundredth", "C21", "a recording of more than a hundred frames",
   "after the running frame count was stored the writer stays behind it, so the next frame overwrites the first ones",
   [(R + "/ivfwriter.go", "		writer.file.Seek(currentPos, io.SeekStart)\n", "		writer.file.Seek(currentPos, io.SeekCurrent)\n")],
   '''	d := dTmp(t)
	w, _ := NewIVFWriter(filepath.Join(d, "x.webm"))
	for i := 0; i < 150; i++ {
		w.WriteFrame(key, uint32(i), true)
	}
	w.Close()
	b, _ := os.ReadFile(filepath.Join(d, "x.ivf"))
	if len(b) != 32+150*(12+len(key)) {
		t.Fatal(len(b))
	}
'''),
 s("ivf-count-stale", "C21", "a frame count that is not a multiple of a hundred",
   "closing stores the frame count only when it was not stored on the way, leaving an outdated count",
   [(R + "/ivfwriter.go", "	// Update final frame count\n	writer.file.Seek(24, io.SeekStart)\n	binary.Write(writer.file, binary.LittleEndian, uint32(writer.frameCount))\n", "	// Update final frame count\n	if writer.frameCount < 100 {\n		writer.file.Seek(24, io.SeekStart)\n		binary.Write(writer.file, binary.LittleEndian, uint32(writer.frameCount))\n	}\n")],
   '''	d := dTmp(t)
	w, _ := NewIVFWriter(filepath.Join(d, "x.webm"))
	for i := 0; i < 130; i++ {
		w.WriteFrame(key, uint32(i), true)
	}
	w.Close()
	b, _ := os.ReadFile(filepath.Join(d, "x.ivf"))
	if binary.LittleEndian.Uint32(b[24:]) != 130 {
		t.Fatal(binary.LittleEndian.Uint32(b[24:]))
	}
'''),
 s("reopen-after-failure", "C25", "a failing write in a recording with audio and video, then a keyframe",
   "a failed write marks the video as not recorded, so the next keyframe starts the file over and everything before is lost",
   [(W, "				Errorf(\"Error writing video frame: %v\", err)\n			r.hasKeyFrame = false\n", "				Errorf(\"Error writing video frame: %v\", err)\n			r.hasKeyFrame = false\n			r.hasValidAudio = false\n")],
   '''	r, v, _, _ := dRec(true)
	r.file = filepath.Join(dTmp(t), "x.webm")
	r.PushVideo(dP(1, 0, true, 0x10, key))
	v.fail = 1
	r.PushVideo(dP(2, 3000, true, 0x10, delta))
	r.PushVideo(dP(3, 6000, true, 0x10, key))
	if r.videoWriter != v {
		t.Fatal("started over")
	}
'''),
 s("reopen-at-new-track", "C25", "the second track is announced again, or late, while both are being recorded",
   "announcing audio again forgets that it has been recorded: the next keyframe truncates the file",
   [(W, "	r.hasAudio = hasAudio\n", "	r.hasAudio = hasAudio\n	r.hasValidAudio = false\n")],
   '''	r, v, _, _ := dRec(true)
	r.file = filepath.Join(dTmp(t), "x.webm")
	r.PushVideo(dP(1, 0, true, 0x10, key))
	r.SetHasAudio(true)
	r.PushVideo(dP(2, 3000, true, 0x10, key))
	if r.videoWriter != v {
		t.Fatal("started over")
	}
'''),
]
