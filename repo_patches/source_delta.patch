From 8faf6e83025ee3d9e8e157f37a5af0c802d3acbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 01/28] fix: receive log ignores packets older than its window
 instead of marking newer ones received

---
 internal/webrtc/utils/receive_log.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/webrtc/utils/receive_log.go b/internal/webrtc/utils/receive_log.go
index bef0e7a..d3c3a16 100644
--- a/internal/webrtc/utils/receive_log.go
+++ b/internal/webrtc/utils/receive_log.go
@@ -65,6 +65,10 @@ func (s *ReceiveLog) Add(seq uint16) {
 		}
 	} else {
 		// negative diff, seq < end (with counting for rollovers)
+		if s.end-seq >= s.size {
+			// too old: its slot belongs to a newer packet by now
+			return
+		}
 		if s.lastConsecutive+1 == seq {
 			s.lastConsecutive = seq
 			s.fixLastConsecutive() // there might be other valid packets after seq
@@ -107,6 +111,10 @@ func (s *ReceiveLog) MissingSeqNumbers(skipLastN uint16) []uint16 {
 func (s *ReceiveLog) IgnoreSeqNum(seq uint16) {
 	// Forcefully mark this packet as received - used in scenarios where we
 	// we give up on NACKing a packet
+	if !s.started || s.end-seq >= s.size {
+		// not in the buffer: its slot belongs to another packet
+		return
+	}
 	s.set(seq)
 
 	// If this seqnum was blocking, ffw it
-- 
2.43.0


From 270121b3fbc5c6c5a09584ecd7b0b5eafa146aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 02/28] fix: receive log of 32768 packets reports a completely
 missing window

---
 internal/webrtc/utils/receive_log.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/webrtc/utils/receive_log.go b/internal/webrtc/utils/receive_log.go
index d3c3a16..ba5f253 100644
--- a/internal/webrtc/utils/receive_log.go
+++ b/internal/webrtc/utils/receive_log.go
@@ -92,11 +92,11 @@ func (s *ReceiveLog) Get(seq uint16) bool {
 }
 
 func (s *ReceiveLog) MissingSeqNumbers(skipLastN uint16) []uint16 {
-	until := s.end - skipLastN
-	if until-s.lastConsecutive >= uint16SizeHalf {
+	if skipLastN > s.end-s.lastConsecutive {
 		// until < s.lastConsecutive (counting for rollover)
 		return nil
 	}
+	until := s.end - skipLastN
 
 	missingPacketSeqNums := make([]uint16, 0)
 	for i := s.lastConsecutive + 1; i != until+1; i++ {
-- 
2.43.0


From 91c013d78b568dbed90feab744617920c966c25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 03/28] fix: a late packet does not move the send buffer
 backwards or replace a newer packet

---
 internal/webrtc/utils/send_buffer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/webrtc/utils/send_buffer.go b/internal/webrtc/utils/send_buffer.go
index 54e606a..7e41393 100644
--- a/internal/webrtc/utils/send_buffer.go
+++ b/internal/webrtc/utils/send_buffer.go
@@ -58,6 +58,12 @@ func (s *SendBuffer) Add(packet *rtp.Packet) {
 		for i := s.lastAdded + 1; i != seq; i++ {
 			s.packets[i%s.size] = nil
 		}
+	} else {
+		// late packet: store it only if its slot is not taken by a newer one
+		if s.lastAdded-seq < s.size {
+			s.packets[seq%s.size] = packet
+		}
+		return
 	}
 
 	s.packets[seq%s.size] = packet
-- 
2.43.0


From 03bf3eef3547f97b1ad23369609be6f5b3adfa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 04/28] fix: jitter buffer does not mistake position 0 for 'no
 packet yet'

---
 internal/webrtc/utils/jitter_buffer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/webrtc/utils/jitter_buffer.go b/internal/webrtc/utils/jitter_buffer.go
index 93d670f..9469843 100644
--- a/internal/webrtc/utils/jitter_buffer.go
+++ b/internal/webrtc/utils/jitter_buffer.go
@@ -8,6 +8,7 @@ import (
 )
 
 type JitterBuffer struct {
+	started              bool
 	nextStart            int64
 	end                  int64
 	packets              []*rtp.Packet
@@ -49,10 +50,13 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 		return false
 	}
 
-	if s.nextStart == 0 {
+	if !s.started {
+		s.started = true
 		log.WithField("session", s.ctx.Value("session")).
 			Tracef("First packet in jitter buffer: seq=%d", seq)
-		s.nextStart = seq
+		if s.nextStart < seq {
+			s.nextStart = seq
+		}
 	}
 
 	if seq > s.end {
@@ -89,7 +93,7 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 func (s *JitterBuffer) NextPackets() ([]*rtp.Packet, bool) {
 	skippedPacket := false
 
-	if s.nextStart > s.end {
+	if !s.started || s.nextStart > s.end {
 		return nil, false
 	}
 
-- 
2.43.0


From f2ff62aceddbd5f847e84c87039bbb7d9c3eda47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 05/28] fix: a skip of position 0 is reported like any other

---
 internal/webrtc/utils/jitter_buffer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/utils/jitter_buffer.go b/internal/webrtc/utils/jitter_buffer.go
index 9469843..a21f408 100644
--- a/internal/webrtc/utils/jitter_buffer.go
+++ b/internal/webrtc/utils/jitter_buffer.go
@@ -16,6 +16,7 @@ type JitterBuffer struct {
 	missingPacketTimers  map[int64]time.Time
 	packetTimeout        time.Duration
 	lastSkippedSeq       int64
+	hasLastSkipped       bool
 	ctx                  context.Context
 }
 
@@ -117,6 +118,7 @@ func (s *JitterBuffer) NextPackets() ([]*rtp.Packet, bool) {
 			Debugf("Skipping missing packet after timeout: seq=%d", s.nextStart)
 		delete(s.missingPacketTimers, s.nextStart)
 		s.lastSkippedSeq = s.nextStart
+		s.hasLastSkipped = true
 		s.nextStart++
 		skippedPacket = true
 
@@ -159,6 +161,7 @@ func (s *JitterBuffer) SkipPacket(seq int64) {
 		log.WithField("session", s.ctx.Value("session")).
 			Debugf("Skipping missing packet in jitter buffer: seq=%d", seq)
 				s.lastSkippedSeq = seq
+				s.hasLastSkipped = true
 				s.SetNextPacketsStart(seq + 1)
 	}
 }
@@ -181,12 +184,13 @@ func (s *JitterBuffer) GetNextStart() int64 {
 }
 
 func (s *JitterBuffer) GetAndClearLastSkipped() (int64, bool) {
-	if s.lastSkippedSeq == 0 {
+	if !s.hasLastSkipped {
 		return 0, false
 	}
 
 	skipped := s.lastSkippedSeq
 	s.lastSkippedSeq = 0
+	s.hasLastSkipped = false
 
 	return skipped, true
 }
-- 
2.43.0


From 5e4c742ce16507bf5c7ec6650eb8d5d02b8d89bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 06/28] fix: an undecodable control message no longer
 dereferences a nil event

---
 internal/pubsub/events/events.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index eff67b3..10a4795 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -44,10 +44,13 @@ type LiveKitConfig struct {
 }
 
 func (e *Event) IsValid() bool {
-	return e.Id != ""
+	return e != nil && e.Id != ""
 }
 
 func (e *Event) StartRecording() *StartRecording {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StartRecording); ok {
 		return ev
 	}
@@ -55,6 +58,9 @@ func (e *Event) StartRecording() *StartRecording {
 }
 
 func (e *Event) StartRecordingResponse() *StartRecordingResponse {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StartRecordingResponse); ok {
 		return ev
 	}
@@ -62,6 +68,9 @@ func (e *Event) StartRecordingResponse() *StartRecordingResponse {
 }
 
 func (e *Event) StopRecording() *StopRecording {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StopRecording); ok {
 		return ev
 	}
@@ -346,6 +355,9 @@ type GetRecorderStatus struct {
 }
 
 func (e *Event) GetRecorderStatus() *GetRecorderStatus {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*GetRecorderStatus); ok {
 		return ev
 	}
-- 
2.43.0


From f8690b93378e84448abf5375f99294d3c81e3006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 07/28] fix: a start request that fails is answered once, with
 a failure, and leaves no session behind

---
 internal/server/server.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index e5864fc..f01706e 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -82,6 +82,8 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 			if _, err := sess.StartRecording(e); err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
+				sess.StopRecording()
+				s.CloseSession(e.SessionId)
 				s.PublishPubSub(e.Fail(err))
 				return
 			}
@@ -97,6 +99,10 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 				return
 			}
 
+			wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
+			sess := NewSession(e.SessionId, s, wrtc, nil, rec)
+			s.sessions.Store(e.SessionId, sess)
+
 			var sdp string
 			func() {
 				defer func() {
@@ -105,18 +111,19 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 					}
 				}()
 
-				wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
-				sess := NewSession(e.SessionId, s, wrtc, nil, rec)
-				s.sessions.Store(e.SessionId, sess)
 				sdp, err = sess.StartRecording(e)
-				s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
 			}()
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
+				sess.StopRecording()
+				s.CloseSession(e.SessionId)
 				s.PublishPubSub(e.Fail(err))
+				return
 			}
 
+			s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
+
 		default:
 			err := fmt.Errorf("unknown adapter type: %s", e.Adapter)
 			log.WithField("session", ctx.Value("session")).Error(err)
-- 
2.43.0


From acfb2fe46da26a337f60fd18f82ac25702b0b468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 08/28] fix: mediasoup session setters and initialisation keep
 what they are given (pointer receivers)

---
 internal/webrtc/webrtc.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 3643769..38c00f5 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -51,19 +51,19 @@ func NewWebRTC(ctx context.Context, cfg config.WebRTC) *WebRTC {
 	}
 }
 
-func (w WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
+func (w *WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
 	w.connStateCallbackFn = fn
 }
 
-func (w WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
+func (w *WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
 	w.flowCallback = fn
 }
 
-func (w WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
+func (w *WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
 	w.sdpOffer = offer
 }
 
-func (w WebRTC) validateInitParams() error {
+func (w *WebRTC) validateInitParams() error {
 	if w.connStateCallbackFn == nil {
 		return errors.New("connStateCallbackFn is not set")
 	}
@@ -79,7 +79,7 @@ func (w WebRTC) validateInitParams() error {
 	return nil
 }
 
-func (w WebRTC) Init(
+func (w *WebRTC) Init(
 	rec recorder.Recorder,
 ) (webrtc.SessionDescription, error) {
 	if err := w.validateInitParams(); err != nil {
@@ -480,13 +480,13 @@ func (w WebRTC) Init(
 	return *peerConnection.LocalDescription(), nil
 }
 
-func (w WebRTC) RequestKeyframe() {
+func (w *WebRTC) RequestKeyframe() {
 	for _, ssrc := range w.videoTrackSSRCs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
 
-func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	err := w.pc.WriteRTCP([]rtcp.Packet{&rtcp.PictureLossIndication{MediaSSRC: ssrc}})
 
 	if err != nil {
@@ -506,7 +506,7 @@ func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	w.pliStats[ssrc] = PLITracker{count: w.pliStats[ssrc].count + 1, timestamp: time.Now()}
 }
 
-func (w WebRTC) Close() error {
+func (w *WebRTC) Close() error {
 	return w.pc.Close()
 }
 
-- 
2.43.0


From fd70e398a59f2e33133f604c45029134d9a516a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 09/28] fix: a stop request and a connection loss at the same
 time close the recorder once

---
 internal/server/session.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/internal/server/session.go b/internal/server/session.go
index ce47407..e850e4e 100644
--- a/internal/server/session.go
+++ b/internal/server/session.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus"
@@ -18,6 +19,7 @@ type Session struct {
 	webrtc   *webrtc.WebRTC
 	livekit  *livekit.LiveKitWebRTC
 	recorder recorder.Recorder
+	m        sync.Mutex
 	stopped  bool
 }
 
@@ -39,9 +41,8 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 		signal.Decode(e.GetSDP(), &offer)
 		s.webrtc.SetConnectionStateCallback(func(state pwebrtc.ICEConnectionState) {
 			if state > pwebrtc.ICEConnectionStateConnected {
-				if !s.stopped {
-					ts := s.StopRecording() / time.Millisecond
-					s.server.PublishPubSub(events.NewRecordingStopped(s.id, state.String(), ts))
+				if ts, ok := s.stop(); ok {
+					s.server.PublishPubSub(events.NewRecordingStopped(s.id, state.String(), ts/time.Millisecond))
 					s.server.CloseSession(s.id)
 				}
 			}
@@ -88,10 +89,21 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 }
 
 func (s *Session) StopRecording() time.Duration {
-	if !s.stopped {
-		s.stopped = true
-		prometheus.Sessions.Dec()
-		return s.recorder.Close()
+	ts, _ := s.stop()
+	return ts
+}
+
+// stop closes the recorder unless that was done before. Stop requests and
+// connection state changes arrive on different goroutines.
+func (s *Session) stop() (time.Duration, bool) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	if s.stopped {
+		return 0, false
 	}
-	return 0
+
+	s.stopped = true
+	prometheus.Sessions.Dec()
+	return s.recorder.Close(), true
 }
-- 
2.43.0


From f4ff37c30bee6b18522abc07cf9265f7b73f33cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 10/28] fix: recordings stay inside the recording directory
 whatever name is requested

---
 internal/webrtc/recorder/recorder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 5f1f2b5..95468e1 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -41,7 +41,8 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 	}
 
 	if !cfg.WriteToDevNull {
-		file = path.Clean(dir + string(os.PathSeparator) + file)
+		// Rooting the name before cleaning it keeps ".." from leaving the directory
+		file = path.Clean(dir + string(os.PathSeparator) + path.Clean(string(os.PathSeparator)+file))
 		fileDir := path.Dir(file)
 
 		if _, err := os.Stat(fileDir); err != nil {
-- 
2.43.0


From 070e73a6ac413a0a2bf66d9fc8f700f6b8961392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:01 +0000
Subject: [PATCH 11/28] fix: an unsupported file extension is refused before
 directories are created

---
 internal/webrtc/recorder/recorder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 95468e1..f8ff425 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -85,6 +85,11 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 
 func NewRecorder(ctx context.Context, cfg config.Recorder, file string) (Recorder, error) {
 	ext := filepath.Ext(file)
+
+	if ext != ".webm" {
+		return nil, fmt.Errorf("unsupported file extension %s", ext)
+	}
+
 	file, fileMode, err := ValidateAndPrepareFile(ctx, cfg, file)
 
 	if err != nil {
-- 
2.43.0


From 08cd7990a38eab1a678c3b3db747690d05a602f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 12/28] fix: malformed VP8 payloads do not crash the recorder

---
 internal/webrtc/recorder/webm.go | 47 ++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index dbffd08..3439222 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -292,6 +292,13 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		return
 	}
 
+	// The sample builder does not survive malformed packets
+	if _, err := unmarshalVP8(packet.Payload); err != nil {
+		log.WithField("session", r.ctx.Value("session")).
+			Debugf("Failed to unmarshal VP8 packet: seq=%d, err=%v", packet.SequenceNumber, err)
+		return
+	}
+
 	isKeyFrame := IsVP8KeyFrame(packet)
 
 	if isKeyFrame {
@@ -446,14 +453,30 @@ func validateVP8Frame(frame []byte, frameInfo *VP8FrameInfo) (bool, string) {
 	return true, ""
 }
 
-func IsVP8KeyFrame(packet *rtp.Packet) bool {
-	if len(packet.Payload) == 0 {
-		return false
+// unmarshalVP8 parses a VP8 RTP payload, which must carry at least one byte of
+// VP8 data. codecs.VP8Packet checks all lengths except that of a 16 bit PictureID.
+func unmarshalVP8(payload []byte) (codecs.VP8Packet, error) {
+	vp8Packet := codecs.VP8Packet{}
+
+	if len(payload) == 3 && payload[0]&payload[1]&payload[2]&0x80 != 0 {
+		return vp8Packet, fmt.Errorf("truncated VP8 PictureID")
 	}
 
-	vp8Packet := codecs.VP8Packet{}
+	if _, err := vp8Packet.Unmarshal(payload); err != nil {
+		return vp8Packet, err
+	}
+
+	if len(vp8Packet.Payload) == 0 {
+		return vp8Packet, fmt.Errorf("empty VP8 payload")
+	}
 
-	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
+	return vp8Packet, nil
+}
+
+func IsVP8KeyFrame(packet *rtp.Packet) bool {
+	vp8Packet, err := unmarshalVP8(packet.Payload)
+
+	if err != nil {
 		return false
 	}
 
@@ -461,17 +484,13 @@ func IsVP8KeyFrame(packet *rtp.Packet) bool {
 }
 
 func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
-	if len(packet.Payload) == 0 {
-		return 0, 0
-	}
-
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet, err := unmarshalVP8(packet.Payload)
 
-	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
+	if err != nil {
 		return 0, 0
 	}
 
-	if vp8Packet.S != 0 || vp8Packet.PID != 0 {
+	if vp8Packet.S == 0 || vp8Packet.PID != 0 || len(vp8Packet.Payload) < 10 {
 		return 0, 0
 	}
 
@@ -527,9 +546,9 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	r.expectedNextSeq = p.SequenceNumber + 1
 	r.lastProcessedSeq = p.SequenceNumber
 
-	vp8Packet := codecs.VP8Packet{}
+	vp8Packet, err := unmarshalVP8(p.Payload)
 
-	if _, err := vp8Packet.Unmarshal(p.Payload); err != nil {
+	if err != nil {
 		log.WithField("session", r.ctx.Value("session")).
 			Debugf("Failed to unmarshal VP8 packet: seq=%d, err=%v", p.SequenceNumber, err)
 		r.hasKeyFrame = false
-- 
2.43.0


From f5d7d19b289095d34dca9c4776e8a99cbb419f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 13/28] fix: a video frame interrupted by a sequence gap or a
 malformed packet is discarded

---
 internal/webrtc/recorder/webm.go | 40 +++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 3439222..8443e86 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -501,6 +501,24 @@ func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
 	return width, height
 }
 
+// discardFrame drops the frame in progress, if any. The stream is damaged then:
+// nothing is recorded until the next keyframe.
+func (r *WebmRecorder) discardFrame(reason string) {
+	var logMsgPkts = 0
+
+	if r.currentFrameInfo != nil {
+		logMsgPkts = len(r.currentFrameInfo.packets)
+	}
+
+	log.WithField("session", r.ctx.Value("session")).
+		Warnf("Discarding partial frame: %s, pkts=%v", reason, logMsgPkts)
+
+	r.currentFrame = nil
+	r.currentFrameInfo = nil
+	r.hasKeyFrame = false
+	r.RequestKeyframe()
+}
+
 func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	if !r.hasVideo {
 		return
@@ -524,25 +542,16 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 			log.WithField("session", r.ctx.Value("session")).
 				Debugf("Processing first packet after skip: seq=%d, last_skipped=%d",
 					p.SequenceNumber, r.lastSkippedSeq)
-
-			// Force treating this as a new frame start for safety
-			if r.currentFrame != nil {
-				var logMsgPkts = 0
-
-				if r.currentFrameInfo != nil {
-					logMsgPkts = len(r.currentFrameInfo.packets)
-				}
-
-				log.WithField("session", r.ctx.Value("session")).
-					Warnf("Discarding partial frame after skip boundary: pkts=%v", logMsgPkts)
-				r.currentFrame = nil
-				r.currentFrameInfo = nil
-			}
 		}
 
 		r.skipSignaled = false
 	}
 
+	// A frame in progress has lost at least one packet, discard it
+	if r.currentFrame != nil && p.SequenceNumber != r.expectedNextSeq {
+		r.discardFrame("sequence discontinuity")
+	}
+
 	r.expectedNextSeq = p.SequenceNumber + 1
 	r.lastProcessedSeq = p.SequenceNumber
 
@@ -551,8 +560,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	if err != nil {
 		log.WithField("session", r.ctx.Value("session")).
 			Debugf("Failed to unmarshal VP8 packet: seq=%d, err=%v", p.SequenceNumber, err)
-		r.hasKeyFrame = false
-		r.RequestKeyframe()
+		r.discardFrame("malformed packet")
 		return
 	}
 
-- 
2.43.0


From 971f763262d091401dbb31f9a43854feb72494eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 14/28] fix: a later partition of a VP8 frame does not start a
 frame, and can end one

---
 internal/webrtc/recorder/webm.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 8443e86..958898b 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -579,15 +579,13 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	if vp8Packet.S == 1 && vp8Packet.PID > 0 {
 		log.WithField("session", r.ctx.Value("session")).
 			Warnf("Mid-frame partition detected: seq=%d, PID=%d", p.SequenceNumber, vp8Packet.PID)
-		if r.currentFrameInfo != nil {
-			r.currentFrameInfo.packets = append(r.currentFrameInfo.packets, p.SequenceNumber)
-			r.currentFrame = append(r.currentFrame, vp8Packet.Payload[0:]...)
-			return
-		}
 	}
 
+	// A frame starts with the start of its first partition
+	isFrameStart := vp8Packet.S == 1 && vp8Packet.PID == 0
+
 	// NEW FRAME!
-	if vp8Packet.S == 1 {
+	if isFrameStart {
 		// OLD FRAME, but not complete. Discard it.
 		if r.currentFrame != nil && len(r.currentFrame) > 0 {
 			var logMsgPkts = "none"
@@ -722,7 +720,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		r.currentFrame = nil
 		r.currentFrameInfo = nil
 		return
-	case r.currentFrame == nil && vp8Packet.S != 1:
+	case r.currentFrame == nil && !isFrameStart:
 		log.WithField("session", r.ctx.Value("session")).
 			Debugf("Dropping continuation packet without start bit: seq=%d", p.SequenceNumber)
 		r.currentFrameInfo = nil
-- 
2.43.0


From 400981d8af15fea9bb19e10d7171f51bc37764c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 15/28] fix: keyframes of several packets are flagged as
 keyframes in the recording

---
 internal/webrtc/recorder/webm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 958898b..00292d4 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -834,6 +834,9 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	r.lastFrameSize = len(r.currentFrame)
 	r.corruptedFrameCount = 0 // Reset corruption counter on valid frame
 
+	// A frame is a keyframe if its first packet says so
+	isKeyFrame = r.currentFrameInfo != nil && r.currentFrameInfo.isKeyFrame
+
 	frameSize := len(r.currentFrame)
 	log.WithField("session", r.ctx.Value("session")).
 		Tracef("Assembled complete VP8 frame: keyframe=%v, size=%d",
-- 
2.43.0


From bb1a6607f2a0239d7264cb8b6738ea8cb1fa062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 16/28] fix: the recording is (re)started at a keyframe only

---
 internal/webrtc/recorder/webm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 00292d4..81c51b0 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -854,9 +854,10 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	// 1. We don't have a video writer yet and we have video
 	// 2. We don't have an audio writer yet and we have audio
 	// 3. We have both tracks but haven't received valid samples from both yet
-	if (r.videoWriter == nil && r.hasVideo) ||
+	// The recording has to start with a keyframe, which also has the dimensions
+	if isKeyFrame && ((r.videoWriter == nil && r.hasVideo) ||
 		(r.audioWriter == nil && r.hasAudio) ||
-		(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio)) {
+		(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio))) {
 
 		raw := uint(r.currentFrame[6]) | uint(r.currentFrame[7])<<8 | uint(r.currentFrame[8])<<16 | uint(r.currentFrame[9])<<24
 		width := int(raw & 0x3FFF)
-- 
2.43.0


From 71cb93e9697c62e3a3a4712b86c1c7f805d961e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 17/28] fix: the built-in video sampler does not restart the
 recording at every keyframe and takes the dimensions from the keyframe

---
 internal/webrtc/recorder/webm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 81c51b0..a7c4a4e 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -328,7 +328,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		if isKf && ((r.videoWriter == nil && r.hasVideo) ||
 			(r.audioWriter == nil && r.hasAudio) ||
 			(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio))) {
-			width, height := GetVP8KFDimension(packet)
+			width, height := GetVP8KFDimension(r.currKeyFrame)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
 			r.initWriter(width, height)
@@ -345,6 +345,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("VP8 frame written: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
+			r.hasValidVideo = true
 		}
 
 		if r.writeIVFCopy {
-- 
2.43.0


From 5af7d32e29b83bea6f84514d5e718f11c6cdc53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 18/28] fix: IVF copy keeps its header and gets the frames of
 the built-in sampler

---
 internal/webrtc/recorder/ivfwriter.go |  2 +-
 internal/webrtc/recorder/webm.go      | 18 +++++-------------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/internal/webrtc/recorder/ivfwriter.go b/internal/webrtc/recorder/ivfwriter.go
index a1d1108..8a21025 100644
--- a/internal/webrtc/recorder/ivfwriter.go
+++ b/internal/webrtc/recorder/ivfwriter.go
@@ -94,7 +94,7 @@ func (writer *IVFWriter) writeIVFHeader(width, height uint16) error {
 		return err
 	}
 
-	_, err = writer.file.Seek(0, io.SeekStart)
+	_, err = writer.file.Seek(0, io.SeekEnd)
 	return err
 }
 
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index a7c4a4e..4ddd353 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -349,7 +349,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		}
 
 		if r.writeIVFCopy {
-			r.pushToIVFWriter(sample.Data, packet)
+			r.pushToIVFWriter(sample.Data, ts, isKf)
 		}
 	}
 }
@@ -915,7 +915,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 
 		if r.writeIVFCopy {
-			r.pushToIVFWriter(r.currentFrame, p)
+			r.pushToIVFWriter(r.currentFrame, p.Timestamp, isKeyFrame)
 		}
 
 		r.hasValidVideo = true
@@ -942,16 +942,8 @@ func (r *WebmRecorder) startIVFWriter() error {
 	return nil
 }
 
-func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
-	if r.ivfWriter != nil && len(r.currentFrame) > 0 {
-		isKeyFrame := false
-
-		if r.currentFrameInfo != nil {
-			isKeyFrame = r.currentFrameInfo.isKeyFrame
-		} else {
-			isKeyFrame = IsVP8KeyFrame(p)
-		}
-
+func (r *WebmRecorder) pushToIVFWriter(frame []byte, timestamp uint32, isKeyFrame bool) {
+	if r.ivfWriter != nil && len(frame) > 0 {
 		if isKeyFrame && len(frame) >= 10 {
 			raw := uint(frame[6]) | uint(frame[7])<<8 | uint(frame[8])<<16 | uint(frame[9])<<24
 			width := uint16(raw & 0x3FFF)
@@ -960,7 +952,7 @@ func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
 			r.ivfWriter.UpdateDimensions(width, height)
 		}
 
-		err := r.ivfWriter.WriteFrame(frame, p.Timestamp, isKeyFrame)
+		err := r.ivfWriter.WriteFrame(frame, timestamp, isKeyFrame)
 
 		if err != nil {
 			log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From dfea8fc502ec5d017d9ab07eed6f57d51018b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 19/28] fix: --dump with a negative list index fails cleanly

---
 internal/app/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/app/config.go b/internal/app/config.go
index 3234eaa..e536028 100644
--- a/internal/app/config.go
+++ b/internal/app/config.go
@@ -32,7 +32,7 @@ func dumpConfig() {
 			}
 			switch v.(type) {
 			case []interface{}:
-				if i == nil || len(v.([]interface{})) < *i+1 {
+				if i == nil || *i < 0 || len(v.([]interface{})) < *i+1 {
 					v = nil
 					goto _break
 				}
-- 
2.43.0


From 975e227f299f4eca9109b1e4736a8d26e14acd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 20/28] fix: SDP answers for unknown sessions do not crash the
 web server, and the table of waiting requests is locked

---
 internal/server/http.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/internal/server/http.go b/internal/server/http.go
index 666d7f8..7244619 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -9,6 +9,7 @@ import (
 	"net/http"
 	"path"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -37,13 +38,21 @@ func NewHTTPServer(cfg *config.Config, ps pubsub.PubSub) *HTTPServer {
 }
 
 func (s *HTTPServer) Serve() {
-	answerChannels := make(map[string]*chan string)
+	var m sync.Mutex
+	answerChannels := make(map[string]chan string)
 	go s.pubsub.Subscribe(s.cfg.PubSub.Channels.Publish,
 		func(ctx context.Context, msg []byte) {
 			event := events.Decode(msg)
 			if e := event.StartRecordingResponse(); e != nil {
 				if e.SDP != nil {
-					*answerChannels[e.SessionId] <- *e.SDP
+					m.Lock()
+					answerChan, ok := answerChannels[e.SessionId]
+					delete(answerChannels, e.SessionId)
+					m.Unlock()
+
+					if ok {
+						answerChan <- *e.SDP
+					}
 				}
 			}
 		},
@@ -54,8 +63,11 @@ func (s *HTTPServer) Serve() {
 	go s.serve(func(sdp string) string {
 		t := time.Now()
 		sessId := t.Format("20060102150405")
-		answerChan := make(chan string)
-		answerChannels[sessId] = &answerChan
+		// Buffered: answers are handed over without waiting for the request
+		answerChan := make(chan string, 1)
+		m.Lock()
+		answerChannels[sessId] = answerChan
+		m.Unlock()
 		e := events.StartRecording{
 			Id:        "startRecording",
 			SessionId: sessId,
@@ -69,9 +81,7 @@ func (s *HTTPServer) Serve() {
 		}
 		j, _ := json.Marshal(e)
 		s.pubsub.Publish(s.cfg.PubSub.Channels.Subscribe, j)
-		answer := <-answerChan
-		delete(answerChannels, sessId)
-		return answer
+		return <-answerChan
 	})
 }
 
-- 
2.43.0


From 1fc6511eca910a5672edbe03763e300f0ec96cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 21/28] fix: the SDP answer is not a format string

---
 internal/server/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/server/http.go b/internal/server/http.go
index 7244619..2f22154 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -95,7 +95,7 @@ func (s *HTTPServer) serve(handler func(string) string) {
 			return
 		}
 		response := handler(string(body))
-		fmt.Fprintf(w, response)
+		fmt.Fprint(w, response)
 	})
 
 	http.Handle("/media/", http.StripPrefix("/media", http.FileServer(http.Dir(s.mediaRoot))))
-- 
2.43.0


From 79ba380aa68add4b8573a0c2332bb8ccb581db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:36 +0000
Subject: [PATCH 22/28] fix: LiveKit flow check runs while the track does,
 without deadlock or nil state

---
 internal/webrtc/livekit/livekit.go | 62 +++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 33e6130..3934d27 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -178,7 +178,10 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 		}
 	}
 
+	w.m.Lock()
 	w.remoteParticipants = remoteParticipants
+	w.m.Unlock()
+
 	return subscribedTracks, nil
 }
 
@@ -211,11 +214,19 @@ func (w *LiveKitWebRTC) RequestKeyframe() {
 		Tracef("Requesting keyframe for SSRCs %s", strings.Join(ssrcs, ", "))
 
 	for ssrc := range w.pliStats {
-		w.RequestKeyframeForSSRC(uint32(ssrc))
+		w.requestKeyframeForSSRC(uint32(ssrc))
 	}
 }
 
 func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+	w.m.Lock()
+	defer w.m.Unlock()
+
+	w.requestKeyframeForSSRC(ssrc)
+}
+
+// Locked
+func (w *LiveKitWebRTC) requestKeyframeForSSRC(ssrc uint32) {
 	if w.room == nil {
 		return
 	}
@@ -244,6 +255,10 @@ func (w *LiveKitWebRTC) updateFlowState(trackID string, seqNum uint16, timestamp
 	w.m.Lock()
 	defer w.m.Unlock()
 
+	w.updateFlowStateLocked(trackID, seqNum, timestamp)
+}
+
+func (w *LiveKitWebRTC) updateFlowStateLocked(trackID string, seqNum uint16, timestamp time.Duration) {
 	state, exists := w.flowState[trackID]
 
 	if !exists {
@@ -318,13 +333,21 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 		// TODO: plug logger
 	)
 
+	// Closed when the track ends
+	done := make(chan struct{})
+
 	w.m.Lock()
 	w.jitterBuffers[trackID] = buffer
 
+	if isVideo {
+		w.pliStats[uint32(track.SSRC())] = PLITracker{count: 0, timestamp: time.Now()}
+	}
+	w.m.Unlock()
+
 	if isVideo {
 		ssrc := uint32(track.SSRC())
-		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
 
+		// Not while holding the lock: the recorder requests keyframes holding its own
 		if kfr, ok := w.handler.(interface {
 			SetKeyframeRequester(interfaces.KeyframeRequester)
 		}); ok {
@@ -333,10 +356,6 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 
 		// Start periodic PLI requests - 3s to be similar to the other adapter,
 		// but LK is smarter than this. TODO remove later
-		done := make(chan bool)
-		defer func() {
-			done <- true
-		}()
 		go func() {
 			ticker := time.NewTicker(time.Second * 3)
 			for {
@@ -350,42 +369,41 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			}
 		}()
 	}
-	w.m.Unlock()
 
-	flowCheckDone := make(chan bool)
-	defer func() {
-		flowCheckDone <- true
-	}()
 	go func() {
 		ticker := time.NewTicker(time.Millisecond * 100)
 		var lastSeqNum uint16
 		for {
 			select {
-			case <-flowCheckDone:
+			case <-done:
 				ticker.Stop()
 				return
 			case <-ticker.C:
 				w.m.Lock()
-				state, exists := w.flowState[trackID]
 
-				if exists && state.lastSeqNum == lastSeqNum {
-					// No new packets received == not flowing
-					w.updateFlowState(trackID, state.lastSeqNum, state.lastTimestamp)
-				}
+				if state, exists := w.flowState[trackID]; exists {
+					if state.lastSeqNum == lastSeqNum {
+						// No new packets received == not flowing
+						w.updateFlowStateLocked(trackID, state.lastSeqNum, state.lastTimestamp)
+					}
 
-				if state.isFlowing {
-					ticker.Reset(time.Millisecond * 1000)
-				} else {
-					ticker.Reset(time.Millisecond * 100)
+					if state.isFlowing {
+						ticker.Reset(time.Millisecond * 1000)
+					} else {
+						ticker.Reset(time.Millisecond * 100)
+					}
+
+					lastSeqNum = state.lastSeqNum
 				}
 
-				lastSeqNum = state.lastSeqNum
 				w.m.Unlock()
 			}
 		}
 	}()
 
 	go func() {
+		defer close(done)
+
 		for {
 			packet, _, err := track.ReadRTP()
 
-- 
2.43.0


From 68494603a530907d3b95b5af68b9e829b4af6a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 23/28] fix: packet gaps that empty the sample builder do not
 crash the recorder

---
 internal/webrtc/recorder/samplequeue.go | 74 +++++++++++++++++++++++++
 internal/webrtc/recorder/webm.go        | 11 ++--
 2 files changed, 79 insertions(+), 6 deletions(-)
 create mode 100644 internal/webrtc/recorder/samplequeue.go

diff --git a/internal/webrtc/recorder/samplequeue.go b/internal/webrtc/recorder/samplequeue.go
new file mode 100644
index 0000000..11e7f11
--- /dev/null
+++ b/internal/webrtc/recorder/samplequeue.go
@@ -0,0 +1,74 @@
+package recorder
+
+import (
+	"time"
+
+	"github.com/jech/samplebuilder"
+	"github.com/pion/rtp"
+	"github.com/pion/webrtc/v3/pkg/media"
+	log "github.com/sirupsen/logrus"
+)
+
+// sampleQueue is a sample builder that survives packet gaps. The builder panics
+// when the free space for a gap leaves no packet in its buffer: the queue then
+// goes on with an empty builder.
+type sampleQueue struct {
+	builder      *samplebuilder.SampleBuilder
+	maxLate      uint16
+	depacketizer rtp.Depacketizer
+	sampleRate   uint32
+
+	// RTP timestamp of the last sample
+	lastTimestamp uint32
+	hasTimestamp  bool
+	// The builder has not returned a sample since it was replaced
+	restarted bool
+}
+
+func newSampleQueue(maxLate uint16, depacketizer rtp.Depacketizer, sampleRate uint32) *sampleQueue {
+	return &sampleQueue{
+		builder:      samplebuilder.New(maxLate, depacketizer, sampleRate),
+		maxLate:      maxLate,
+		depacketizer: depacketizer,
+		sampleRate:   sampleRate,
+	}
+}
+
+// restart replaces a builder that panicked. It has to be deferred.
+func (q *sampleQueue) restart() {
+	if e := recover(); e != nil {
+		log.Warnf("Sample builder failed, starting over: %v", e)
+		q.builder = samplebuilder.New(q.maxLate, q.depacketizer, q.sampleRate)
+		q.restarted = true
+	}
+}
+
+func (q *sampleQueue) Push(packet *rtp.Packet) {
+	defer q.restart()
+	q.builder.Push(packet)
+}
+
+// Pop returns the next sample and its RTP timestamp, or nil if there is none.
+func (q *sampleQueue) Pop() (*media.Sample, uint32) {
+	sample, ts := q.pop()
+
+	if sample == nil {
+		return nil, 0
+	}
+
+	// A new builder does not know when the last sample was
+	if q.restarted && q.hasTimestamp {
+		sample.Duration = time.Duration(float64(ts-q.lastTimestamp) / float64(q.sampleRate) * float64(time.Second))
+	}
+
+	q.restarted = false
+	q.lastTimestamp = ts
+	q.hasTimestamp = true
+
+	return sample, ts
+}
+
+func (q *sampleQueue) pop() (*media.Sample, uint32) {
+	defer q.restart()
+	return q.builder.PopWithTimestamp()
+}
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 4ddd353..5adfefc 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -10,7 +10,6 @@ import (
 	"github.com/at-wat/ebml-go/mkvcore"
 	"github.com/at-wat/ebml-go/webm"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal"
-	"github.com/jech/samplebuilder"
 	"github.com/pion/rtp"
 	"github.com/pion/rtp/codecs"
 	log "github.com/sirupsen/logrus"
@@ -59,7 +58,7 @@ type WebmRecorder struct {
 	hasValidVideo bool
 
 	audioWriter, videoWriter       webm.BlockWriteCloser
-	audioBuilder, videoBuilder     *samplebuilder.SampleBuilder
+	audioBuilder, videoBuilder     *sampleQueue
 	audioTimestamp, videoTimestamp time.Duration
 
 	started bool
@@ -114,8 +113,8 @@ func NewWebmRecorder(
 		audioPacketQueueSize:  audioPacketQueueSize,
 		useCustomSampler:      useCustomSampler,
 		writeIVFCopy:          writeIVFCopy,
-		audioBuilder:          samplebuilder.New(audioPacketQueueSize, &codecs.OpusPacket{}, opusSampleRate),
-		videoBuilder:          samplebuilder.New(videoPacketQueueSize, &codecs.VP8Packet{}, vp8SampleRate),
+		audioBuilder:          newSampleQueue(audioPacketQueueSize, &codecs.OpusPacket{}, opusSampleRate),
+		videoBuilder:          newSampleQueue(videoPacketQueueSize, &codecs.VP8Packet{}, vp8SampleRate),
 		lastKeyFrameTime:      time.Now(),
 		// TODO Make this configurable or remove the timeout altogether - prlanzarin
 		frameTimeout: time.Millisecond * 2000,
@@ -313,7 +312,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			0, isKeyFrame, len(packet.Payload), 0)
 
 	for {
-		sample, ts := r.videoBuilder.PopWithTimestamp()
+		sample, ts := r.videoBuilder.Pop()
 
 		if sample == nil {
 			return
@@ -369,7 +368,7 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 	r.audioBuilder.Push(p)
 
 	for {
-		sample := r.audioBuilder.Pop()
+		sample, _ := r.audioBuilder.Pop()
 		if sample == nil {
 			return
 		}
-- 
2.43.0


From e416a82b45a4032cadb2e50d6157a2240d14ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:47 +0000
Subject: [PATCH 24/28] fix: keyframe requests and new tracks of a mediasoup
 session do not race on its track table

---
 internal/webrtc/webrtc.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 38c00f5..ac2ee13 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"math/rand"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -34,9 +35,12 @@ type WebRTC struct {
 
 	connStateCallbackFn func(state webrtc.ICEConnectionState)
 	flowCallback        func(isFlowing bool, videoTimestamp time.Duration, closed bool)
-	videoTrackSSRCs     []uint32
-	pliStats            map[uint32]PLITracker
 	sdpOffer            webrtc.SessionDescription
+
+	// Tracks start and keyframes are requested on several goroutines
+	m               sync.Mutex
+	videoTrackSSRCs []uint32
+	pliStats        map[uint32]PLITracker
 }
 
 func NewWebRTC(ctx context.Context, cfg config.WebRTC) *WebRTC {
@@ -172,8 +176,10 @@ func (w *WebRTC) Init(
 				track.SSRC(), track.RID())
 
 		if isVideo {
+			w.m.Lock()
 			w.videoTrackSSRCs = append(w.videoTrackSSRCs, uint32(track.SSRC()))
 			w.pliStats[uint32(track.SSRC())] = PLITracker{count: 0, timestamp: time.Now()}
+			w.m.Unlock()
 
 			if kfr, ok := rec.(interface {
 				SetKeyframeRequester(recorder.KeyframeRequester)
@@ -481,12 +487,22 @@ func (w *WebRTC) Init(
 }
 
 func (w *WebRTC) RequestKeyframe() {
+	w.m.Lock()
+	defer w.m.Unlock()
+
 	for _, ssrc := range w.videoTrackSSRCs {
-		w.RequestKeyframeForSSRC(ssrc)
+		w.requestKeyframeForSSRC(ssrc)
 	}
 }
 
 func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+	w.m.Lock()
+	defer w.m.Unlock()
+
+	w.requestKeyframeForSSRC(ssrc)
+}
+
+func (w *WebRTC) requestKeyframeForSSRC(ssrc uint32) {
 	err := w.pc.WriteRTCP([]rtcp.Packet{&rtcp.PictureLossIndication{MediaSSRC: ssrc}})
 
 	if err != nil {
-- 
2.43.0


From 42ef7c4061e4b529ea244574089f4789e1a5f873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 25/28] fix: the read loop of a mediasoup track and its timers
 do not race on what they share

---
 internal/webrtc/webrtc.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index ac2ee13..688f09c 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -211,6 +211,9 @@ func (w *WebRTC) Init(
 			panic(err)
 		}
 
+		// Guards rl, jb, s2 and lastTimestamp, which the read loop shares with timers
+		var m sync.Mutex
+
 		jb := utils.NewJitterBuffer(
 			w.cfg.JitterBuffer,
 			w.cfg.JitterBufferPktTimeout,
@@ -235,7 +238,9 @@ func (w *WebRTC) Init(
 						ticker.Stop()
 						return
 					case <-ticker.C:
+						m.Lock()
 						missing := rl.MissingSeqNumbers(10)
+						m.Unlock()
 						if missing == nil || len(missing) == 0 {
 							continue
 						}
@@ -260,8 +265,10 @@ func (w *WebRTC) Init(
 								log.WithField("session", w.ctx.Value("session")).
 									Debugf("Giving up on packet: seq=%d, attempts=%d", seq, maxNackAttempts)
 
+								m.Lock()
 								rl.IgnoreSeqNum(seq)
 								jb.SkipPacket(int64(seq))
+								m.Unlock()
 								nackedPackets[seq] = NACKTracker{count: tracker.count + 1, timestamp: now}
 							}
 						}
@@ -314,7 +321,9 @@ func (w *WebRTC) Init(
 					case <-done:
 						ticker.Stop()
 
+						m.Lock()
 						ts := lastTimestamp
+						m.Unlock()
 
 						// Use the most recent timestamp from video or audio since
 						// we can't differentiate them in status events right now.
@@ -330,15 +339,16 @@ func (w *WebRTC) Init(
 						w.flowCallback(false, ts, true)
 						return
 					case <-ticker.C:
+						m.Lock()
 						if s1 == s2 {
 							isFlowing = false
 						} else {
 							isFlowing = true
 						}
 						s1 = s2
+						ts := lastTimestamp
+						m.Unlock()
 						if isFlowing != wasFlowing {
-							ts := lastTimestamp
-
 							// FIXME see comment above
 							if ts == 0 {
 								if isVideo {
@@ -391,6 +401,8 @@ func (w *WebRTC) Init(
 
 			seq = su.Unwrap(uint64(rtp.SequenceNumber))
 
+			m.Lock()
+
 			if !jb.Add(seq, rtp) {
 				log.WithField("session", w.ctx.Value("session")).
 					Warnf("Failed to add packet to jitter buffer: seq=%d, timestamp=%d",
@@ -405,6 +417,8 @@ func (w *WebRTC) Init(
 
 			packets, skipped := jb.NextPackets()
 
+			m.Unlock()
+
 			if packets == nil {
 				continue
 			}
@@ -415,7 +429,9 @@ func (w *WebRTC) Init(
 
 			// Signal packet skip to WebmRecorder to handle potential frame boundary issues
 			if skipped {
+				m.Lock()
 				skippedSeq, ok := jb.GetAndClearLastSkipped()
+				m.Unlock()
 				if ok {
 					if rec != nil {
 						rec.NotifySkippedPacket(uint16(skippedSeq))
@@ -425,15 +441,18 @@ func (w *WebRTC) Init(
 			}
 
 			for _, p := range packets {
-				s2 = p.SequenceNumber
+				var ts time.Duration
 				switch {
 				case isAudio:
 					rec.PushAudio(p)
-					lastTimestamp = rec.AudioTimestamp()
+					ts = rec.AudioTimestamp()
 				case isVideo:
 					rec.PushVideo(p)
-					lastTimestamp = rec.VideoTimestamp()
+					ts = rec.VideoTimestamp()
 				}
+				m.Lock()
+				s2, lastTimestamp = p.SequenceNumber, ts
+				m.Unlock()
 			}
 		}
 	})
-- 
2.43.0


From 59df04134fda4f4b2a1351afa8caa6a28eefff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:18 +0000
Subject: [PATCH 26/28] fix: a packet skipped before any packet could follow is
 reported to the recorder

---
 internal/webrtc/webrtc.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 688f09c..460dd1c 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -415,10 +415,20 @@ func (w *WebRTC) Init(
 				Tracef("Processed packet: track=%s, seq=%d, unwrapped=%d, timestamp=%d, size=%d",
 					track.ID(), rtp.SequenceNumber, seq, rtp.Timestamp, len(rtp.Payload))
 
-			packets, skipped := jb.NextPackets()
+			packets, _ := jb.NextPackets()
+			// The skip may have been made without any packet to follow it, here or by the timer
+			skippedSeq, skipped := jb.GetAndClearLastSkipped()
 
 			m.Unlock()
 
+			// Signal packet skip to WebmRecorder to handle potential frame boundary issues
+			if skipped {
+				if rec != nil {
+					rec.NotifySkippedPacket(uint16(skippedSeq))
+					log.Debugf("Notified recorder of skipped packet: seq=%d", skippedSeq)
+				}
+			}
+
 			if packets == nil {
 				continue
 			}
@@ -427,19 +437,6 @@ func (w *WebRTC) Init(
 				Tracef("Got %d packets from jitter buffer: first=%d, last=%d",
 					len(packets), packets[0].SequenceNumber, packets[len(packets)-1].SequenceNumber)
 
-			// Signal packet skip to WebmRecorder to handle potential frame boundary issues
-			if skipped {
-				m.Lock()
-				skippedSeq, ok := jb.GetAndClearLastSkipped()
-				m.Unlock()
-				if ok {
-					if rec != nil {
-						rec.NotifySkippedPacket(uint16(skippedSeq))
-						log.Debugf("Notified recorder of skipped packet: seq=%d", skippedSeq)
-					}
-				}
-			}
-
 			for _, p := range packets {
 				var ts time.Duration
 				switch {
-- 
2.43.0


From 9006940e71c8c4cfb6e62cf68528b3251441d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 27/28] fix: the jitter buffer stops waiting for a given-up
 packet after the numbers wrapped around

---
 internal/webrtc/webrtc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 460dd1c..c689a6a 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -267,7 +267,10 @@ func (w *WebRTC) Init(
 
 								m.Lock()
 								rl.IgnoreSeqNum(seq)
-								jb.SkipPacket(int64(seq))
+								// The jitter buffer counts on when seq wraps around
+								if next := jb.GetNextStart(); uint16(next) == seq {
+									jb.SkipPacket(next)
+								}
 								m.Unlock()
 								nackedPackets[seq] = NACKTracker{count: tracker.count + 1, timestamp: now}
 							}
-- 
2.43.0


From 089e67511e0cef0e539ac150d3803bded7b11f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:36 +0000
Subject: [PATCH 28/28] fix: simultaneous web requests get sessions of their
 own

---
 internal/server/http.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/server/http.go b/internal/server/http.go
index 2f22154..319ac57 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -16,6 +16,7 @@ import (
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/web"
+	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 )
 
@@ -62,7 +63,8 @@ func (s *HTTPServer) Serve() {
 	)
 	go s.serve(func(sdp string) string {
 		t := time.Now()
-		sessId := t.Format("20060102150405")
+		// Not the time: requests may be made within the same second
+		sessId := uuid.NewString()
 		// Buffered: answers are handed over without waiting for the request
 		answerChan := make(chan string, 1)
 		m.Lock()
@@ -71,7 +73,7 @@ func (s *HTTPServer) Serve() {
 		e := events.StartRecording{
 			Id:        "startRecording",
 			SessionId: sessId,
-			FileName:  fmt.Sprintf("%s.webm", t.Format("20060102150405")),
+			FileName:  fmt.Sprintf("%s-%s.webm", t.Format("20060102150405"), sessId),
 			Adapter:   "mediasoup",
 			AdapterOptions: &events.AdapterOptions{
 				Mediasoup: &events.MediasoupConfig{
-- 
2.43.0

