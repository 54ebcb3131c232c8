// Control messages (C07, C08). The JSON libraries are uninterpreted functions of the message bytes
// (see DESIGN.md): a message is named by its backing array d = array(message).

uf jsonok(ref, string) bool
uf jsonhas(ref, string) bool
uf jsonany(ref, string) any
uf jsonstr(ref, string) string
uf jsonobj(ref, string) bool
uf jsonlen(ref, string) int
uf jsonelem(ref, string, int) string
uf jsonout(ref, string) string
uf jsonput(ref, string) bool

// d is a well-formed object whose "id" is the string s
pure msgIs(d, s) = jsonok(d, "map[string]interface{}") && jsonhas(d, "id") && istype(jsonany(d, "id"), string) && as(jsonany(d, "id"), string) == s
pure msgStart(d) = msgIs(d, "startRecording") && jsonok(d, "events.StartRecording")
pure msgStop(d) = msgIs(d, "stopRecording") && jsonok(d, "events.StopRecording")
pure msgStatus(d) = msgIs(d, "getRecorderStatus") && jsonok(d, "events.GetRecorderStatus")
pure msgResponse(d) = msgIs(d, "startRecordingResponse") && jsonok(d, "events.StartRecordingResponse")

// what an event's payload must be, by its identifier
pure evTyped(e) = (e.Id == "startRecording" ==> istype(e.Data, *events.StartRecording) && as(e.Data, *events.StartRecording) != nil)
  && (e.Id == "stopRecording" ==> istype(e.Data, *events.StopRecording) && as(e.Data, *events.StopRecording) != nil)
  && (e.Id == "getRecorderStatus" ==> istype(e.Data, *events.GetRecorderStatus) && as(e.Data, *events.GetRecorderStatus) != nil)
  && (e.Id == "startRecordingResponse" ==> istype(e.Data, *events.StartRecordingResponse) && as(e.Data, *events.StartRecordingResponse) != nil)
  && (e.Id == "recordingRtpStatusChanged" ==> istype(e.Data, *events.RecordingRtpStatusChanged) && as(e.Data, *events.RecordingRtpStatusChanged) != nil)
  && (e.Id == "recorderStatus" ==> istype(e.Data, *events.RecorderStatus) && as(e.Data, *events.RecorderStatus) != nil)
pure evKnown(s) = s == "startRecording" || s == "stopRecording" || s == "getRecorderStatus" || s == "startRecordingResponse" || s == "recordingRtpStatusChanged" || s == "recorderStatus"
pure evUnknownPayload(e) = !evKnown(e.Id) ==> istype(e.Data, *map[string]any)

// the start request read from d
pure srRead(r, d) = r.Id == jsonstr(d, "id") && r.SessionId == jsonstr(d, "recordingSessionId") && r.FileName == jsonstr(d, "fileName")
  && r.Adapter == jsonstr(d, "adapter") && r.SDP == jsonstr(d, "sdp")
  && (r.AdapterOptions != nil <==> jsonobj(d, "adapterOptions"))
  && (r.AdapterOptions != nil ==> (r.AdapterOptions.Mediasoup != nil <==> jsonobj(d, "adapterOptions.mediasoup"))
      && (r.AdapterOptions.LiveKit != nil <==> jsonobj(d, "adapterOptions.livekit"))
      && (r.AdapterOptions.Mediasoup != nil ==> r.AdapterOptions.Mediasoup.SDP == jsonstr(d, "adapterOptions.mediasoup.sdp"))
      && (r.AdapterOptions.LiveKit != nil ==> r.AdapterOptions.LiveKit.Room == jsonstr(d, "adapterOptions.livekit.room")
          && len(r.AdapterOptions.LiveKit.TrackIDs) == jsonlen(d, "adapterOptions.livekit.trackIds")
          && (forall i int :: 0 <= i && i < len(r.AdapterOptions.LiveKit.TrackIDs) ==> r.AdapterOptions.LiveKit.TrackIDs[i] == jsonelem(d, "adapterOptions.livekit.trackIds", i))))

func events.Decode(message) (e)
  props C07 C08 C09 C10 C22
  modifies nothing
  ensures one-event: e != nil ==> fresh(e)
  ensures known-exactly: forall s string :: evKnown(s) ==> (e != nil && e.Id == s ==> msgIs(array(message), s))
  ensures the-id: e != nil ==> msgIs(array(message), e.Id)
  ensures typed: e != nil ==> evTyped(e)
  ensures other-payload: e != nil ==> evUnknownPayload(e)
  ensures start: msgStart(array(message)) <==> e != nil && e.Id == "startRecording"
  ensures stop: msgStop(array(message)) <==> e != nil && e.Id == "stopRecording"
  ensures status: msgStatus(array(message)) <==> e != nil && e.Id == "getRecorderStatus"
  ensures response: msgResponse(array(message)) <==> e != nil && e.Id == "startRecordingResponse"
  ensures start-read: e != nil && e.Id == "startRecording" ==> fresh(as(e.Data, *events.StartRecording)) && srRead(as(e.Data, *events.StartRecording), array(message))
  ensures stop-read: e != nil && e.Id == "stopRecording" ==> as(e.Data, *events.StopRecording).SessionId == jsonstr(array(message), "recordingSessionId")
  ensures response-read: e != nil && e.Id == "startRecordingResponse" ==> as(e.Data, *events.StartRecordingResponse).SessionId == jsonstr(array(message), "recordingSessionId")
      && as(e.Data, *events.StartRecordingResponse).Status == jsonstr(array(message), "status")
      && (as(e.Data, *events.StartRecordingResponse).SDP != nil <==> jsonobj(array(message), "sdp"))
      && (as(e.Data, *events.StartRecordingResponse).SDP != nil ==> *as(e.Data, *events.StartRecordingResponse).SDP == jsonstr(array(message), "sdp"))
  cover start: e != nil && e.Id == "startRecording"
  cover nothing: e == nil

func events.Event.IsValid(e) (r)
  props C07
  modifies nothing
  ensures valid: r <==> e != nil && e.Id != ""

func events.Event.StartRecording(e) (r)
  props C07
  modifies nothing
  ensures payload: r == (e != nil && istype(e.Data, *events.StartRecording) ? as(e.Data, *events.StartRecording) : nil)

func events.Event.StartRecordingResponse(e) (r)
  props C07 C22
  modifies nothing
  ensures payload: r == (e != nil && istype(e.Data, *events.StartRecordingResponse) ? as(e.Data, *events.StartRecordingResponse) : nil)

func events.Event.StopRecording(e) (r)
  props C07
  modifies nothing
  ensures payload: r == (e != nil && istype(e.Data, *events.StopRecording) ? as(e.Data, *events.StopRecording) : nil)

func events.Event.GetRecorderStatus(e) (r)
  props C07
  modifies nothing
  ensures payload: r == (e != nil && istype(e.Data, *events.GetRecorderStatus) ? as(e.Data, *events.GetRecorderStatus) : nil)

// ---- C08

pure optSDP(e) = e.AdapterOptions != nil && e.AdapterOptions.Mediasoup != nil && e.AdapterOptions.Mediasoup.SDP != ""
pure srSDP(e) = optSDP(e) ? e.AdapterOptions.Mediasoup.SDP : e.SDP
pure srOK(e) = (e.Adapter == "livekit" && e.AdapterOptions != nil && e.AdapterOptions.LiveKit != nil && e.AdapterOptions.LiveKit.Room != "" && len(e.AdapterOptions.LiveKit.TrackIDs) > 0)
  || e.Adapter == "mediasoup" && srSDP(e) != ""
  || e.Adapter != "livekit" && e.Adapter != "mediasoup" && e.SDP != ""

func events.StartRecording.Validate(e) (err)
  props C08 C09
  requires e != nil
  modifies nothing
  ensures exactly: err == nil <==> srOK(e)
  cover accepted: err == nil
  cover refused: err != nil

func events.StartRecording.GetSDP(e) (r)
  props C08 C09
  requires e != nil
  modifies nothing
  ensures offer: r == srSDP(e)

pure respOK(r) = r.Id == "startRecordingResponse" && r.SessionId != "" && (r.Status == "ok" && r.Error == nil && r.FileName != nil || r.Status == "failed" && r.Error != nil && r.SDP == nil)

func events.StartRecording.Fail(e, err) (r)
  props C08 C09
  requires e != nil && err != nil
  modifies nothing
  ensures failure: fresh(r) && r.Id == "startRecordingResponse" && r.SessionId == e.SessionId && r.Status == "failed"
  ensures error: r.Error != nil && *r.Error == errtext(err) && r.SDP == nil && r.FileName == nil
  ensures valid: e.SessionId != "" ==> respOK(r)

func events.StartRecording.Success(e, sdp, fileName) (r)
  props C08 C09
  requires e != nil
  modifies nothing
  ensures success: fresh(r) && r.Id == "startRecordingResponse" && r.SessionId == e.SessionId && r.Status == "ok"
  ensures answer: r.Error == nil && r.SDP != nil && *r.SDP == sdp && r.FileName != nil && *r.FileName == fileName
  ensures valid: e.SessionId != "" ==> respOK(r)

func events.StartRecordingResponse.Validate(e) (err)
  props C08
  requires e != nil
  modifies nothing
  ensures exactly: err == nil <==> respOK(e)

extern pointer.ToString(s) (r)
  modifies nothing
  ensures fresh(r) && *r == s
