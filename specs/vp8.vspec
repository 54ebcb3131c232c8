// VP8 RTP payloads (C12-C14): RFC 7741 payload descriptor, then VP8 data.

pure vX(b) = b[0] & 128 != 0
pure vI(b) = vX(b) && b[1] & 128 != 0
pure vPidLen(b) = int(vI(b) ? (b[2] & 128 != 0 ? 2 : 1) : 0)
pure vHdr(b) = int(1) + int(vX(b) ? 1 : 0) + vPidLen(b) + int(vX(b) && b[1] & 64 != 0 ? 1 : 0) + int(vX(b) && b[1] & 48 != 0 ? 1 : 0)
// a descriptor followed by at least one byte of data
pure vOK(b) = len(b) > 0 && len(b) > vHdr(b)
// starts a frame: start of partition 0
pure vStart(b) = b[0] & 16 != 0 && b[0] & 7 == 0
pure vKey(b) = vOK(b) && vStart(b) && b[vHdr(b)] & 1 == 0
pure vPid(b) = vI(b) ? (b[2] & 128 != 0 ? uint16(b[2] & 127) * 256 + uint16(b[3]) : uint16(b[2])) : 0

func recorder.unmarshalVP8(payload) (v, err)
  props C12 C13 C14
  mode bv
  neutral
  modifies nothing
  ensures valid: err == nil <==> vOK(payload)
  ensures start: err == nil ==> v.S <= 1 && (v.S == 1 && v.PID == 0 <==> vStart(payload))
  ensures picture: err == nil ==> v.PictureID == vPid(payload)
  ensures data: err == nil ==> array(v.Payload) == array(payload) && offset(v.Payload) == offset(payload) + vHdr(payload) && len(v.Payload) == len(payload) - vHdr(payload)
  cover ok: err == nil
  cover bad: err != nil && len(payload) > 3

func recorder.IsVP8KeyFrame(packet) (r)
  props C12 C14
  requires packet != nil
  modifies nothing
  ensures keyframe: r <==> vKey(packet.Payload)

func recorder.GetVP8KFDimension(packet) (w, h)
  props C12
  requires packet != nil
  modifies nothing
