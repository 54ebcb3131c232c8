// The redis layer (C17).

// connections open; commands sent; failures seen
ghost conns int
ghost dos int
ghost dialFailed bool
ghost doFailed bool
// messages handed on
ghost handed int

extern xredis.Dial(network, address, options) (c, err)
  modifies conns, dialFailed
  sets conns = old(conns) + (err == nil ? 1 : 0)
  sets dialFailed = err != nil
  ensures err == nil ==> c != nil
iface xredis.Conn.Close(c) (err)
  modifies conns
  sets conns = old(conns) - 1
iface xredis.Conn.Do(c, name, args) (reply, err)
  modifies dos, doFailed
  sets dos = old(dos) + 1
  sets doFailed = err != nil

func redis.NewPubSub(network, address, password) (p, err)
  props C17
  modifies conns, dialFailed
  ensures closed: conns == old(conns)
  ensures reported: err != nil <==> dialFailed
  ensures set: err == nil ==> fresh(p) && p.network == network && p.address == address && p.password == password

func redis.PubSub.Publish(p, channel, message) (err)
  props C17
  requires p != nil
  modifies conns, dos, dialFailed, doFailed
  oncall xredis.Dial(network, address, options) where: network == p.network && address == p.address
  oncall xredis.Conn.Do(c, name, args) verbatim: name == "PUBLISH" && len(args) == 2 && istype(args[0], string) && as(args[0], string) == channel
     && istype(args[1], []byte) && array(as(args[1], []byte)) == array(message) && offset(as(args[1], []byte)) == offset(message) && len(as(args[1], []byte)) == len(message)
  ensures closed: conns == old(conns)
  ensures once: dos == old(dos) + (dialFailed ? 0 : 1)
  ensures reported: err != nil <==> dialFailed || doFailed && dos > old(dos)

func redis.PubSub.ListenChannels(p, ctx, onStart, onMessage, channels) (err)
  props C17
  requires p != nil && ctx != nil && onStart != nil && onMessage != nil
  modifies conns, dialFailed, p.psc
  inv open: conns == old(conns) + 1
  ensures closed: conns == old(conns)
  ensures reported: dialFailed ==> err != nil

// what the connection received last
ghost rcv ref
extern xredis.PubSubConn.Receive(c) (r)
  modifies rcv
  sets rcv = istype(r, xredis.Message) ? array(as(r, xredis.Message).Data) : 0
  ensures ref(r) != 0
func redis.PubSub.ListenChannels$1()
  props C17
  anchor calls xredis.PubSubConn.Receive
  requires p != nil && onMessage != nil && onStart != nil && done != nil
  modifies rcv
  oncall var onMessage(f, channel, data) handed-on: array(data) == rcv

func pubsub.Redis.Publish(r, channel, message)
  props C17
  requires r != nil && r.pubsub != nil
  modifies conns, dos, dialFailed, doFailed
  oncall redis.PubSub.Publish(p, ch, msg) verbatim: p == r.pubsub && ch == channel && msg == message
  ensures closed: conns == old(conns)

func pubsub.Redis.Subscribe(r, channel, handler, onStart)
  props C17
  requires r != nil && r.pubsub != nil && r.ctx != nil && handler != nil && onStart != nil
  modifies conns, dialFailed, r.pubsub.psc
  oncall redis.PubSub.ListenChannels(p, ctx, started, onMessage, channels) there: p == r.pubsub && len(channels) == 1 && channels[0] == channel
  ensures closed: conns == old(conns)

func pubsub.Redis.Subscribe$2(channel, message) (err)
  props C17
  anchor passed redis.PubSub.ListenChannels
  requires r != nil && handler != nil
  modifies nothing
  oncall var handler(f, ctx, msg) handed-on: msg == message
  ensures goes-on: err == nil
