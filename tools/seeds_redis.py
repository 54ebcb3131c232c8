P = "internal/pubsub/redis"
F = P + "/redis.go"
def t(body):
    return '''package redis
import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)
type srv struct {
	addr   string
	open   atomic.Int32
	fail   atomic.Bool
	cmds   chan []string
}
func newSrv(t *testing.T) *srv {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Fatal(err) }
	t.Cleanup(func() { l.Close() })
	s := &srv{addr: l.Addr().String(), cmds: make(chan []string, 100)}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil { return }
			s.open.Add(1)
			go func() {
				defer s.open.Add(-1)
				defer c.Close()
				r := bufio.NewReader(c)
				num := func() int { x, _ := r.ReadString('\\n'); n := 0; if len(x) > 2 { n, _ = strconv.Atoi(strings.TrimSpace(x[1:])) }; return n }
				for {
					n := num()
					if n == 0 { return }
					var cmd []string
					for ; n > 0; n-- {
						b := make([]byte, num()+2)
						if _, err := io.ReadFull(r, b); err != nil { return }
						cmd = append(cmd, string(b[:len(b)-2]))
					}
					s.cmds <- cmd
					if s.fail.Load() { fmt.Fprintf(c, "-ERR no\\r\\n") } else { fmt.Fprintf(c, ":1\\r\\n") }
				}
			}()
		}
	}()
	return s
}
// closed waits for the client to close its connections
func (s *srv) closed() bool {
	for i := 0; i < 300; i++ {
		if s.open.Load() == 0 { return true }
		time.Sleep(10 * time.Millisecond)
	}
	return false
}
var _ = context.Background
func TestSeedDemo(t *testing.T) {
	s := newSrv(t)
	p, err := NewPubSub("tcp", s.addr, "")
	if err != nil { t.Fatal(err) }
''' + body + "}\n"
SEEDS = [
 dict(id="publish-leak", property="C17", needs="the server refuses the PUBLISH command",
      what="the connection stays open when publishing fails",
      edits=[(F, '''	defer c.Close()

	if _, err = c.Do("PUBLISH", channel, message); err != nil {
		return err
	}

	return nil
''', '''	if _, err = c.Do("PUBLISH", channel, message); err != nil {
		return err
	}

	return c.Close()
''')], pkg=P, test=t('''	s.fail.Store(true)
	if p.Publish("c", []byte("m")) == nil { t.Fatal("no error") }
	<-s.cmds
	if !s.closed() { t.Fatal("connection left open") }
''')),
 dict(id="publish-trimmed", property="C17", needs="a message that ends with a line break or a blank",
      what="white space at the ends of the message is not sent",
      edits=[(F, 'c.Do("PUBLISH", channel, message)', 'c.Do("PUBLISH", channel, bytes.TrimSpace(message))'), (F, 'import (\n', 'import (\n\t"bytes"\n')], pkg=P, test=t('''	if err := p.Publish("c", []byte("{}\\n")); err != nil { t.Fatal(err) }
	if c := <-s.cmds; c[2] != "{}\\n" { t.Fatalf("sent %q", c) }
''')),
 dict(id="listen-leak", property="C17", needs="listening is asked for with a context that was cancelled already, or a subscription that cannot be sent",
      what="the connection stays open when listening ends before it began",
      edits=[(F, '''	defer c.Close()

	p.psc = redis.PubSubConn{Conn: c}

	if err := p.psc.Subscribe(redis.Args{}.AddFlat(channels)...); err != nil {
		return err
	}
''', '''	p.psc = redis.PubSubConn{Conn: c}

	if err := p.psc.Subscribe(redis.Args{}.AddFlat(channels)...); err != nil {
		return err
	}

	// No need to listen for a caller that is gone already
	if err := ctx.Err(); err != nil {
		return err
	}
	defer c.Close()
''')], pkg=P, test=t('''	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	s.fail.Store(true)
	p.ListenChannels(ctx, func() error { return nil }, func(string, []byte) error { return nil }, "c")
	<-s.cmds
	if !s.closed() { t.Fatal("connection left open") }
''')),
]
