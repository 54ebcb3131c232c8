package redis

// Random search for a concrete failing input, run on the real code against the properties'
// statements. Bounded: it decides nothing by itself.

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// vRedis is a server of the test: it records commands and can fail.
type vRedis struct {
	l     net.Listener
	m     sync.Mutex
	cmds  [][]string
	open  int
	total int
	mode  string // ok, error, drop, auth
	push  []string
}

func (v *vRedis) serve() {
	for {
		c, err := v.l.Accept()
		if err != nil {
			return
		}
		v.m.Lock()
		v.open++
		v.total++
		v.m.Unlock()
		go v.conn(c)
	}
}

func (v *vRedis) conn(c net.Conn) {
	defer func() {
		v.m.Lock()
		v.open--
		v.m.Unlock()
		c.Close()
	}()
	r := bufio.NewReader(c)
	for {
		cmd, err := vReadCmd(r)
		if err != nil {
			return
		}
		if cmd[0] == "VPROBE" {
			v.m.Lock()
			v.total--
			v.m.Unlock()
			fmt.Fprintf(c, "+OK\r\n")
			continue
		}
		v.m.Lock()
		v.cmds = append(v.cmds, cmd)
		mode, push := v.mode, v.push
		v.m.Unlock()
		switch name := strings.ToUpper(cmd[0]); {
		case name == "AUTH" && mode == "auth":
			fmt.Fprintf(c, "-WRONGPASS no\r\n")
		case name == "AUTH":
			fmt.Fprintf(c, "+OK\r\n")
		case mode == "drop":
			// the reply never comes, the connection does not end from this side either for a while
			if t, ok := c.(*net.TCPConn); ok {
				t.CloseWrite()
			}
			io.Copy(io.Discard, r)
			return
		case mode == "error":
			fmt.Fprintf(c, "-ERR no\r\n")
		case name == "SUBSCRIBE":
			for i, ch := range cmd[1:] {
				fmt.Fprintf(c, "*3\r\n$9\r\nsubscribe\r\n$%d\r\n%s\r\n:%d\r\n", len(ch), ch, i+1)
			}
			for _, m := range push {
				fmt.Fprintf(c, "*3\r\n$7\r\nmessage\r\n$%d\r\n%s\r\n$%d\r\n%s\r\n", len(cmd[1]), cmd[1], len(m), m)
			}
			if mode == "droplater" {
				if t, ok := c.(*net.TCPConn); ok {
					t.CloseWrite()
				}
				io.Copy(io.Discard, r)
				return
			}
		case name == "UNSUBSCRIBE":
			fmt.Fprintf(c, "*3\r\n$11\r\nunsubscribe\r\n$-1\r\n:0\r\n")
		default:
			fmt.Fprintf(c, ":1\r\n")
		}
	}
}

func vReadCmd(r *bufio.Reader) ([]string, error) {
	line := func() (int, error) {
		s, err := r.ReadString('\n')
		if err != nil || len(s) < 3 {
			return 0, errors.Join(err, io.EOF)
		}
		return strconv.Atoi(strings.TrimSpace(s[1:]))
	}
	n, err := line()
	if err != nil {
		return nil, err
	}
	var cmd []string
	for i := 0; i < n; i++ {
		k, err := line()
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		cmd = append(cmd, string(b[:k]))
	}
	return cmd, nil
}

// left waits for every connection to be closed by the client.
func (v *vRedis) left() int {
	// a connection of our own: those made before it have been accepted once it is answered
	if c, err := net.Dial("tcp", v.l.Addr().String()); err == nil {
		fmt.Fprintf(c, "*1\r\n$6\r\nVPROBE\r\n")
		c.SetReadDeadline(time.Now().Add(5 * time.Second))
		io.ReadFull(c, make([]byte, 5))
		c.Close()
	}
	for i := 0; i < 300; i++ {
		v.m.Lock()
		n := v.open
		v.m.Unlock()
		if n == 0 {
			return 0
		}
		time.Sleep(10 * time.Millisecond)
	}
	return v.open
}

func vCase(r *rand.Rand) (in, bad string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", ""
	}
	v := &vRedis{l: l, mode: "ok"}
	go v.serve()
	defer l.Close()
	pass := ""
	if r.Intn(2) == 0 {
		pass = "secret"
	}
	if pass != "" && r.Intn(4) == 0 {
		v.mode = "auth"
	}
	in = fmt.Sprintf("password %q, server %s:", pass, v.mode)
	defer func() {
		if x := recover(); x != nil {
			bad = fmt.Sprintf("panic: %v", x)
		}
	}()
	p, err := NewPubSub("tcp", l.Addr().String(), pass)
	if n := v.left(); n != 0 {
		return in, fmt.Sprintf("%d connections left open by the check at start-up", n)
	}
	if v.mode == "auth" {
		if err == nil {
			return in, "a refused password is not reported"
		}
		return in, ""
	}
	if err != nil {
		return in, "start-up fails: " + err.Error()
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		v.m.Lock()
		v.cmds, v.total = nil, 0
		v.mode = []string{"ok", "ok", "error", "drop"}[r.Intn(4)]
		mode := v.mode
		v.m.Unlock()
		ch := []string{"to-recorder", "", "a b", "*", "x\r\ny"}[r.Intn(5)]
		msg := make([]byte, r.Intn(40))
		r.Read(msg)
		if r.Intn(3) == 0 {
			msg = []byte(`{"id":"stopRecording"}`)
		}
		if r.Intn(8) == 0 {
			msg = make([]byte, 70000)
			r.Read(msg)
		}
		if r.Intn(3) == 0 {
			// listening
			var got []string
			started := 0
			v.m.Lock()
			v.push = nil
			for k := r.Intn(3); k > 0; k-- {
				v.push = append(v.push, fmt.Sprintf("m%d", k))
			}
			v.push = append(v.push, string(msg))
			if mode == "ok" && r.Intn(3) == 0 {
				v.mode, mode = "droplater", "droplater"
			}
			push := v.push
			v.m.Unlock()
			fails := r.Intn(3) == 0
			in += fmt.Sprintf(" listen(%q, server %s, handler fails %v)", ch, mode, fails)
			ctx, cancel := context.WithCancel(context.Background())
			gone := r.Intn(4) == 0
			if gone {
				in += " cancelled"
				cancel()
			}
			res := make(chan error, 1)
			go func() {
				res <- p.ListenChannels(ctx, func() error { started++; return nil }, func(c string, d []byte) error {
					if c != ch {
						got = append(got, "channel "+c)
					}
					got = append(got, string(d))
					if len(got) == len(push) {
						if fails {
							return errors.New("handler")
						}
						cancel()
					}
					return nil
				}, ch)
			}()
			var err error
			select {
			case err = <-res:
			case <-time.After(10 * time.Second):
				cancel()
				return in, "listening does not end"
			}
			cancel()
			if n := v.left(); n != 0 {
				return in, fmt.Sprintf("listening ended (%v) and left %d connections open", err, n)
			}
			if mode == "ok" || mode == "droplater" {
				if fmt.Sprint(got) != fmt.Sprint(push) && mode == "ok" && !gone || len(got) > len(push) {
					return in, fmt.Sprintf("messages %.80q were sent, %.80q handed on", push, got)
				}
				if started > 1 {
					return in, "start reported more than once"
				}
			}
			continue
		}
		in += fmt.Sprintf(" publish(%q, %d bytes, server %s)", ch, len(msg), mode)
		err := p.Publish(ch, msg)
		if n := v.left(); n != 0 {
			return in, fmt.Sprintf("%d connections left open (error %v)", n, err)
		}
		if (mode == "ok") != (err == nil) {
			return in, fmt.Sprintf("error %v", err)
		}
		v.m.Lock()
		var pubs [][]string
		for _, c := range v.cmds {
			if strings.ToUpper(c[0]) != "AUTH" {
				pubs = append(pubs, c)
			}
		}
		total := v.total
		v.m.Unlock()
		if total != 1 || len(pubs) != 1 || pubs[0][0] != "PUBLISH" || len(pubs[0]) != 3 || pubs[0][1] != ch || pubs[0][2] != string(msg) {
			return in, fmt.Sprintf("%d connections, commands %.200q", total, pubs)
		}
	}
	return in, ""
}

func TestVerifReplayC17(t *testing.T) {
	fmt.Println("REPLAY-START")
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 5
	}
	sd, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	until := time.Now().Add(time.Duration(b) * time.Second / 2)
	n := 0
	for seed := sd * 1000003; time.Now().Before(until); seed++ {
		n++
		var in, bad string
		for try := 0; try < 3 && (try == 0 || bad != ""); try++ { // only what fails again is reported
			in, bad = vCase(rand.New(rand.NewSource(seed)))
		}
		if bad != "" {
			fmt.Printf("REPLAY-FAIL case seed %d: %s: %s\n", seed, in, bad)
			t.FailNow()
		}
	}
	fmt.Printf("REPLAY-STATS {\"cases\": %d}\n", n)
}
