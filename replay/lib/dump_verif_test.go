package config

// Random search for a concrete failing input: the program itself is built and asked for values of
// random configurations. Bounded: it decides nothing by itself.

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"gopkg.in/yaml.v3"
)

func vRun(t *testing.T, f func(r *rand.Rand) (input, bad string)) {
	fmt.Println("REPLAY-START")
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 5
	}
	sd, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	until := time.Now().Add(time.Duration(b) * time.Second / 2)
	n := 0
	for seed := sd * 1000003; time.Now().Before(until) && n < 100000; seed++ {
		n++
		var in, bad string
		for try := 0; try < 3 && (try == 0 || bad != ""); try++ { // only what fails again is reported
			in, bad = f(rand.New(rand.NewSource(seed)))
		}
		if bad != "" {
			fmt.Printf("REPLAY-FAIL case seed %d: %s: %s\n", seed, in, bad)
			t.FailNow()
		}
	}
	fmt.Printf("REPLAY-STATS {\"cases\": %d}\n", n)
}

// vAsk runs the program with a configuration file and asks for a path.
func vAsk(bin, dir, path string) (out string, code int, crash, refused bool) {
	c := exec.Command(bin, "-c", "./c.yml", "--dump="+path)
	c.Dir = dir
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		code = ee.ExitCode()
	}
	return so.String(), code, strings.Contains(se.String(), "panic:") || strings.Contains(se.String(), "goroutine "), strings.Contains(se.String(), "failed to decode configuration") || strings.Contains(se.String(), "crazy-max/gonfig")
}

func vTree(r *rand.Rand, depth int) interface{} {
	k := r.Intn(8) // no null: loading such a configuration is refused
	if depth <= 0 && k < 4 {
		k += 4
	}
	switch k {
	case 0, 1:
		l := []interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, vTree(r, depth-1))
		}
		return l
	case 2, 3:
		m := map[string]interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			m[[]string{"a", "b", "0", "1", "-1", "x y", "B", "all"}[r.Intn(8)]] = vTree(r, depth-1)
		}
		return m
	case 4:
		return []string{"", "s", "12", "true", "0x10", "a: b", "multi\nline", "~"}[r.Intn(8)]
	case 5:
		return r.Intn(2) == 0
	case 6:
		return 1.5
	}
	return r.Intn(2000) - 1000
}

// vAt walks the tree; ok: there is a value that can be printed.
func vAt(v interface{}, parts []string) (interface{}, bool) {
	for _, a := range parts {
		switch x := v.(type) {
		case []interface{}:
			n, err := strconv.Atoi(a)
			if err != nil || n < 0 || n >= len(x) {
				return nil, false
			}
			v = x[n]
		case map[string]interface{}:
			y, ok := x[a]
			if !ok {
				return nil, false
			}
			v = y
		default:
			return nil, false
		}
		switch v.(type) {
		case []interface{}, map[string]interface{}, string, bool, int:
		default:
			return nil, false
		}
	}
	return v, v != nil
}

func TestVerifReplayC24(t *testing.T) {
	dir := t.TempDir()
	bin := filepath.Join(dir, "rec")
	b := exec.Command("go", "build", "-o", bin, "./cmd/bbb-webrtc-recorder")
	b.Dir = "../.."
	if o, err := b.CombinedOutput(); err != nil {
		t.Skip(string(o), err)
	}
	vRun(t, func(r *rand.Rand) (string, string) {
		cfg := map[string]interface{}{"pubsub": map[string]interface{}{"adapters": map[string]interface{}{"redis": map[string]interface{}{"address": ":1"}, "x": vTree(r, 3), "y": vTree(r, 3)}}}
		ice := []interface{}{}
		for i := r.Intn(3); i > 0; i-- {
			ice = append(ice, map[string]interface{}{"urls": []interface{}{"stun:a", "stun:b"}[:1+r.Intn(2)]})
		}
		cfg["webrtc"] = map[string]interface{}{"iceServers": ice, "jitterBuffer": 1 + r.Intn(600)}
		y, _ := yaml.Marshal(cfg)
		os.WriteFile(filepath.Join(dir, "c.yml"), y, 0o600)
		all, code, crash, refused := vAsk(bin, dir, "all")
		if refused { // the loader does not take it
			return "", ""
		}
		in := fmt.Sprintf("configuration %q", string(y))
		if crash || code != 0 {
			return in, fmt.Sprintf("asking for everything: exit %d", code)
		}
		var tree interface{}
		if err := yaml.Unmarshal([]byte(all), &tree); err != nil {
			return in, "what is printed is not YAML: " + err.Error()
		}
		for q := 0; q < 30; q++ {
			var parts []string
			v := tree
			for k := r.Intn(8); k >= 0; k-- {
				var next string
				switch x := v.(type) {
				case []interface{}:
					next = strconv.Itoa(r.Intn(len(x)+2) - r.Intn(2))
					if r.Intn(8) == 0 {
						next = []string{"+0", "01", "x", "", "99999999999999999999", "-0", " 0"}[r.Intn(7)]
					}
				case map[string]interface{}:
					var ks []string
					for k := range x {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for i, k := range ks { // deep ones more often
						if k == "pubsub" || k == "adapters" {
							ks = append(ks, ks[i], ks[i])
						}
					}
					next = []string{"", "0", "-1", "nothing", "A"}[r.Intn(5)]
					if len(ks) > 0 && r.Intn(8) > 0 {
						next = ks[r.Intn(len(ks))]
					}
				default:
					next = []string{"", "0", "a"}[r.Intn(3)]
				}
				if strings.Contains(next, ".") {
					break
				}
				parts = append(parts, next)
				v, _ = vAt(tree, parts)
				if v == nil && r.Intn(2) == 0 {
					break
				}
			}
			path := strings.Join(parts, ".")
			if path == "all" || path == "" {
				continue
			}
			want, ok := vAt(tree, parts)
			got, code, crash, _ := vAsk(bin, dir, path)
			in := fmt.Sprintf("%s, asked for %q", in, path)
			if crash || code > 1 {
				return in, fmt.Sprintf("it crashed, exit %d", code)
			}
			if ok != (code == 0) {
				return in, fmt.Sprintf("exit %d, there is a value: %v", code, ok)
			}
			text := ""
			if ok {
				b, _ := yaml.Marshal(want)
				text = string(b)
			}
			if got != text {
				return in, fmt.Sprintf("printed %q, want %q", got, text)
			}
		}
		return in, ""
	})
}
