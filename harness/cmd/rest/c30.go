//go:build go1.24

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"recengine/internal/zzverif/lib"
)

func init() {
	checks["C30"] = lib.Check{Level: "exploration", Procs: true,
		Rule: "The program itself, built from the working tree and run as a process of its own. All histories up to the stated length of creations, updates, rejected requests, terminations (both signals), kills, and kills with a request in flight, each followed by a restart; all combinations of settings in the .env file and in the environment; all the causes for which it must not start.",
		Assumptions: []string{
			"the process dies, the operating system does not",
			"a request in flight when the process is killed may have been executed or not",
			"a program that neither serves nor ends within a minute never does; an address taken by somebody else meanwhile is tried again",
		},
		Fn: checkC30,
	}
}

// program is a running instance.
type program struct {
	cmd  *exec.Cmd
	addr string
	mu   sync.Mutex
	out  bytes.Buffer
	done chan struct{}
	err  error
}

func (p *program) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.Write(b)
}

func (p *program) output() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := p.out.String()
	if len(s) > 1000 {
		s = s[len(s)-1000:]
	}
	return s
}

var counter int

// ownHost returns a loopback address nobody else uses.
func ownHost() string {
	counter++
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 64+pid>>8&63, pid&255, 1+counter%250)
}

// launch starts the program in the directory.
func launch(dir string, env []string) *program {
	p := &program{done: make(chan struct{})}
	p.cmd = exec.Command(os.Getenv("VERIF_MAIN"))
	p.cmd.Dir = dir
	p.cmd.Env = append([]string{"GIN_MODE=release", "HOME=" + dir, "PATH=/usr/bin:/bin"}, env...)
	p.cmd.Stdout, p.cmd.Stderr = p, p
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	started := make(chan error)
	go func() {
		runtime.LockOSThread() // the death signal is the thread's
		err := p.cmd.Start()
		started <- err
		if err == nil {
			p.err = p.cmd.Wait()
			close(p.done)
		}
	}()
	if err := <-started; err != nil {
		panic("VERIF-INTERNAL: " + err.Error())
	}
	return p
}

func (p *program) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

// wait waits for the end.
func (p *program) wait(what string) int {
	select {
	case <-p.done:
	case <-time.After(hang):
		p.kill()
		lib.Failf("end", "%s: the program has not ended after a minute", what)
	}
	var e *exec.ExitError
	if errors.As(p.err, &e) {
		return e.ExitCode()
	}
	if p.err != nil {
		panic("VERIF-INTERNAL: " + p.err.Error())
	}
	return 0
}

// up waits until the program serves its address or has ended.
func (p *program) up() bool {
	for began := time.Now(); time.Since(began) < hang; time.Sleep(2 * time.Millisecond) {
		select {
		case <-p.done:
			return false
		default:
		}
		if c, err := net.Dial("tcp", p.addr); err == nil {
			c.Close()
			return true
		}
	}
	p.kill()
	lib.Failf("start", "the program neither serves %s nor ends within a minute: %s", p.addr, p.output())
	return false
}

// serve starts the program and waits until it serves the address.
func serve(dir string, env []string, addr string) *program {
	for try := 0; ; try++ {
		p := launch(dir, env)
		p.addr = addr
		began := time.Now()
		for {
			c, err := net.Dial("tcp", addr)
			if err == nil {
				c.Close()
				return p
			}
			select {
			case <-p.done:
				if try < 5 && strings.Contains(p.output(), "address already in use") {
					time.Sleep(100 * time.Millisecond)
				} else {
					lib.Failf("start", "the program ends (%v) instead of serving %s: %s", p.err, addr, p.output())
				}
			case <-time.After(2 * time.Millisecond):
				if time.Since(began) > hang {
					p.kill()
					lib.Failf("start", "the program does not serve %s within a minute: %s", addr, p.output())
				}
				continue
			}
			break
		}
	}
}

func (p *program) ask(method, path, body string) (int, string) {
	c, err := net.Dial("tcp", p.addr)
	if err != nil {
		p.kill()
		lib.Failf("request", "%s %s fails: %v: %s", method, path, err, p.output())
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(hang))
	fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: h\r\nConnection: close\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", method, path, len(body), body)
	rs, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		p.kill()
		lib.Failf("request", "%s %s is not answered: %v: %s", method, path, err, p.output())
	}
	data, _ := io.ReadAll(rs.Body)
	return rs.StatusCode, string(data)
}

func (p *program) list() []string {
	code, body := p.ask("GET", "/api/v1/namespaces", "")
	var l []struct {
		Name               string
		Type               string
		MaxSimilarProfiles uint64
	}
	if err := json.Unmarshal([]byte(body), &l); code != 200 || err != nil {
		p.kill()
		lib.Failf("list", "listing is answered with %d %q", code, body)
	}
	names := []string{}
	for _, n := range l {
		names = append(names, fmt.Sprintf("%s/%s/%d", n.Name, n.Type, n.MaxSimilarProfiles))
	}
	sort.Strings(names)
	return names
}

type limits map[string]uint64

func (m limits) list() []string {
	l := []string{}
	for n, v := range m {
		l = append(l, fmt.Sprintf("%s/like/%d", n, v))
	}
	sort.Strings(l)
	return l
}

func (m limits) with(from, to string, limit uint64) limits {
	n := limits{}
	for k, v := range m {
		if k != from {
			n[k] = v
		}
	}
	n[to] = limit
	return n
}

// change is a request that changes the registry.
type change struct {
	from, to string // from "": creation
	limit    uint64
}

func (o change) String() string {
	if o.from == "" {
		return fmt.Sprintf("create %s with limit %d", o.to, o.limit)
	}
	return fmt.Sprintf("update %s to %s with limit %d", o.from, o.to, o.limit)
}

func (o change) request() (method, path, body string) {
	if o.from == "" {
		return "POST", "/api/v1/namespaces", fmt.Sprintf(`{"name":%q,"type":"like","maxSimilarProfiles":%d,"dislikeFactor":0.5}`, o.to, o.limit)
	}
	return "PUT", "/api/v1/namespaces/" + o.from, fmt.Sprintf(`{"name":%q,"maxSimilarProfiles":%d,"dislikeFactor":0.5}`, o.to, o.limit)
}

func (o change) apply(m limits) (limits, bool) {
	_, taken := m[o.to]
	if o.from == "" {
		if taken {
			return m, false
		}
		return m.with("", o.to, o.limit), true
	}
	if _, ok := m[o.from]; !ok || taken && o.from != o.to {
		return m, false
	}
	return m.with(o.from, o.to, o.limit), true
}

func writeEnv(dir string, lines ...string) {
	if err := os.WriteFile(filepath.Join(dir, ".env"), []byte(strings.Join(lines, "\n")+"\n"), 0644); err != nil {
		panic("VERIF-INTERNAL: " + err.Error())
	}
}

func checkC30(r *lib.Run) {
	if os.Getenv("VERIF_MAIN") == "" {
		panic("VERIF-INTERNAL: VERIF_MAIN is not set")
	}
	root := filepath.Join(os.Getenv("VERIF_SCRATCH"), "run")
	changes := []change{{"", "a", 5}, {"", "b", 6}, {"a", "c", 7}, {"a", "a", 8}, {"b", "a", 9}}
	ends := []string{"SIGTERM", "SIGINT", "SIGKILL"}
	histories := func(title string, length int) {
		r.EnumerateShared(title, func(c *lib.C) {
			n := 1 + c.Choose(length)
			var ks []int
			for i := 0; i < n; i++ {
				ks = append(ks, c.Choose(2*len(changes)+len(ends)))
			}
			c.Share(fmt.Sprint(ks))
			emptyDir(root)
			data := filepath.Join(root, "data")
			os.Mkdir(data, 0755)
			host := ownHost()
			writeEnv(root, "REC_HOST="+host, "REC_PORT=18080", "REC_PATH=data")
			m := limits{}
			p := serve(root, nil, host+":18080")
			defer func() { p.kill() }()
			check := func(when string) {
				got, want := strings.Join(p.list(), " "), strings.Join(m.list(), " ")
				if got != want {
					lib.Failf("list", "%s the program lists [%s], should list [%s]; its output: %s", when, got, want, p.output())
				}
			}
			end := func(how string) {
				c.Note("%s, restart", how)
				switch how {
				case "SIGTERM":
					p.cmd.Process.Signal(syscall.SIGTERM)
				case "SIGINT":
					p.cmd.Process.Signal(syscall.SIGINT)
				case "SIGKILL":
					p.kill()
				}
				if code := p.wait(how); code != 0 && how != "SIGKILL" {
					lib.Failf("status", "the program ends with status %d after %s: %s", code, how, p.output())
				}
				p = serve(root, nil, p.addr)
			}
			for _, k := range ks {
				switch {
				case k < len(changes):
					o := changes[k]
					after, ok := o.apply(m)
					method, path, body := o.request()
					code, answer := p.ask(method, path, body)
					c.Note("%v: %d", o, code)
					if ok && code != 200 && code != 201 || !ok && (code < 400 || code > 499) {
						lib.Failf("answer", "%v is answered with %d %q when [%s] are registered", o, code, answer, strings.Join(m.list(), " "))
					}
					m = after
				case k < 2*len(changes):
					o := changes[k-len(changes)]
					after, _ := o.apply(m)
					method, path, body := o.request()
					conn, err := net.Dial("tcp", p.addr)
					if err != nil {
						lib.Failf("request", "connecting fails: %v", err)
					}
					fmt.Fprintf(conn, "%s %s HTTP/1.1\r\nHost: h\r\nContent-Length: %d\r\n\r\n%s", method, path, len(body), body)
					c.Note("%v, in flight", o)
					end("SIGKILL")
					conn.Close()
					got := strings.Join(p.list(), " ")
					if got == strings.Join(after.list(), " ") {
						m = after
					}
				default:
					end(ends[k-2*len(changes)])
				}
				if len(m) > 0 {
					c.Interesting()
				}
				check("after this")
			}
			end("SIGKILL")
			check("after the restart")
			end("SIGTERM")
			check("after the restart")
		})
	}
	if r.Thorough {
		histories("histories of four requests, ends and kills", 4)
	} else {
		histories("histories of three requests, ends and kills", 3)
	}

	// Where the settings come from.
	bit := func(i, k int) bool { return i>>k&1 == 1 }
	show := func(i int) string {
		var l []string
		for k, s := range []string{"host in the file", "host in the environment", "port in the file", "port in the environment", "directory in the file", "directory in the environment"} {
			if bit(i, k) {
				l = append(l, s)
			}
		}
		return strings.Join(l, ", ")
	}
	r.ForEach("settings in the file and in the environment", 64, show, func(i int) {
		for try := 0; try < 5; try++ {
			emptyDir(root)
			for _, d := range []string{"f", "e"} {
				os.Mkdir(filepath.Join(root, d), 0755)
			}
			host, port, dir := "localhost", "8080", ""
			var file, env []string
			if bit(i, 0) {
				host = ownHost()
				file = append(file, "REC_HOST="+host)
			}
			if bit(i, 1) {
				host = ownHost()
				env = append(env, "REC_HOST="+host)
			}
			if bit(i, 2) {
				port = fmt.Sprint(freePort())
				file = append(file, "REC_PORT="+port)
			}
			if bit(i, 3) {
				port = fmt.Sprint(freePort())
				env = append(env, "REC_PORT="+port)
			}
			if bit(i, 4) {
				dir = "f"
				file = append(file, "REC_PATH=f")
			}
			if bit(i, 5) {
				dir = "e"
				env = append(env, "REC_PATH=e/")
			}
			writeEnv(root, file...)
			addr := net.JoinHostPort(host, port)
			if host == "localhost" && !canListen(addr) {
				time.Sleep(200 * time.Millisecond) // somebody else's
				continue
			}
			p := serve(root, env, addr)
			defer p.kill()
			if host != "localhost" {
				for _, h := range []string{"localhost", ownHost()} {
					if c, err := net.Dial("tcp", net.JoinHostPort(h, port)); err == nil {
						c.Close()
						if bit(i, 2) || bit(i, 3) {
							lib.Failf("address", "with %s the program listens on %s, too (it should on %s only)", show(i), h, addr)
						}
					}
				}
			}
			if code, answer := p.ask("POST", "/api/v1/namespaces", `{"name":"n","type":"like","dislikeFactor":0}`); code != 201 {
				select {
				case <-p.done:
					continue // this was somebody else's server
				case <-time.After(50 * time.Millisecond):
				}
				lib.Failf("answer", "with %s creating a namespace is answered with %d %q", show(i), code, answer)
			}
			for _, d := range []string{"", "f", "e"} {
				l, _ := filepath.Glob(filepath.Join(root, d, "*.json*"))
				if (len(l) > 0) != (d == dir) {
					select {
					case <-p.done:
						continue
					default:
					}
					lib.Failf("directory", "with %s the directory %q holds %v, the data directory should be %q", show(i), d, l, dir)
				}
			}
			return
		}
		r.Incomplete("settings: " + show(i) + ": the default address is in use")
	})

	// Registries that cannot be loaded, and one that can.
	good := `[{"name":"a","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5},{"name":"b","type":"like","maxSimilarProfiles":6,"dislikeFactor":1}]`
	regs := []string{good, "", "x", "{", "[", "{}", "5", `"a"`, good[:len(good)-1], good[:1], good[:40], good + "x", good + good, strings.Replace(good, "like", "hate", 1), strings.Replace(good, `"b"`, `"1"`, 1), strings.Replace(good, `"a"`, `""`, 1), strings.Replace(good, "5", `"5"`, 1), "\x00" + good, strings.Repeat("\x00", len(good)), strings.Repeat("\xff", 100)}
	hows := []string{"SIGTERM", "SIGINT", "SIGKILL"}
	r.ForEach("registries found at the start", len(regs)*len(hows), func(i int) string { return fmt.Sprintf("%q, %s", regs[i/3], hows[i%3]) }, func(i int) {
		emptyDir(root)
		data := regs[i/3]
		file := filepath.Join(root, "namespaces.json")
		if err := os.WriteFile(file, []byte(data), 0644); err != nil {
			panic("VERIF-INTERNAL: " + err.Error())
		}
		host := ownHost()
		writeEnv(root, "REC_HOST="+host, "REC_PORT=18080")
		want := ""
		if data == good {
			want = "a/like/5 b/like/6"
		}
		for k := 0; k < 2; k++ {
			var p *program
			up := true
			if data == good {
				p = serve(root, nil, host+":18080")
			} else {
				// It may also refuse to start.
				p = launch(root, nil)
				p.addr = host + ":18080"
				up = p.up()
			}
			if up {
				if got := strings.Join(p.list(), " "); got != want {
					p.kill()
					lib.Failf("list", "over the registry %q the program lists [%s], should list [%s]; its output: %s", data, got, want, p.output())
				}
				if hows[i%3] == "SIGKILL" {
					p.kill()
				} else {
					sig := syscall.SIGTERM
					if hows[i%3] == "SIGINT" {
						sig = syscall.SIGINT
					}
					p.cmd.Process.Signal(sig)
				}
			}
			code := p.wait(hows[i%3])
			p.kill()
			if up && code != 0 && hows[i%3] != "SIGKILL" || !up && code == 0 {
				lib.Failf("status", "over the registry %q the program ends with status %d: %s", data, code, p.output())
			}
			if now, err := os.ReadFile(file); err != nil || string(now) != data {
				lib.Failf("registry", "starting and ending the program turns the registry %q into %q (error %v)", data, now, err)
			}
		}
	})

	// Signals while a request is in flight, whose client takes its time.
	lists := [][]syscall.Signal{}
	both := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}
	for _, x := range both {
		lists = append(lists, []syscall.Signal{x})
		for _, y := range both {
			lists = append(lists, []syscall.Signal{x, y}, []syscall.Signal{x, y, x}, []syscall.Signal{x, y, y})
		}
	}
	r.ForEach("signals while a request is in flight", len(lists), func(i int) string { return fmt.Sprint(lists[i]) }, func(i int) {
		attempts(r, fmt.Sprint("signals ", lists[i]), func() {
			emptyDir(root)
			host := ownHost()
			writeEnv(root, "REC_HOST="+host, "REC_PORT=18080")
			if err := os.WriteFile(filepath.Join(root, "namespaces.json"), []byte(good), 0644); err != nil {
				panic("VERIF-INTERNAL: " + err.Error())
			}
			p := serve(root, nil, host+":18080")
			defer func() { p.kill() }()
			conn, err := net.Dial("tcp", p.addr)
			if err != nil {
				lib.Failf("request", "connecting fails: %v: %s", err, p.output())
			}
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(hang))
			rd := bufio.NewReader(conn)
			rq := postRequest(`{"name":"c","type":"like","maxSimilarProfiles":7,"dislikeFactor":0.5}`)
			if err := sendPart(conn, rd, rq, len(rq)-10); err != nil {
				lib.Failf("request", "a request fails before the signal: %v: %s", err, p.output())
			}
			began := time.Now()
			late := func() {
				if time.Since(began) > 3*time.Second {
					panic(slow{"it took long"})
				}
			}
			for _, s := range lists[i] {
				p.cmd.Process.Signal(s)
				// Until it does not listen any more, then a little longer.
				for {
					c, err := net.Dial("tcp", p.addr)
					if err != nil {
						break
					}
					c.Close()
					if time.Since(began) > hang {
						lib.Failf("listening", "a minute after the signal the program still accepts connections: %s", p.output())
					}
					time.Sleep(time.Millisecond)
				}
				time.Sleep(20 * time.Millisecond)
			}
			late()
			_, err = io.WriteString(conn, rq[len(rq)-10:])
			var rs *http.Response
			if err == nil {
				rs, err = http.ReadResponse(rd, nil)
			}
			late()
			if err != nil || rs.StatusCode != 201 {
				lib.Failf("answer", "the request in flight when the signals %v came is not answered: %v, %v: %s", lists[i], rs, err, p.output())
			}
			conn.Close()
			code := p.wait(fmt.Sprint(lists[i]))
			late()
			if code != 0 {
				lib.Failf("status", "after the signals %v the program ends with status %d: %s", lists[i], code, p.output())
			}
			p = serve(root, nil, p.addr)
			if got, want := strings.Join(p.list(), " "), "a/like/5 b/like/6 c/like/7"; got != want {
				lib.Failf("list", "after a restart the program lists [%s], should list [%s]: %s", got, want, p.output())
			}
		})
	})

	// What must keep it from starting.
	causes := []struct {
		title string
		do    func(host string) []string
	}{
		{"no .env file", func(h string) []string { return []string{"REC_HOST=" + h, "REC_PORT=18080"} }},
		{"the .env file is a directory", func(h string) []string {
			os.Mkdir(filepath.Join(root, ".env"), 0755)
			return []string{"REC_HOST=" + h, "REC_PORT=18080"}
		}},
		{"the .env file is no list of settings", func(h string) []string {
			writeEnv(root, "REC_HOST="+h, "REC_PORT=18080", "what is this")
			return nil
		}},
		{"the port is too large", func(h string) []string {
			writeEnv(root, "REC_HOST="+h, "REC_PORT=65536")
			return nil
		}},
		{"the host does not exist", func(h string) []string {
			writeEnv(root, "REC_HOST=192.0.2.1", "REC_PORT=18080")
			return nil
		}},
		{"the address is taken", func(h string) []string {
			writeEnv(root, "REC_HOST="+h, "REC_PORT=18080")
			return nil
		}},
		{"the address is taken by the program", func(h string) []string {
			writeEnv(root, "REC_HOST="+h, "REC_PORT=18080")
			return nil
		}},
	}
	r.ForEach("what keeps the program from serving", len(causes), func(i int) string { return causes[i].title }, func(i int) {
		emptyDir(root)
		host := ownHost()
		env := causes[i].do(host)
		switch causes[i].title {
		case "the address is taken":
			l, err := net.Listen("tcp", host+":18080")
			if err != nil {
				lib.Skip()
			}
			defer l.Close()
		case "the address is taken by the program":
			defer serve(root, nil, host+":18080").kill()
		}
		p := launch(root, env)
		defer p.kill()
		code := p.wait(causes[i].title)
		if code == 0 {
			lib.Failf("status", "%s: the program ends with status 0: %s", causes[i].title, p.output())
		}
		if strings.TrimSpace(p.output()) == "" {
			lib.Failf("status", "%s: the program ends without a message", causes[i].title)
		}
	})
}
