//go:build go1.24

package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"recengine/internal/api/shard"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/zzverif/lib"
)

func init() {
	checks["C26"] = lib.Check{Level: "exploration", Procs: true,
		Rule: "Every combination of what keeps the address from being listened on, and every combination of termination signal, number of clients, and the phase each client's request is in when the signal comes (before the server listens, no connection, idle connection, part of the head, part of the body, in the handler), on the real application, the real network stack (loopback) and real signals.",
		Assumptions: []string{
			"a request is in flight once the server has its head",
			"a client that keeps the server waiting for longer than the five seconds it grants is not a request in flight",
			"a run that has not ended a minute after the signal does not end; cases in which this machine was too slow to tell are repeated and then reported as not covered",
		},
		Fn: checkC26,
	}
}

const hang = 60 * time.Second

// app is an application over an empty directory.
func app(dir, host string, port int) (*shard.Application, *domain.NamespaceService) {
	emptyDir(dir)
	os.Setenv("REC_PATH", dir)
	svc := domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
	return shard.NewApplication(&shard.ApplicationDto{Config: &shard.Config{Host: host, Port: port}, NsService: svc}), svc
}

func start(a *shard.Application) chan error {
	done := make(chan error, 1)
	go func() { done <- a.Run() }()
	return done
}

var ports int

// freePort finds a port that can be listened on, outside of those the system
// gives to outgoing connections.
func freePort() int {
	for {
		ports++
		port := 20000 + os.Getpid()%97*120 + ports%120
		if canListen(fmt.Sprintf("127.0.0.1:%d", port)) {
			return port
		}
	}
}

func canListen(addr string) bool {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return false
	}
	l.Close()
	return true
}

// barrier receives the signal sent after all others.
var barrier = make(chan os.Signal, 1)

// signals sends signals to this process until the run has ended, and returns
// when each has reached those who catch it. Signals to the calling thread reach
// the runtime at once, and the runtime passes them on one after another, of those
// it has at the same time the one with the lowest number first.
func signals(list []syscall.Signal, ended chan struct{}) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	send := func(s syscall.Signal) {
		if err := syscall.Tgkill(syscall.Getpid(), syscall.Gettid(), s); err != nil {
			panic("VERIF-INTERNAL: " + err.Error())
		}
	}
	for i, on := 0, true; on; i++ {
		send(list[i%len(list)])
		select {
		case <-ended:
			on = false
		case <-time.After(20 * time.Millisecond):
		}
	}
	send(syscall.SIGWINCH)
	<-barrier
}

type phase int

const (
	idle    phase = iota // a connection that has had an answer
	head                 // a part of the head of a request has been sent
	body                 // the head and a part of the body have been sent
	handler              // the request is being served
	nothing              // a finished connection
)

var phaseNames = []string{"an idle connection", "a part of the head sent", "a part of the body sent", "in the handler", "a closed connection"}

// postRequest is a request whose client waits, after the head, until the server
// asks for the body.
func postRequest(b string) string {
	return fmt.Sprintf("POST /api/v1/namespaces HTTP/1.1\r\nHost: h\r\nExpect: 100-continue\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
}

// sendPart sends the first n bytes of the request. If they are more than the
// head, the server has the head and reads the body when it returns.
func sendPart(conn net.Conn, r *bufio.Reader, rq string, n int) error {
	h := strings.Index(rq, "\r\n\r\n") + 4
	if n <= h {
		_, err := io.WriteString(conn, rq[:n])
		return err
	}
	if _, err := io.WriteString(conn, rq[:h]); err != nil {
		return err
	}
	for _, want := range []string{"HTTP/1.1 100 Continue\r\n", "\r\n"} {
		if l, err := r.ReadString('\n'); err != nil || l != want {
			return fmt.Errorf("asked whether to go on, the server answers %q (error %v)", l, err)
		}
	}
	_, err := io.WriteString(conn, rq[h:n])
	return err
}

// client is a client of the server.
type client struct {
	phase phase
	conn  net.Conn
	r     *bufio.Reader
	name  string
	rest  string
}

func (c *client) request() string {
	b := fmt.Sprintf(`{"name":%q,"type":"like","dislikeFactor":0.5}`, c.name)
	return postRequest(b)
}

// slow panics if this machine is too slow.
type slow struct{ what string }

func (c *client) begin(addr string) error {
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		return err
	}
	conn.SetDeadline(time.Now().Add(hang))
	c.conn, c.r = conn, bufio.NewReader(conn)
	rq := c.request()
	n := 0
	switch c.phase {
	case idle, nothing:
		if _, err := io.WriteString(conn, "GET /api/v1/namespaces HTTP/1.1\r\nHost: h\r\n\r\n"); err != nil {
			return err
		}
		rs, err := http.ReadResponse(c.r, nil)
		if err != nil {
			return err
		}
		if _, err := io.ReadAll(rs.Body); err != nil {
			return err
		}
		rs.Body.Close()
		if c.phase == nothing {
			conn.Close()
		}
		return nil
	case head:
		n = 40
	case body:
		n = len(rq) - 10
	case handler:
		n = len(rq)
	}
	c.rest = rq[n:]
	return sendPart(conn, c.r, rq, n)
}

// finish sends the rest and reads the answer.
func (c *client) finish() (answer string, err error) {
	if c.phase == idle || c.phase == nothing {
		return "", nil
	}
	if c.rest != "" {
		if _, err := io.WriteString(c.conn, c.rest); err != nil {
			return "", err
		}
	}
	rs, err := http.ReadResponse(c.r, nil)
	if err != nil {
		return "", err
	}
	data, err := io.ReadAll(rs.Body)
	if err != nil {
		return "", err
	}
	return fmt.Sprintf("%d %s", rs.StatusCode, data), nil
}

// terminate is one case: clients in their phases, beginning at some age of the
// run, then signals.
func terminate(dir string, list []syscall.Signal, phases []phase, early bool, age, hold time.Duration) {
	keep := make(chan os.Signal, 16)
	signal.Notify(keep, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
	defer signal.Stop(keep)
	var a *shard.Application
	var svc *domain.NamespaceService
	var done chan error
	var addr string
	for try := 0; ; try++ {
		host, port := ownHost(), freePort()
		addr = fmt.Sprintf("%s:%d", host, port)
		a, svc = app(dir, host, port)
		done = start(a)
		if early {
			break
		}
		// Wait until it listens.
		began := time.Now()
		var err error
		for {
			var c net.Conn
			if c, err = net.Dial("tcp", addr); err == nil {
				c.Close()
				break
			}
			select {
			case e := <-done:
				if e == nil {
					lib.Failf("early", "the run ends without an error, though there has been no signal")
				}
				err = e
				if try < 10 {
					began = time.Time{}
					break
				}
				lib.Failf("listen", "the run ends with error %v, though the address %s can be listened on: %v", e, addr, canListen(addr))
			case <-time.After(2 * time.Millisecond):
			}
			if began.IsZero() {
				break
			}
			if time.Since(began) > hang {
				lib.Failf("listen", "after a minute %s does not accept connections: %v", addr, err)
			}
		}
		if err == nil {
			break
		}
	}
	time.Sleep(age)
	ended := make(chan struct{})
	sending := make(chan struct{})
	defer func() {
		select {
		case <-ended:
		default:
			close(ended)
		}
		<-sending
		drain(keep)
	}()
	// A request in the handler: its saving waits for a reader of the file.
	fifo := filepath.Join(dir, "namespaces.json.tmp")
	var clients []*client
	held := false
	for i, p := range phases {
		c := &client{phase: p, name: fmt.Sprint("ns", i)}
		clients = append(clients, c)
		if p == handler {
			continue
		}
		if err := c.begin(addr); err != nil {
			close(sending)
			lib.Failf("request", "before any signal a request fails: %v", err)
		}
		defer c.conn.Close()
	}
	// Those in the handler keep the others from being served.
	for _, c := range clients {
		if c.phase != handler {
			continue
		}
		if !held {
			if err := syscall.Mkfifo(fifo, 0600); err != nil {
				panic("VERIF-INTERNAL: " + err.Error())
			}
			held = true
		}
		if err := c.begin(addr); err != nil {
			close(sending)
			lib.Failf("request", "before any signal a request fails: %v", err)
		}
		defer c.conn.Close()
	}
	// The server must have read what was sent.
	time.Sleep(20 * time.Millisecond)
	select {
	case err := <-done:
		close(sending)
		lib.Failf("early", "the run ends (error %v), though there has been no signal", err)
	default:
	}
	signalled := time.Now()
	go func() {
		defer close(sending)
		signals(list, ended)
	}()
	late := func() bool {
		if hold > 0 {
			return time.Since(signalled) > hold+1200*time.Millisecond
		}
		return time.Since(signalled) > 2*time.Second
	}
	// The shutdown has begun when nobody is accepted any more.
	pending := false
	for _, p := range phases {
		pending = pending || p == head || p == body || p == handler
	}
	var result error
	over := false
	if pending {
		for {
			c, err := net.Dial("tcp", addr)
			if err != nil {
				break
			}
			c.Close()
			select {
			case result = <-done:
				over = true
			case <-time.After(2 * time.Millisecond):
			}
			if over || time.Since(signalled) > hang {
				break
			}
		}
		if late() {
			if time.Since(signalled) > hang {
				lib.Failf("listening", "a minute after the signal the server still accepts connections")
			}
			if !over {
				panic(slow{"the shutdown began late"})
			}
		}
		if !over {
			// In the handler: let it go on.
			select {
			case result = <-done:
				over = true
			case <-time.After(10 * time.Millisecond):
			}
		}
	}
	// A client may take its time.
	time.Sleep(hold)
	if held {
		go func() {
			// Reads what is saved, as often as it is.
			f, err := os.OpenFile(fifo, os.O_RDONLY|syscall.O_NONBLOCK, 0)
			if err != nil {
				return
			}
			defer f.Close()
			// The next saves must find an ordinary file.
			os.Remove(fifo)
			f.SetReadDeadline(time.Now().Add(hang))
			io.Copy(io.Discard, f)
		}()
	}
	for i, c := range clients {
		answer, err := c.finish()
		if c.phase == idle || c.phase == nothing || c.phase == head {
			continue // not in flight
		}
		if late() {
			panic(slow{"an answer came late"})
		}
		if err != nil {
			lib.Failf("answer", "a request in flight (%s) when the signal came is not answered: %v; the run had ended: %v (error %v)", phaseNames[c.phase], err, over, result)
		}
		ok := strings.HasPrefix(answer, "201 ") && strings.Contains(answer, fmt.Sprintf("%q", c.name))
		if !ok && held && strings.HasPrefix(answer, "400 ") && strings.Contains(answer, "namespaces.json") {
			ok = true // the file it was saving was taken away
		}
		if !ok {
			lib.Failf("answer", "a request in flight (%s) when the signal came is answered with %q", phaseNames[c.phase], answer)
		}
		_ = i
	}
	if !over {
		select {
		case result = <-done:
		case <-time.After(hang):
			lib.Failf("end", "a minute after the signal the run has not ended")
		}
	}
	if result != nil {
		if late() || time.Since(signalled) > 4500*time.Millisecond {
			panic(slow{"the shutdown took long"})
		}
		lib.Failf("result", "after the signal the run ends with error %v", result)
	}
	close(ended)
	if c, err := net.Dial("tcp", addr); err == nil {
		c.Close()
		lib.Failf("listening", "after the run has ended the server still accepts connections")
	}
	_ = svc
}

func drain(c chan os.Signal) {
	for {
		select {
		case <-c:
		default:
			return
		}
	}
}

type busy struct {
	title string
	host  string
	port  func() (int, func())
}

func none() {}

func checkC26(r *lib.Run) {
	signal.Notify(barrier, syscall.SIGWINCH)
	dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), "data")
	fixed := func(p int) func() (int, func()) { return func() (int, func()) { return p, none } }
	taken := func(on string) func() (int, func()) {
		return func() (int, func()) {
			for i := 0; ; i++ {
				port := freePort()
				l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", on, port))
				if err == nil {
					return port, func() { l.Close() }
				}
				if i == 100 {
					panic("VERIF-INTERNAL: " + err.Error())
				}
			}
		}
	}
	own := ownHost()
	other := func() (int, func()) {
		// Taken by another run.
		for {
			port := freePort()
			a, _ := app(dir+".other", own, port)
			start(a)
			began := time.Now()
			for time.Since(began) < hang {
				if c, err := net.Dial("tcp", fmt.Sprintf("%s:%d", own, port)); err == nil {
					c.Close()
					return port, none
				}
				time.Sleep(2 * time.Millisecond)
			}
			lib.Skip()
		}
	}
	busies := []busy{
		{"the port is taken", own, taken(own)},
		{"the port is taken on all addresses", "0.0.0.0", taken(own)},
		{"the port is taken by all addresses", own, taken("0.0.0.0")},
		{"no such port", own, fixed(65536)},
		{"no such port at all", own, fixed(1 << 40)},
		{"a negative port", own, fixed(-1)},
		{"an address of another machine", "192.0.2.1", func() (int, func()) { return freePort(), none }},
		{"a bad address", own + ":80", func() (int, func()) { return freePort(), none }},
		{"a bad host", "[" + own, func() (int, func()) { return freePort(), none }},
		{"the port is taken by another run", own, other},
	}
	r.ForEach("addresses that cannot be listened on", len(busies), func(i int) string { return busies[i].title }, func(i int) {
		b := busies[i]
		port, release := b.port()
		defer release()
		if canListen(fmt.Sprintf("%s:%d", b.host, port)) {
			lib.Skip()
		}
		a, _ := app(dir, b.host, port)
		done := start(a)
		select {
		case err := <-done:
			if err == nil {
				lib.Failf("error", "%s: the run ends without an error", b.title)
			}
		case <-time.After(hang):
			lib.Failf("error", "%s: the run has not ended after a minute", b.title)
		}
	})

	lists := [][]syscall.Signal{{syscall.SIGTERM}, {syscall.SIGINT}, {syscall.SIGTERM, syscall.SIGINT}, {syscall.SIGINT, syscall.SIGTERM}}
	var cases [][]phase
	ps := []phase{idle, head, body, handler, nothing}
	cases = append(cases, nil)
	for _, p := range ps {
		cases = append(cases, []phase{p})
		for _, q := range ps {
			cases = append(cases, []phase{p, q})
			for _, s := range ps {
				cases = append(cases, []phase{p, q, s})
			}
		}
	}
	show := func(i int) string {
		var l []string
		for _, p := range cases[i/len(lists)] {
			l = append(l, phaseNames[p])
		}
		return fmt.Sprintf("signals %v, clients: %s", lists[i%len(lists)], strings.Join(l, ", "))
	}
	tries := func(what string, f func()) { attempts(r, what, f) }
	r.ForEach("signals and requests in flight", len(cases)*len(lists), show, func(i int) {
		tries(show(i), func() { terminate(dir, lists[i%len(lists)], cases[i/len(lists)], false, 0, 0) })
	})
	slowly := [][]phase{{body}, {handler}, {body, body}, {body, handler}, {idle, body}}
	r.ForEach("clients taking three of the five seconds", len(slowly)*len(lists), func(i int) string {
		return fmt.Sprint("signals ", lists[i%len(lists)], ", clients ", slowly[i/len(lists)])
	}, func(i int) {
		tries("slow clients", func() { terminate(dir, lists[i%len(lists)], slowly[i/len(lists)], false, 0, 3*time.Second) })
	})
	ages := []time.Duration{6 * time.Second, 12 * time.Second, 32 * time.Second}
	if r.Thorough {
		ages = append(ages, 64*time.Second, 125*time.Second)
	}
	aged := [][]phase{nil, {idle}, {body, handler}}
	r.ForEach("runs that have lasted", len(ages)*len(aged), func(i int) string {
		return fmt.Sprint("for ", ages[i%len(ages)], ", clients ", aged[i/len(ages)])
	}, func(i int) {
		tries("a run that has lasted", func() {
			terminate(dir, lists[i%2], aged[i/len(ages)], false, ages[i%len(ages)], 0)
		})
	})
	r.ForEach("signals from the very start", 8*len(lists), func(i int) string { return fmt.Sprint("signals ", lists[i%len(lists)]) }, func(i int) {
		tries(fmt.Sprint("signals ", lists[i%len(lists)], " from the very start"), func() { terminate(dir, lists[i%len(lists)], nil, true, 0, 0) })
	})
	orders(r, dir, lists)
}

// orders lets the two beginnings of a run, catching signals and listening,
// take place in both orders, each waiting for the other.
func orders(r *lib.Run, dir string, lists [][]syscall.Signal) {
	defer func() { signal.VerifNotify, net.VerifListen = nil, nil }()
	r.ForEach("catching signals begins late", 1, func(int) string { return "the first call of signal.Notify waits" }, func(int) {
		host, port := ownHost(), freePort()
		addr := fmt.Sprintf("%s:%d", host, port)
		keep := make(chan os.Signal, 16)
		signal.Notify(keep, syscall.SIGINT, syscall.SIGTERM)
		defer signal.Stop(keep)
		var mu sync.Mutex
		caught := map[os.Signal]bool{}
		served := false
		signal.VerifNotify = func(sig []os.Signal) {
			mu.Lock()
			defer mu.Unlock()
			if !caught[syscall.SIGINT] || !caught[syscall.SIGTERM] {
				for i := 0; i < 150 && !served; i++ {
					if c, err := net.Dial("tcp", addr); err == nil {
						c.SetDeadline(time.Now().Add(hang))
						io.WriteString(c, "GET /api/v1/namespaces HTTP/1.1\r\nHost: h\r\n\r\n")
						if rs, err := http.ReadResponse(bufio.NewReader(c), nil); err == nil && rs.StatusCode == 200 {
							served = true
						}
						c.Close()
					}
					time.Sleep(2 * time.Millisecond)
				}
			}
			for _, s := range sig {
				caught[s] = true
			}
		}
		a, _ := app(dir, host, port)
		done := start(a)
		ended := make(chan struct{})
		sending := make(chan struct{})
		go func() {
			defer close(sending)
			time.Sleep(50 * time.Millisecond)
			signals(lists[0], ended)
		}()
		select {
		case <-done:
		case <-time.After(hang):
		}
		close(ended)
		<-sending
		signal.VerifNotify = nil
		mu.Lock()
		defer mu.Unlock()
		if served {
			lib.Failf("uncaught", "requests are served before termination signals are caught: a signal at this moment would end the process at once")
		}
	})
	r.ForEach("listening begins after the signal", len(lists), func(i int) string { return fmt.Sprint("signals ", lists[i]) }, func(i int) {
		attempts(r, "listening after the signal", func() {
			release := make(chan struct{})
			armed := true
			net.VerifListen = func(network, address string) {
				if armed {
					<-release
				}
			}
			keep := make(chan os.Signal, 16)
			signal.Notify(keep, syscall.SIGINT, syscall.SIGTERM)
			defer signal.Stop(keep)
			notified := make(chan struct{}, 16)
			signal.VerifNotify = func([]os.Signal) { notified <- struct{}{} }
			a, _ := app(dir, ownHost(), 0)
			done := start(a)
			ended := make(chan struct{})
			sending := make(chan struct{})
			select {
			case <-notified:
			case <-time.After(5 * time.Second):
			}
			began := time.Now()
			go func() { defer close(sending); signals(lists[i], ended) }()
			time.Sleep(100 * time.Millisecond)
			close(release)
			var result error
			hung := false
			select {
			case result = <-done:
			case <-time.After(hang):
				hung = true
			}
			close(ended)
			<-sending
			armed = false
			net.VerifListen, signal.VerifNotify = nil, nil
			if hung {
				lib.Failf("end", "a minute after a signal that came before listening the run has not ended")
			}
			if result != nil {
				if time.Since(began) > 3*time.Second {
					panic(slow{"the shutdown took long"})
				}
				lib.Failf("result", "after a signal that came before listening the run ends with error %v", result)
			}
		})
	})
}

// attempts repeats what this machine was too slow for.
func attempts(r *lib.Run, what string, f func()) {
	for i := 0; i < 4; i++ {
		tooSlow := false
		func() {
			defer func() {
				p := recover()
				if _, ok := p.(slow); ok {
					tooSlow = true
				} else if p != nil {
					panic(p)
				}
			}()
			f()
		}()
		if !tooSlow {
			return
		}
	}
	r.Incomplete(what + ": this machine is too slow")
}
