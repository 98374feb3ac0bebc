id="C26-close"; property="C26"
needs="a request whose body is still arriving when the signal comes"
breaks="requests in flight are cut off when the server is told to terminate"
pkg="internal/api/shard"
edits=[("internal/api/shard/application.go","""	if err := srv.httpSrv.Shutdown(ctx); err != nil {
""","""	if err := srv.httpSrv.Close(); err != nil {
""")]
test='''
package shard

import (
	"bufio"
	"context"
	"net"
	"net/http"
	"recengine/internal/domain"
	"syscall"
	"testing"
	"time"

	"github.com/gin-gonic/gin"
)

func TestDemo(t *testing.T) {
	t.Setenv("REC_PATH", t.TempDir())
	gin.SetMode(gin.ReleaseMode)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	app := NewApplication(&ApplicationDto{Config: &Config{Host: "127.0.0.1", Port: port},
		NsService: domain.NewNamespaceService(context.Background(), nil, nil)})
	result := make(chan error, 1)
	go func() { result <- app.Run() }()
	var c net.Conn
	for i := 0; i < 200; i++ {
		if c, err = net.Dial("tcp", l.Addr().String()); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		t.Fatal(err)
	}
	body := `{"name":"a","type":"like","dislikeFactor":1}`
	c.Write([]byte("POST /api/v1/namespaces HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: 44\\r\\n\\r\\n"))
	c.Write([]byte(body[:10]))
	time.Sleep(500 * time.Millisecond)
	syscall.Kill(syscall.Getpid(), syscall.SIGTERM)
	time.Sleep(500 * time.Millisecond)
	c.Write([]byte(body[10:]))
	c.SetReadDeadline(time.Now().Add(20 * time.Second))
	r, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil || r.StatusCode != 201 {
		t.Fatal(r, err)
	}
	if err := <-result; err != nil {
		t.Fatal(err)
	}
}
'''
