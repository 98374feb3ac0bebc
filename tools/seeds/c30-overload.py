id="C30-overload"; property="C30"
needs="a setting that is both in the .env file and, with another value, in the environment of the process"
breaks="the .env file takes precedence over the process environment, so the program serves another registry or address"
pkg="."
edits=[("main.go","""	if err := godotenv.Load(); err != nil {
""","""	if err := godotenv.Overload(); err != nil {
""")]
run='''
package main

import (
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
	"time"
	"net/http"
	"strconv"
)

// start runs the program in a directory with the given .env file and returns it when it serves.
func start(t *testing.T, dir, dotenv string, env []string, port int) *exec.Cmd {
	os.WriteFile(filepath.Join(dir, ".env"), []byte(dotenv), 0644)
	bin := filepath.Join(dir, "prog")
	wd, _ := os.Getwd()
	b := exec.Command("go", "build", "-o", bin, ".")
	b.Dir = wd
	if out, err := b.CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	c := exec.Command(bin)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { c.Process.Kill(); c.Wait() })
	for i := 0; i < 300; i++ {
		if r, err := http.Get("http://127.0.0.1:" + strconv.Itoa(port) + "/api/v1/namespaces"); err == nil {
			r.Body.Close()
			return c
		}
		time.Sleep(50 * time.Millisecond)
	}
	t.Fatal("does not serve")
	return nil
}

func free(t *testing.T) int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}
'''
test=run+'''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	port := free(t)
	start(t, dir, "REC_PATH="+dir+"\\nREC_HOST=127.0.0.1\\nREC_PORT="+strconv.Itoa(free(t))+"\\n", []string{"REC_PORT=" + strconv.Itoa(port)}, port)
}
'''
