id="C30-first-load"; property="C30"
needs="a start over a registry that cannot be loaded (damaged, or unreadable for a moment)"
breaks="starting the program replaces a registry that cannot be loaded by an empty one"
pkg="."
edits=[("main.go","""	if err := nsService.LoadNamespaces(); err != nil {
		log.Printf("Warning: couldn't load domains (first load?): %v\\n", err)
	}
""","""	if err := nsService.LoadNamespaces(); err != nil {
		// First load: create the list.
		if err := nsService.SaveNamespaces(); err != nil {
			log.Printf("Warning: couldn't load domains (first load?): %v\\n", err)
		}
	}
""")]
run='''
package main

import (
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"testing"
	"time"
	"net/http"
	"strconv"
)

// start runs the program in a directory with the given .env file and returns it when it serves.
func start(t *testing.T, dir, dotenv string, env []string, port int) *exec.Cmd {
	os.WriteFile(filepath.Join(dir, ".env"), []byte(dotenv), 0644)
	bin := filepath.Join(dir, "prog")
	wd, _ := os.Getwd()
	b := exec.Command("go", "build", "-o", bin, ".")
	b.Dir = wd
	if out, err := b.CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	c := exec.Command(bin)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { c.Process.Kill(); c.Wait() })
	for i := 0; i < 300; i++ {
		if r, err := http.Get("http://127.0.0.1:" + strconv.Itoa(port) + "/api/v1/namespaces"); err == nil {
			r.Body.Close()
			return c
		}
		time.Sleep(50 * time.Millisecond)
	}
	t.Fatal("does not serve")
	return nil
}

func free(t *testing.T) int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}
'''
test=run+'''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	data := []byte("[{\\"name\\":\\"a\\",\\"type\\":\\"like\\",")
	os.WriteFile(filepath.Join(dir, "namespaces.json"), data, 0644)
	port := free(t)
	c := start(t, dir, "REC_PATH="+dir+"\\nREC_HOST=127.0.0.1\\nREC_PORT="+strconv.Itoa(port)+"\\n", nil, port)
	c.Process.Signal(syscall.SIGTERM)
	c.Wait()
	now, err := os.ReadFile(filepath.Join(dir, "namespaces.json"))
	if err != nil || string(now) != string(data) {
		t.Fatal(string(now), err)
	}
}
'''
