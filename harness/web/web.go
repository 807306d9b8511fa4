// Package web builds the programs of /repo and runs its web server on generated files.
package web

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"verif/harness/gen"
	"verif/harness/kit"
)

const addr = "127.0.0.1:8083" // the port is fixed in the server

// Build builds a main package of /repo; $VERIF_PROGRAM has its path.
func Build(pkg string, flags ...string) func(scratch string) ([]string, error) {
	return func(scratch string) ([]string, error) {
		out := filepath.Join(scratch, "program")
		cmd := exec.Command("go", append(append([]string{"build"}, flags...), "-o", out, pkg)...)
		cmd.Dir = "/repo"
		if b, err := cmd.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("build %s: %v\n%s", pkg, err, b)
		}
		return []string{"VERIF_PROGRAM=" + out}, nil
	}
}

// Program is what Build built
func Program() string { return os.Getenv("VERIF_PROGRAM") }

// Private tells whether processes can have a network of their own here. If not, the
// servers share the port and must run one after another.
func Private() bool {
	return exec.Command("unshare", "-Urn", "true").Run() == nil
}

// Wrap gives each child a network of its own
func Wrap() []string {
	if !Private() {
		return nil
	}
	return []string{"env", "VERIF_PRIVATE_NET=1", "unshare", "-Urn"}
}

// loopback brings up the loopback device of a new network
var loopback = sync.OnceFunc(func() {
	if os.Getenv("VERIF_PRIVATE_NET") == "" {
		return
	}
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	kit.Must(err)
	defer syscall.Close(fd)
	var req [40]byte
	copy(req[:], "lo")
	req[16] = syscall.IFF_UP | syscall.IFF_RUNNING&0xff
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&req[0]))); e != 0 {
		kit.Harness(fmt.Errorf("loopback: %w", e))
	}
})

// Command is a command which ends when it used up 40 seconds of CPU time
func Command(name string, args ...string) *exec.Cmd {
	return exec.Command("prlimit", append([]string{"--cpu=40", name}, args...)...)
}

// Server is a running server of /repo
type Server struct {
	cmd    *exec.Cmd
	done   chan struct{}
	client *http.Client
}

// The server is in the process group of the child, whose parent ends what is left of it.

// Start starts the server in an empty directory; the BBS home is gen.Home(dir + "/home/bbs"),
// which is there already. It is an error of the server when it ends.
func Start(dir string) (*Server, error) {
	loopback()
	for n := 0; ; n++ {
		l, err := net.Listen("tcp", ":8083")
		if err == nil {
			l.Close()
			break
		}
		if n > 3000 {
			kit.Harness(fmt.Errorf("port 8083 is busy: %w", err))
		}
		time.Sleep(10 * time.Millisecond)
	}
	run := filepath.Join(dir, "run")
	kit.Must(os.MkdirAll(run, 0755))
	log, err := os.Create(filepath.Join(dir, "log"))
	kit.Must(err)
	defer log.Close()
	s := &Server{cmd: Command(Program()), done: make(chan struct{})}
	s.cmd.Dir = run
	s.cmd.Env = []string{"PATH=/usr/bin:/bin", kit.TZ(), "GOMAXPROCS=2", "GORACE=halt_on_error=1 exitcode=66"}
	s.cmd.Stdout, s.cmd.Stderr = log, log
	kit.Must(s.cmd.Start())
	go func() {
		s.cmd.Wait()
		close(s.done)
	}()
	s.client = &http.Client{
		Timeout:       60 * time.Second,
		Transport:     &http.Transport{DisableCompression: true, Proxy: nil, DialContext: dial, MaxIdleConnsPerHost: 8},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
	}
	until := time.Now().Add(60 * time.Second)
	for {
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			c.Close()
			return s, nil
		}
		select {
		case <-s.done:
			b := kit.ReadFile(log.Name())
			return nil, fmt.Errorf("the server ends at its start: %v\n%s", s.cmd.ProcessState, tail(b))
		case <-time.After(time.Millisecond):
		}
		if time.Now().After(until) {
			s.Stop()
			return nil, fmt.Errorf("the server does not listen within a minute")
		}
	}
}

func dial(ctx context.Context, network, _ string) (net.Conn, error) {
	var d net.Dialer
	return d.DialContext(ctx, network, addr)
}

func tail(b []byte) []byte {
	if len(b) > 2000 {
		b = b[len(b)-2000:]
	}
	return b
}

// Stop ends the server
func (s *Server) Stop() {
	s.client.CloseIdleConnections()
	s.cmd.Process.Kill()
	<-s.done
}

// Answer of the server
type Answer struct {
	Status int
	Body   []byte
	Header http.Header
}

// Get asks for a path, which is escaped already
func (s *Server) Get(path string, header map[string]string) (Answer, error) {
	return s.do("GET", path, nil, header)
}

// Post sends a form
func (s *Server) Post(path string, form url.Values) (Answer, error) {
	return s.do("POST", path, []byte(form.Encode()), map[string]string{"Content-Type": "application/x-www-form-urlencoded"})
}

func (s *Server) do(method, path string, body []byte, header map[string]string) (Answer, error) {
	var in io.Reader
	if body != nil {
		in = bytes.NewReader(body)
	}
	req, err := http.NewRequest(method, "http://"+addr+path, in)
	kit.Must(err)
	for k, v := range header {
		req.Header.Set(k, v)
	}
	res, err := s.client.Do(req)
	if err != nil {
		return Answer{}, fmt.Errorf("%s %s: no answer: %w", method, path, err)
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return Answer{}, fmt.Errorf("%s %s: answer cut short: %w", method, path, err)
	}
	return Answer{res.StatusCode, b, res.Header}, nil
}

// Escape makes one segment of a path
func Escape(s string) string { return strings.ReplaceAll(url.PathEscape(s), "+", "%2B") }

// Home is the home of the BBS whose server runs in dir
func Home(dir string) gen.Home { return gen.Home(filepath.Join(dir, "home/bbs")) }

// Raw sends bytes to the server and reads one answer; without a method, whatever comes back is ignored.
func (s *Server) Raw(method string, req []byte) (Answer, error) {
	c, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if err != nil {
		return Answer{}, fmt.Errorf("no connection: %w", err)
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	if _, err := c.Write(req); err != nil {
		return Answer{}, fmt.Errorf("the request is not taken: %w", err)
	}
	if method == "" {
		c.(*net.TCPConn).CloseWrite()
	}
	r, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: method})
	if err != nil {
		return Answer{}, fmt.Errorf("no answer: %w", err)
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return Answer{}, fmt.Errorf("the answer is cut short: %w", err)
	}
	return Answer{r.StatusCode, b, r.Header}, nil
}
