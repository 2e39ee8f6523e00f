// Package vmodel holds the environment of the daemon as the engine sees it:
// unix sockets, HTTP between client and server, and file notifications. The
// engine calls these functions in place of the library functions named in
// their comments; natively the real ones run.
package vmodel

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/radu-munteanu/fsnotify"
)

// Listener is a bound unix socket.
type Listener struct {
	path    string
	server  *http.Server
	handler http.Handler
	closed  bool
	served  chan bool
	gone    chan bool
	conns   []*Conn
	serving bool
}

var listeners []*Listener

// mksocket turns a file into a socket (engine only).
func mksocket(path string) {}

// Stale is the socket that a dead process left.
func Stale(path string) {
	if err := os.WriteFile(path, nil, 0755); err != nil {
		panic(err)
	}
	mksocket(path)
}

func (l *Listener) Accept() (net.Conn, error) { return nil, errors.New("not modelled") }
func (l *Listener) Addr() net.Addr            { return &net.UnixAddr{Name: l.path, Net: "unix"} }

// Close unbinds the socket and removes its file.
func (l *Listener) Close() error {
	if l.closed {
		return errors.New("use of closed network connection")
	}
	l.closed = true
	os.Remove(l.path)
	close(l.gone)
	return nil
}

// Listen is net.Listen.
func Listen(network, path string) (net.Listener, error) {
	if network != "unix" {
		return nil, errors.New("network not modelled")
	}
	fail := func(e error) (net.Listener, error) {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: &net.UnixAddr{Name: path, Net: "unix"}, Err: os.NewSyscallError("bind", e)}
	}
	if _, err := os.Lstat(path); err == nil {
		return fail(syscall.EADDRINUSE)
	}
	if err := os.WriteFile(path, nil, 0755); err != nil {
		return fail(syscall.ENOENT)
	}
	mksocket(path)
	l := &Listener{path: path, served: make(chan bool), gone: make(chan bool)}
	listeners = append(listeners, l)
	return l, nil
}

// Conn is a connection to a listener.
type Conn struct {
	l     *Listener
	since time.Time
	state int
}

const (
	fresh = iota
	active
	idle
	closed
)

func (c *Conn) Read(b []byte) (int, error)         { return 0, io.EOF }
func (c *Conn) Write(b []byte) (int, error)        { return len(b), nil }
func (c *Conn) Close() error                       { c.state = closed; return nil }
func (c *Conn) LocalAddr() net.Addr                { return nil }
func (c *Conn) RemoteAddr() net.Addr               { return nil }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// Dial is net.Dial.
func Dial(network, path string) (net.Conn, error) {
	fail := func(e error) (net.Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: &net.UnixAddr{Name: path, Net: "unix"}, Err: os.NewSyscallError("connect", e)}
	}
	if _, err := os.Lstat(path); err != nil {
		return fail(syscall.ENOENT)
	}
	for _, l := range listeners {
		if l.path == path && !l.closed {
			c := &Conn{l: l, since: time.Now()}
			l.conns = append(l.conns, c)
			return c, nil
		}
	}
	return fail(syscall.ECONNREFUSED)
}

// DialTimeout is net.DialTimeout.
func DialTimeout(network, path string, _ time.Duration) (net.Conn, error) { return Dial(network, path) }

// Serve is (*http.Server).Serve.
func Serve(s *http.Server, ln net.Listener) error {
	l := ln.(*Listener)
	if l.closed {
		return http.ErrServerClosed
	}
	l.server, l.handler = s, s.Handler
	l.serving = true
	close(l.served)
	<-l.gone
	return http.ErrServerClosed
}

// busy: some connection is in use or could soon be.
func (l *Listener) busy() bool {
	for _, c := range l.conns {
		if c.state == active || c.state == fresh && time.Now().Sub(c.since) < 5*time.Second {
			return true
		}
	}
	return false
}

// Shutdown is (*http.Server).Shutdown.
func Shutdown(s *http.Server, ctx context.Context) error {
	CloseServer(s)
	for _, l := range listeners {
		for l.server == s && l.busy() {
			select {
			case <-ctx.Done():
				return ctx.Err()
			case <-time.After(500 * time.Millisecond):
			}
		}
	}
	return nil
}

// CloseServer is (*http.Server).Close, apart from the connections.
func CloseServer(s *http.Server) error {
	for _, l := range listeners {
		if l.server == s && !l.closed {
			l.Close()
		}
	}
	return nil
}

type recorder struct {
	h    http.Header
	code int
	body []byte
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

// Do is (*http.Client).Do.
func Do(c *http.Client, req *http.Request) (*http.Response, error) {
	tr := c.Transport.(*http.Transport)
	var body []byte
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		if err != nil {
			return nil, err
		}
		body = b
		req.Body.Close()
	}
	u, method := req.URL, req.Method
	for i := 0; i < 10; i++ {
		conn, err := tr.DialContext(req.Context(), "tcp", u.Host)
		if err != nil {
			return nil, &url.Error{Op: method, URL: u.String(), Err: err}
		}
		cn := conn.(*Conn)
		l := cn.l
		select {
		case <-l.served:
		case <-l.gone:
			return nil, &url.Error{Op: method, URL: u.String(), Err: io.EOF}
		}
		uri := u.RequestURI()
		su, err := url.ParseRequestURI(uri)
		if err != nil {
			return answer(400, http.Header{}, []byte("400 Bad Request")), nil
		}
		r := &http.Request{Method: method, URL: su, RequestURI: uri, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: req.Header, Host: u.Host, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body))}
		w := &recorder{h: http.Header{}}
		cn.state = active
		ok := handle(l.handler, w, r)
		cn.state = idle
		if !ok {
			return nil, &url.Error{Op: method, URL: u.String(), Err: io.EOF}
		}
		w.WriteHeader(200)
		to := w.h.Get("Location")
		switch w.code {
		case 301, 302, 303:
			if method != "GET" && method != "HEAD" {
				method, body = "GET", nil
			}
		case 307, 308:
		default:
			to = ""
		}
		if to == "" {
			return answer(w.code, w.h, w.body), nil
		}
		n, err := u.Parse(to)
		if err != nil {
			return nil, err
		}
		u = n
	}
	return nil, errors.New("stopped after 10 redirects")
}

// handle reports whether the handler answered: the server survives its panics.
func handle(h http.Handler, w http.ResponseWriter, r *http.Request) (ok bool) {
	defer func() { recover() }()
	h.ServeHTTP(w, r)
	return true
}

func answer(code int, h http.Header, body []byte) *http.Response {
	n := int64(len(body))
	if n > 2048 {
		n = -1
	}
	return &http.Response{StatusCode: code, Header: h, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: n, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
}

// CloseIdleConnections is (*http.Transport).CloseIdleConnections.
func CloseIdleConnections(t *http.Transport) {}

// Watch is what one fsnotify.Watcher observes.
type Watch struct {
	w    *fsnotify.Watcher
	dirs []string
	raw  chan notice
	done chan bool
}

// notice is an event in the kernel's queue.
type notice struct {
	event fsnotify.Event
	err   error
}

var watches []*Watch

// NewWatcher is fsnotify.NewWatcher.
func NewWatcher() (*fsnotify.Watcher, error) {
	w := &fsnotify.Watcher{Events: make(chan fsnotify.Event), Errors: make(chan error)}
	x := &Watch{w: w, raw: make(chan notice, 256), done: make(chan bool)}
	watches = append(watches, x)
	go x.read()
	return w, nil
}

// read passes events on one after another, as readEvents does.
func (x *Watch) read() {
	for {
		select {
		case n := <-x.raw:
			if n.err != nil {
				select {
				case x.w.Errors <- n.err:
				case <-x.done:
					return
				}
				continue
			}
			if n.event.Op&(fsnotify.Remove|fsnotify.Rename) == 0 {
				if _, err := os.Lstat(n.event.Name); os.IsNotExist(err) {
					continue
				}
			}
			select {
			case x.w.Events <- n.event:
			case <-x.done:
				return
			}
		case <-x.done:
			return
		}
	}
}

// WatcherAdd is (*fsnotify.Watcher).Add.
func WatcherAdd(w *fsnotify.Watcher, dir string) error {
	if _, err := os.Lstat(dir); err != nil {
		return err
	}
	for _, x := range watches {
		if x.w == w {
			x.dirs = append(x.dirs, filepath.Clean(dir))
		}
	}
	return nil
}

// WatcherClose is (*fsnotify.Watcher).Close.
func WatcherClose(w *fsnotify.Watcher) error {
	for i, x := range watches {
		if x.w == w {
			watches = append(append([]*Watch{}, watches[:i]...), watches[i+1:]...)
			close(x.done)
			break
		}
	}
	return nil
}

// Notify is an event that the kernel reports natively.
func Notify(path string, op fsnotify.Op) {
	for _, x := range watches {
		for _, d := range x.dirs {
			if filepath.Dir(path) == d {
				x.raw <- notice{event: fsnotify.Event{Name: d + "/" + filepath.Base(path), Op: op}}
			}
		}
	}
}

// Overflow is more events than the kernel's queue holds.
func Overflow() {
	for _, x := range watches {
		x.raw <- notice{err: fsnotify.ErrEventOverflow}
	}
}
