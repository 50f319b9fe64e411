//go:build go1.24

package http

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"time"

	"github.com/crimist/trakx/zz/rt"
	znet "github.com/crimist/trakx/zz/sh/net"
)

// Client is a minimal client over the simulated network.
type Client struct {
	Transport     http.RoundTripper
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

var DefaultClient = &Client{}

func Get(u string) (*http.Response, error)  { return DefaultClient.Get(u) }
func Head(u string) (*http.Response, error) { return DefaultClient.Head(u) }
func (c *Client) Get(u string) (*http.Response, error) {
	r, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(r)
}
func (c *Client) Head(u string) (*http.Response, error) {
	r, err := http.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(r)
}
func (c *Client) CloseIdleConnections() {}
func Post(u, ct string, b io.Reader) (*http.Response, error) { return DefaultClient.Post(u, ct, b) }
func (c *Client) Post(u, ct string, b io.Reader) (*http.Response, error) {
	r, err := http.NewRequest("POST", u, b)
	if err != nil {
		return nil, err
	}
	r.Header.Set("Content-Type", ct)
	return c.Do(r)
}

type body struct {
	io.Reader
	c net.Conn
}

func (b *body) Close() error { return b.c.Close() }

func (c *Client) Do(r *http.Request) (*http.Response, error) {
	wrap := func(err error) error { return &url.Error{Op: "Get", URL: r.URL.String(), Err: err} }
	port := r.URL.Port()
	if port == "" {
		port = "80"
	}
	conn, err := znet.Dial("tcp", net.JoinHostPort(r.URL.Hostname(), port))
	if err != nil {
		return nil, wrap(err)
	}
	tc := conn.(*znet.TCPConn)
	var at int64
	if c.Timeout > 0 {
		at = rt.S.Now() + int64(c.Timeout)
	}
	if d, ok := r.Context().Deadline(); ok {
		if x := rt.S.Now() + int64(rt.TimeUntil(d)); at == 0 || x < at {
			at = max(x, 1)
		}
	}
	if at != 0 {
		tc.C.SetReadDeadline(at)
		tc.C.SetWriteDeadline(at)
	}
	var buf bytes.Buffer
	r.Write(&buf)
	if _, err := tc.Write(buf.Bytes()); err != nil {
		tc.Close()
		return nil, wrap(err)
	}
	resp, err := http.ReadResponse(bufio.NewReader(tc), r)
	if err != nil {
		tc.Close()
		return nil, wrap(err)
	}
	resp.Body = &body{resp.Body, tc}
	return resp, nil
}

// Server is a minimal server over the simulated network, one request per connection when keep-alives are off.
type Server struct {
	Addr              string
	Handler           http.Handler
	TLSConfig         *tls.Config
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	ErrorLog          *log.Logger
	BaseContext       func(net.Listener) context.Context
	noKeep            bool
	ln                net.Listener
	closed            bool
}

func (s *Server) SetKeepAlivesEnabled(v bool) { s.noKeep = !v }
func (s *Server) Close() error {
	s.closed = true
	if s.ln != nil {
		return s.ln.Close()
	}
	return nil
}
func (s *Server) Shutdown(ctx context.Context) error { return s.Close() }
func (s *Server) ListenAndServe() error {
	ln, err := znet.Listen("tcp", s.Addr)
	if err != nil {
		return err
	}
	return s.Serve(ln)
}
func (s *Server) Serve(ln net.Listener) error {
	s.ln = ln
	for {
		c, err := ln.Accept()
		if err != nil {
			if s.closed || errors.Is(err, net.ErrClosed) {
				return http.ErrServerClosed
			}
			rt.SleepTask(5_000_000)
			continue
		}
		rt.Go("httpconn", func() { s.serve(c) })
	}
}

type respw struct {
	h    http.Header
	code int
	buf  bytes.Buffer
}

func (w *respw) Header() http.Header { return w.h }
func (w *respw) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *respw) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	return w.buf.Write(b)
}

func (s *Server) serve(c net.Conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	for {
		if s.ReadTimeout > 0 {
			c.SetReadDeadline(rt.TimeNow().Add(s.ReadTimeout))
		}
		r, err := http.ReadRequest(br)
		if s.WriteTimeout > 0 {
			c.SetWriteDeadline(rt.TimeNow().Add(s.WriteTimeout))
		}
		if err != nil {
			var ne net.Error
			var oe *net.OpError
			if err != io.EOF && !(errors.As(err, &ne) && ne.Timeout()) && !(errors.As(err, &oe) && oe.Op == "read") {
				c.Write([]byte("HTTP/1.1 400 Bad Request\r\nContent-Type: text/plain; charset=utf-8\r\nConnection: close\r\n\r\n400 Bad Request"))
			}
			return
		}
		r.RemoteAddr = c.RemoteAddr().String()
		w := &respw{h: http.Header{}}
		h := s.Handler
		if h == nil {
			h = http.DefaultServeMux
		}
		func() {
			defer func() {
				if e := rt.Recover(recover()); e != nil {
					w.code = -1 // net/http recovers handler panics and closes the connection
				}
			}()
			h.ServeHTTP(w, r)
		}()
		if w.code == -1 {
			return
		}
		w.WriteHeader(200)
		var out bytes.Buffer
		fmt.Fprintf(&out, "HTTP/1.1 %d %s\r\n", w.code, http.StatusText(w.code))
		w.h.Set("Content-Length", strconv.Itoa(w.buf.Len()))
		keep := !s.noKeep && !r.Close
		if !keep {
			w.h.Set("Connection", "close")
		}
		w.h.Write(&out)
		out.WriteString("\r\n")
		out.Write(w.buf.Bytes())
		if _, err := c.Write(out.Bytes()); err != nil || !keep {
			return
		}
	}
}

func Serve(l net.Listener, h http.Handler) error { return (&Server{Handler: h}).Serve(l) }
func (s *Server) RegisterOnShutdown(func())     {}
func ListenAndServe(addr string, h http.Handler) error {
	s := &Server{Addr: addr, Handler: h}
	return s.ListenAndServe()
}
