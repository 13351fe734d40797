import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
H="internal/http/http.go"
HEAD='''package http

import (
	"net"
	nethttp "net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

var _ = strconv.Itoa
var _ = strings.ToLower
var _ = time.Now
var _ atomic.Int32
var _ net.Conn
var _ nethttp.Handler
var _ = httptest.NewServer

func TestSeedDemo(t *testing.T) {
'''
def T(b): return HEAD+b+"\n}\n"
TIMEOUT=T('''	// a server that sends the start of its answer and then nothing more
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			_, _ = c.Write([]byte("HTTP/1.1 200 OK\\r\\nContent-Length: 100\\r\\n\\r\\nx"))
		}
	}()
	done := make(chan struct{})
	go func() {
		_, _, _ = Get("http://"+l.Addr().String(), nil, nil)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		t.Fatal("blocked")
	}''')
SEEDS=[
dict(id="c28-header-timeout", prop="C28", pkg="./internal/http", edits=[(H,'''	client.SetTimeout(20 * time.Second)
''','''	client.SetTransport(&http.Transport{Proxy: http.ProxyFromEnvironment, ResponseHeaderTimeout: 20 * time.Second})
'''),(H,'''	"net/url"
''','''	"net/http"
	"net/url"
''')],
 demo=TIMEOUT, needs="a server that sends the headers in time but never the whole body", breaks="the request blocks forever"),
dict(id="c28-post-unlimited", prop="C28", pkg="./internal/http", edits=[(H,'''func Do() *resty.Client {
	return client
''','''func Do() *resty.Client {
	return client.SetTimeout(0)
''')],
 demo=TIMEOUT.replace("	done := make","	Do().SetDebug(false)\n	done := make"), needs="the client being handed out once, then a server that does not answer completely", breaks="all later requests block forever"),
dict(id="c28-redirect-samehost", prop="C28", pkg="./internal/http", edits=[(H,'''	client.SetRedirectPolicy(resty.FlexibleRedirectPolicy(10))
''','''	client.SetRedirectPolicy(
		resty.RedirectPolicyFunc(
			func(req *http.Request, via []*http.Request) error {
				if len(via) >= 10 && req.URL.Host != via[0].URL.Host {
					return errors.New("stopped after 10 redirects")
				}
				return nil
			},
		),
	)
'''),(H,'''	"net/url"
''','''	"net/http"
	"net/url"
''')],
 demo=T('''	var n atomic.Int32
	s := httptest.NewServer(nethttp.HandlerFunc(func(w nethttp.ResponseWriter, r *nethttp.Request) {
		if n.Add(1) > 300 {
			return
		}
		nethttp.Redirect(w, r, "/a", nethttp.StatusFound)
	}))
	defer s.Close()
	if _, _, err := Get(s.URL, nil, nil); err == nil {
		t.Fatal("followed", n.Load())
	}'''), needs="a server that redirects to itself over and over", breaks="redirects within one host are followed without limit"),
dict(id="c28-cookies", prop="C28", pkg="./internal/http", edits=[(H,'''	client.SetCookieJar(nil)
''','''	if client.IsProxySet() {
		client.SetCookieJar(nil)
	}
''')],
 demo=T('''	seen := ""
	s := httptest.NewServer(nethttp.HandlerFunc(func(w nethttp.ResponseWriter, r *nethttp.Request) {
		if c, err := r.Cookie("id"); err == nil {
			seen = c.Value
		}
		nethttp.SetCookie(w, &nethttp.Cookie{Name: "id", Value: "7"})
	}))
	defer s.Close()
	_, _, _ = Get(s.URL, nil, nil)
	_, _, _ = Get(s.URL, nil, nil)
	if seen != "" {
		t.Fatal("cookie sent", seen)
	}'''), needs="two requests to a server that sets cookies", breaks="the requests can be linked"),
]
