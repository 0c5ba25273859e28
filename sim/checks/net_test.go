package zzverif

import (
	"errors"
	"io"
	"net/http"
	"strconv"
	"strings"

	"verif.local/simrt"
)

// The simulated network: http.DefaultTransport is replaced by this one, so that requests made by
// the code under test never leave the process.

// netReply is what the simulated server does with one request.
type netReply struct {
	refuse  bool // connection refused: no response at all
	status  int
	body    []byte
	cut     int  // deliver only this many bytes (-1: all)
	cutErr  bool // after the cut: a connection reset; otherwise an early EOF
	noLen   bool // chunked: no Content-Length
	short   bool // dribble the body in small reads
	retries int
}

var simNet struct {
	serve    func(url string) netReply
	requests []string
	bodies   int // response bodies handed out
	closed   int // and closed
}

func netReset() {
	simNet.serve = nil
	simNet.requests = nil
	simNet.bodies, simNet.closed = 0, 0
	http.DefaultTransport = simTransport{}
	http.DefaultClient = &http.Client{}
}

type simTransport struct{}

func (simTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	simrt.SyncPoint()
	simNet.requests = append(simNet.requests, req.URL.String())
	if simNet.serve == nil {
		return nil, errors.New("simulated network: no route to host")
	}
	r := simNet.serve(req.URL.String())
	if r.refuse {
		return nil, errors.New("simulated network: connection refused")
	}
	h := http.Header{}
	n := int64(len(r.body))
	if r.noLen {
		n = -1
	} else {
		h.Set("Content-Length", strconv.Itoa(len(r.body)))
	}
	simNet.bodies++
	return &http.Response{
		Status: strconv.Itoa(r.status) + " " + http.StatusText(r.status), StatusCode: r.status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, ContentLength: n, Request: req,
		Body: &simBody{r: r},
	}, nil
}

type simBody struct {
	r      netReply
	pos    int
	closed bool
}

func (b *simBody) Read(p []byte) (int, error) {
	simrt.SyncPoint()
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	end := len(b.r.body)
	if b.r.cut >= 0 && b.r.cut < end {
		end = b.r.cut
	}
	if b.pos >= end {
		if b.r.cut >= 0 && b.r.cut < len(b.r.body) {
			if b.r.cutErr {
				return 0, errors.New("simulated network: connection reset by peer")
			}
			// net/http reports a body shorter than Content-Length, or with a chunk missing, this way.
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := end - b.pos
	if n > len(p) {
		n = len(p)
	}
	if b.r.short && n > 3 {
		n = 1 + simrt.F.Draw(n-1)
	}
	copy(p, b.r.body[b.pos:b.pos+n])
	b.pos += n
	if b.r.short && b.pos == len(b.r.body) && simrt.F.Chance(1, 2) {
		return n, io.EOF // the last bytes and the end at once
	}
	return n, nil
}

func (b *simBody) Close() error {
	if !b.closed {
		b.closed = true
		simNet.closed++
	}
	return nil
}

func hostOf(u string) string {
	u = strings.TrimPrefix(strings.TrimPrefix(u, "http://"), "https://")
	return u
}
