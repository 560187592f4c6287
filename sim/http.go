package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// The simulated network and servers. A resource is a URL with a history of
// versions; every response is recorded.

type version struct {
	body  []byte
	etag  string // as sent, quotes included; "" = no ETag header
	since int64
	id    string

	modified string // Last-Modified header
}

type resource struct {
	url        string
	versions   []version // history, last = current
	noRange    bool
	noHead     bool
	unknownLen bool            // no Content-Length (chunked): truncation at EOF is invisible
	status     int             // != 0: always this status
	auths      map[string]bool // Authorization values, one of which is asked for
	redirect   string
	// 1 sends the whole body as if it were the range, 2 a range that starts one
	// byte late, 3 does not say the total size, 4 does not say which range it
	// sends, 5 cannot satisfy any range, 6 sends the whole body with a mangled
	// Content-Range.
	rangeBug int
}

func (r *resource) cur() *version { return &r.versions[len(r.versions)-1] }

type httpEvent struct {
	node      int
	op        int
	goid      uint64
	method    string
	url       string
	rng       string
	auth      string
	t0, t1    int64 // sequence numbers
	ns        int64
	ver       string
	status    int
	delivered bool // body handed over completely
	failed    bool
	finished  bool // answered without a body, or failed
	body      *body
}

// open says whether the request occupies a connection.
func (e *httpEvent) open() bool {
	if e.body == nil {
		return !e.finished
	}
	return !e.body.closed && e.body.err == nil && e.body.ctx.Err() == nil
}

// openDownloads counts the packages that one operation is downloading.
func (n *network) openDownloads(node, op int) (c int) {
	for _, e := range n.log {
		if e.node == node && e.op == op && e.method == http.MethodGet && e.open() && urlClass(e.url) == "apk" {
			c++
		}
	}
	return
}

type network struct {
	res    map[string]*resource
	log    []*httpEvent
	seq    int64
	latMin int64
	latJit int64
	chunk  int                        // mean chunk size
	byHost map[string]map[string]bool // host -> Authorization values seen
	bodies []*body                    // every response body handed out
	down   int                        // 1 = connections are refused, otherwise the status of every answer
	cutAll int                        // bodies break off half-way
	onHead map[string]func()          // what happens to a resource once its HEAD has been answered
}

// held counts the response bodies of one operation that keep a connection:
// neither closed nor read to their end nor given up with their context.
func (n *network) held(node, op int) (urls []string) {
	for _, b := range n.bodies {
		if b.ev.node == node && b.ev.op == op && !b.closed && b.err == nil && b.off < len(b.data) && b.ctx.Err() == nil {
			urls = append(urls, b.key)
		}
	}
	return
}

func newNetwork() *network {
	return &network{res: map[string]*resource{}, chunk: 1 << 30, byHost: map[string]map[string]bool{}, onHead: map[string]func(){}}
}

func (n *network) publish(u string, body []byte, etag, id string) *resource {
	r := n.res[u]
	if r == nil {
		r = &resource{url: u}
		n.res[u] = r
	}
	n.seq++
	r.versions = append(r.versions, version{body: body, etag: etag, since: n.seq, id: id})
	return r
}

// versionsDuring returns the versions of r served at some time in [from, to].
func (r *resource) versionsDuring(from, to int64) []*version {
	var out []*version
	for i := range r.versions {
		end := int64(1) << 62
		if i+1 < len(r.versions) {
			end = r.versions[i+1].since
		}
		if r.versions[i].since <= to && end >= from {
			out = append(out, &r.versions[i])
		}
	}
	return out
}

var errReset = errors.New("sim: connection reset by peer")
var errRefused = errors.New("sim: connection refused")

type transport struct {
	n    *network
	node int
}

func (n *network) client(node int) *http.Client {
	return &http.Client{Transport: &transport{n, node}}
}

// simSleep waits in simulated time, or until ctx is done.
func simSleep(ctx context.Context, d int64) error {
	if d <= 0 {
		return ctx.Err()
	}
	t := time.NewTimer(time.Duration(d))
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

var httpActs = map[string][]string{
	"HEAD": {"refuse", "500", "reset", "stall", "404", "crash"},
	"GET":  {"refuse", "500", "503", "reset", "stall", "crash"},
	"body": {"cut", "cut", "stall", "crash", "eofcut", "flip"},
	// Nothing but TLS protects an index on its way to the cache.
	"body-index": {"cut", "cut", "stall", "crash", "eofcut"},
}

// lat derives a latency from the request's identity, so that removing some
// other request from a run does not change it.
func (n *network) lat(node int, u string, nth int, what string) int64 {
	if n.latJit == 0 {
		return n.latMin
	}
	return n.latMin + int64(hashStr(fmt.Sprintf("%s|%d|%s|%d", what, node, u, nth), sim.plan.Seed)%uint64(n.latJit))
}

func (t *transport) RoundTrip(req *http.Request) (*http.Response, error) {
	ev := &httpEvent{}
	resp, err := t.roundTrip(req, ev)
	ev.finished = true
	if err == nil {
		ev.body, _ = resp.Body.(*body)
	}
	return resp, err
}

func (t *transport) roundTrip(req *http.Request, ev *httpEvent) (*http.Response, error) {
	if isDead() {
		park()
	}
	n := t.n
	ctx := req.Context()
	yieldPoint()
	u := *req.URL
	u.User = nil
	key := u.String()
	*ev = httpEvent{node: t.node, op: curOp(), goid: goid(), method: req.Method, url: key, rng: req.Header.Get("Range"), auth: req.Header.Get("Authorization"), ns: runtime.SimNano()}
	n.seq++
	ev.t0 = n.seq
	n.log = append(n.log, ev)
	if req.Method == http.MethodGet && urlClass(key) == "apk" && ev.op >= 0 {
		if c := n.openDownloads(t.node, ev.op); c > sim.plan.Sched.Procs+1 {
			violate("parallel-downloads", fmt.Sprintf("operation %d has %d packages in download at a time, with %d processors", ev.op, c, sim.plan.Sched.Procs))
		} else if c == sim.plan.Sched.Procs+1 {
			probe("download-limit-reached")
		}
	}
	late("request " + req.Method + " " + key)
	host := u.Host
	if n.byHost[host] == nil {
		n.byHost[host] = map[string]bool{}
	}
	n.byHost[host][ev.auth] = true
	mix(fmt.Sprintf("n%d HTTP %s %s %s", t.node, req.Method, key, ev.rng))
	nth := 0
	for _, e := range n.log {
		if e.node == t.node && e.url == key && e.method == req.Method {
			nth++
		}
	}
	class := urlClass(key)
	cancelPoint(class)
	f, hit := decide("http", t.node, req.Method, class, httpActs[req.Method], func(act string) int64 { return int64(sim.frng.u64() >> 1) })
	done := func() {
		if isDead() {
			park()
		}
		n.seq++
		ev.t1 = n.seq
	}
	if hit && f.Act == "crash" {
		kill(t.node)
		park()
	}
	if hit && f.Act == "stall" {
		if err := simSleep(ctx, stallTime(f)); err != nil {
			done()
			ev.failed = true
			return nil, err
		}
	}
	if hit && f.Act == "refuse" {
		ev.failed = true
		simSleep(ctx, n.lat(t.node, key, nth, "refuse"))
		done()
		return nil, errRefused
	}
	if err := simSleep(ctx, n.lat(t.node, key, nth, "req")); err != nil {
		ev.failed = true
		done()
		return nil, err
	}
	if n.down == 1 {
		ev.failed = true
		done()
		return nil, errRefused
	}
	// The server looks at the resource now.
	r := n.res[key]
	var v *version
	status := 200
	switch {
	case r == nil:
		status = 404
	case r.status != 0:
		status = r.status
	case r.auths != nil && !r.auths[ev.auth]:
		status = 401
	case r.redirect != "":
		status = 302
	}
	if n.down > 1 {
		status = n.down
	}
	if hit && (f.Act == "500" || f.Act == "503" || f.Act == "404") {
		status, _ = strconv.Atoi(f.Act)
	}
	if hit && f.Act == "reset" {
		done()
		ev.failed = true
		return nil, errReset
	}
	resp := &http.Response{Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req}
	if status != 200 {
		resp.StatusCode = status
		resp.Status = fmt.Sprintf("%d %s", status, http.StatusText(status))
		if status == 302 {
			resp.Header.Set("Location", r.redirect)
		}
		msg := []byte("error page: " + resp.Status + " for " + key + "\n")
		// Error pages may be long, of unknown length, or have etags.
		page := uint64(0)
		if hit {
			page = uint64(f.Arg)
		}
		if page>>8&1 == 1 {
			msg = append(msg, bytes.Repeat([]byte("sorry "), int(page>>16%5000))...)
		}
		resp.ContentLength = int64(len(msg))
		if page>>10&1 == 1 {
			resp.ContentLength = -1
		}
		if page>>12&3 == 1 {
			resp.Header.Set("ETag", `"error-page"`)
		} else if page>>12&3 == 2 && r != nil && r.cur() != nil && r.cur().etag != "" {
			resp.Header.Set("ETag", r.cur().etag)
		}
		resp.Body = &body{n: n, ctx: ctx, data: msg, ev: ev, node: t.node, key: key, nth: nth, cut: -1, flip: -1}
		if req.Method == http.MethodHead {
			resp.Body = http.NoBody
		}
		ev.status = status
		simSleep(ctx, n.lat(t.node, key, nth, "resp"))
		done()
		n.handOut(resp)
		return resp, nil
	}
	v = r.cur()
	ev.ver = v.id
	if f := n.onHead[key]; f != nil && req.Method == http.MethodHead {
		delete(n.onHead, key)
		probe("changed-after-head")
		f()
	}
	data := v.body
	if v.etag != "" {
		resp.Header.Set("ETag", v.etag)
	}
	if v.modified != "" {
		resp.Header.Set("Last-Modified", v.modified)
	}
	if rg := ev.rng; rg != "" && !r.noRange && req.Method == http.MethodGet {
		var from int64
		if _, err := fmt.Sscanf(rg, "bytes=%d-", &from); err == nil {
			ifr := req.Header.Get("If-Range")
			if ifr != "" && ifr != v.etag {
				// representation changed: full body
			} else if from >= int64(len(data)) {
				status = 416
				data = nil
			} else {
				status = 206
				total := fmt.Sprint(len(data))
				switch r.rangeBug {
				case 1:
					from = 0
				case 2:
					from++
				case 3:
					total = "*"
				case 5:
					status = 416
				}
				resp.Header.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%s", from, len(data)-1, total))
				switch r.rangeBug {
				case 4:
					resp.Header.Del("Content-Range")
				case 5:
					from = int64(len(data))
				case 6:
					resp.Header.Set("Content-Range", fmt.Sprintf("bytes 0 to %d", len(data)))
					from = 0
				}
				data = data[from:]
			}
		}
	}
	resp.StatusCode = status
	ev.status = status
	resp.Status = fmt.Sprintf("%d %s", status, http.StatusText(status))
	resp.ContentLength = int64(len(data))
	if r.unknownLen {
		resp.ContentLength = -1
	} else {
		resp.Header.Set("Content-Length", fmt.Sprint(len(data)))
	}
	if req.Method == http.MethodHead {
		resp.Body = http.NoBody
	} else {
		b := &body{n: n, ctx: ctx, data: data, ev: ev, node: t.node, key: key, nth: nth, cut: -1, flip: -1}
		if n.cutAll != 0 {
			b.cut = len(data) / 2
		}
		acts := httpActs["body"]
		if sc := sim.plan.Scenario; (sc == "install" || sc == "retry") && strings.HasSuffix(key, "APKINDEX.tar.gz") {
			acts = httpActs["body-index"]
		}
		if f, hit := decide("http", t.node, "body", class, acts, func(act string) int64 { return int64(sim.frng.u64() >> 1) }); hit {
			at := 0
			if len(data) > 0 {
				at = int(f.Arg % int64(len(data)))
			}
			switch f.Act {
			case "eofcut":
				if r.unknownLen {
					b.eofAt = true
				}
				b.cut = at
			case "flip":
				b.flip = at
			case "cut":
				b.cut = at
			case "stall":
				b.stallAt, b.stall = at, stallTime(f)
			case "crash":
				b.crashAt, b.crash = at, true
			}
		}
		resp.Body = b
	}
	simSleep(ctx, n.lat(t.node, key, nth, "resp"))
	if err := ctx.Err(); err != nil {
		done()
		ev.failed = true
		return nil, err
	}
	done()
	n.handOut(resp)
	return resp, nil
}

func (n *network) handOut(resp *http.Response) {
	if b, ok := resp.Body.(*body); ok {
		n.bodies = append(n.bodies, b)
	}
}

type body struct {
	n       *network
	ctx     context.Context
	data    []byte
	off     int
	ev      *httpEvent
	node    int
	key     string
	nth     int
	cut     int
	flip    int
	eofAt   bool
	stallAt int
	stall   int64
	crashAt int
	crash   bool
	reads   int
	closed  bool
	err     error
}

func (b *body) Read(p []byte) (int, error) {
	if isDead() {
		park()
	}
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if b.err != nil {
		return 0, b.err
	}
	if err := b.ctx.Err(); err != nil {
		b.err = err
		b.ev.failed = true
		return 0, err
	}
	if len(p) == 0 && b.off != b.cut && b.off < len(b.data) {
		return 0, nil
	}
	if len(p) > 1 || b.reads == 0 {
		yieldPoint()
	}
	b.reads++
	if b.crash && b.off >= b.crashAt {
		kill(b.node)
		park()
	}
	if b.stall > 0 && b.off >= b.stallAt {
		d := b.stall
		b.stall = 0
		if err := simSleep(b.ctx, d); err != nil {
			b.err = err
			b.ev.failed = true
			return 0, err
		}
	}
	if b.cut >= 0 && b.off >= b.cut {
		b.ev.failed = true
		if b.eofAt {
			b.err = io.EOF
			return 0, io.EOF
		}
		b.err = errReset
		if b.cut%3 == 0 {
			b.err = io.ErrUnexpectedEOF
		}
		return 0, b.err
	}
	if b.off >= len(b.data) {
		b.ev.delivered = true
		b.err = io.EOF
		return 0, io.EOF
	}
	// Chunk boundaries and inter-chunk latency.
	n := len(p)
	if c := b.n.chunk; c < 1<<29 {
		cs := 1 + int(hashStr(fmt.Sprintf("%s|%d", b.key, b.nth), uint64(b.reads))%uint64(2*c))
		if cs < n {
			n = cs
		}
	}
	if len(p) > 1 && b.n.latJit > 0 && b.reads%4 == 0 {
		if err := simSleep(b.ctx, b.n.lat(b.node, b.key, b.reads, "chunk")/8); err != nil {
			b.err = err
			b.ev.failed = true
			return 0, err
		}
	}
	end := b.off + n
	if end > len(b.data) {
		end = len(b.data)
	}
	if b.cut >= 0 && end > b.cut {
		end = b.cut
		if end == b.off {
			return b.Read(p)
		}
	}
	n = copy(p, b.data[b.off:end])
	if b.flip >= b.off && b.flip < b.off+n {
		p[b.flip-b.off] ^= 0x20
		sim.res.Probes["flipped-bit-delivered"]++
	}
	b.off += n
	// The end, or the failure, may come with the last bytes.
	if len(p) > 1 && hashStr(fmt.Sprintf("%s|%d", b.key, b.nth), sim.plan.Seed^0xea6e7)%3 == 0 {
		if b.off == b.cut || b.off == len(b.data) {
			_, err := b.Read(p[n:n:n])
			return n, err
		}
	}
	return n, nil
}

func (b *body) Close() error {
	b.closed = true
	return nil
}

// stallTime is how long a server keeps a caller waiting.
func stallTime(f Fault) int64 {
	if sim.plan.P["hang"] != 0 {
		return 10*int64(time.Minute) + f.Arg%int64(10*time.Minute)
	}
	return 30*int64(time.Second) + f.Arg%int64(60*time.Second)
}

func urlClass(u string) string {
	p := u
	if x, err := url.Parse(u); err == nil {
		p = x.Path
	}
	switch {
	case strings.HasSuffix(p, "APKINDEX.tar.gz"):
		return "index"
	case strings.HasSuffix(p, ".apk"):
		return "apk"
	case strings.HasSuffix(p, ".pub"):
		return "key"
	case strings.HasSuffix(p, "releases.json"):
		return "releases"
	}
	return "other"
}
