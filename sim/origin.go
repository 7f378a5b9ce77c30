//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// An Exchange is one request as it arrived at an origin and what was answered.
type Exchange struct {
	ID      int
	Origin  int
	Node    int // machine it came from
	Method  string
	Target  string // request URI as on the wire
	Path    string
	Host    string
	Header  http.Header
	ReqBody []byte
	BodyErr bool
	XReq    int // the client request it carries the id of (0: none)
	Arrive  time.Duration
	Start   time.Duration // first byte of the response sent
	End     time.Duration // last byte written (or given up)
	WallArr int64         // wall clock of the origin, s
	Status  int
	RHeader http.Header
	Body    []byte // complete body of the representation sent (for 206 the part)
	FullLen int
	Sent    bool   // the whole response was written
	Fault   string // what was done to it
	Res     *Resource
	Version int
	SrcExch int  // for a 304: nothing; kept for clarity
	NoID    bool // no X-Exch header
	DateS   int64
	HasDate bool
}

type originRes struct {
	r   *Resource
	ver int
	mod time.Duration
}

type Origin struct {
	w      *World
	idx    int
	m      *Machine
	l      *simListener
	active []Fault
	res    map[string]*originRes
	order  []string
	rng    *rand.Rand
	open   int
	peak   map[string]int
	conns  []*simConn
	down   bool
}

func newOrigin(w *World, i int) *Origin {
	o := &Origin{w: w, idx: i, res: map[string]*originRes{}, rng: rand.New(rand.NewPCG(w.plan.Seed, 500+uint64(i)))}
	o.m = w.addMachine(fmt.Sprintf("origin%d", i), fmt.Sprintf("10.0.2.%d", i+1))
	for k := range w.plan.Resources {
		r := &w.plan.Resources[k]
		if r.Origin == i {
			o.res[r.Path] = &originRes{r: r, ver: 1}
			o.order = append(o.order, r.Path)
		}
	}
	o.listen()
	return o
}

func (o *Origin) listen() {
	l, err := o.w.net.listenOn(o.m, 0, 8000)
	if err != nil {
		panic(err)
	}
	o.l = l
	goSim(func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			o.conns = append(o.conns, c.(*simConn))
			goSim(func() { o.serve(c.(*simConn)) })
		}
	})
}

// wall is the origin's own clock.
func (o *Origin) wall() time.Time {
	t := o.w.wallAt(o.w.now())
	if o.idx < len(o.w.plan.OSkewMs) {
		t = t.Add(time.Duration(o.w.plan.OSkewMs[o.idx]) * time.Millisecond)
	}
	return t
}

func filler(id, n int) []byte {
	b := make([]byte, n)
	x := uint64(id)*0x9e3779b97f4a7c15 + 0x1234567
	for i := range b {
		if i%61 == 60 {
			b[i] = '\n'
			continue
		}
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = 'a' + byte(x%26)
	}
	return b
}

func bodyFor(id, origin int, target string, ver, size int) []byte {
	h := fmt.Sprintf("EX=%d;ORIGIN=%d;VER=%d;TARGET=%s\n", id, origin, ver, target)
	b := []byte(h)
	if size > len(b) {
		b = append(b, filler(id, size-len(b))...)
	}
	return b
}

var exRe = regexp.MustCompile(`^EX=(\d+);ORIGIN=(\d+);VER=(\d+);TARGET=(.*)\n`)
var xexchRe = regexp.MustCompile(`(?i)X-Exch: (\d+)`)
var xvalRe = regexp.MustCompile(`(?i)X-Val: (\d+)`)

type entryInfo struct {
	Exch int
	Val  int
}

// parseEntry looks for the marks of an exchange in a stored value.
func parseEntry(b []byte) entryInfo {
	var e entryInfo
	if m := xexchRe.FindSubmatch(b); m != nil {
		e.Exch, _ = strconv.Atoi(string(m[1]))
	}
	if m := xvalRe.FindSubmatch(b); m != nil {
		e.Val, _ = strconv.Atoi(string(m[1]))
	}
	return e
}

func etagOf(origin int, path string, ver int) string {
	s := sha256.Sum256([]byte(fmt.Sprintf("%d|%s|%d", origin, path, ver)))
	return `"` + hex.EncodeToString(s[:6]) + `"`
}

func (o *Origin) lookup(path string) *originRes {
	if r := o.res[path]; r != nil {
		return r
	}
	// an equivalent spelling
	if r := o.res[normPath(path)]; r != nil {
		return r
	}
	// longest prefix among the declared ones that end in /*
	best := ""
	for _, p := range o.order {
		if strings.HasSuffix(p, "*") && strings.HasPrefix(path, p[:len(p)-1]) && len(p) > len(best) {
			best = p
		}
	}
	if best != "" {
		return o.res[best]
	}
	return nil
}

func (o *Origin) serve(c *simConn) {
	br := bufio.NewReader(c)
	defer c.Close()
	for {
		// Read the head raw, so that the target is seen as sent.
		line, err := br.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.SplitN(strings.TrimRight(line, "\r\n"), " ", 3)
		if len(f) != 3 {
			o.w.violate("C19", "malformed-upstream-request", "origin%d got the request line %q", o.idx, line)
			return
		}
		hdr := http.Header{}
		bad := false
		for {
			l, err := br.ReadString('\n')
			if err != nil {
				return
			}
			l = strings.TrimRight(l, "\r\n")
			if l == "" {
				break
			}
			k, v, ok := strings.Cut(l, ":")
			if !ok {
				bad = true
			}
			hdr[http.CanonicalHeaderKey(k)] = append(hdr[http.CanonicalHeaderKey(k)], strings.TrimSpace(v))
		}
		if bad {
			o.w.violate("C19", "malformed-upstream-request", "origin%d got a malformed header from %s", o.idx, c.peer.m.name)
			return
		}
		w := o.w
		ex := &Exchange{ID: len(w.exchs) + 1, Origin: o.idx, Node: -1, Method: f[0], Target: f[1], Header: hdr, Arrive: w.now()}
		if c.peer.m.node != nil {
			ex.Node = c.peer.m.node.idx
		}
		ex.Host = hdr.Get("Host")
		ex.Path = f[1]
		if i := strings.IndexByte(ex.Path, '?'); i >= 0 {
			ex.Path = ex.Path[:i]
		}
		ex.XReq, _ = strconv.Atoi(hdr.Get("X-Req"))
		ex.WallArr = o.wall().Unix()
		w.exchs = append(w.exchs, ex)
		// request body
		if strings.EqualFold(hdr.Get("Expect"), "100-continue") && w.plan.flag("continue") {
			w.faults["expect-continue"]++
			c.Write([]byte("HTTP/1.1 100 Continue\r\n\r\n"))
		}
		if te := hdr.Get("Transfer-Encoding"); strings.EqualFold(te, "chunked") {
			ex.BodyErr = true // until it is here
			b, err := readChunked(br)
			ex.ReqBody = b
			ex.BodyErr = err != nil
		} else if cl := hdr.Get("Content-Length"); cl != "" {
			n, err := strconv.Atoi(cl)
			if err != nil || n < 0 {
				ex.BodyErr = true
			} else {
				b := make([]byte, n)
				ex.BodyErr = true // until it is here
				k, err := io.ReadFull(br, b)
				ex.ReqBody = b[:k]
				ex.BodyErr = err != nil
			}
		}
		w.logf("origin%d <- %s ex=%d %s %s req=%d body=%d", o.idx, c.peer.m.name, ex.ID, ex.Method, ex.Target, ex.XReq, len(ex.ReqBody))
		if ex.BodyErr {
			ex.End = w.now()
			return
		}
		if !o.respond(c, ex) {
			return
		}
		if strings.EqualFold(hdr.Get("Connection"), "close") {
			return
		}
	}
}

func readChunked(br *bufio.Reader) ([]byte, error) {
	var out []byte
	for {
		l, err := br.ReadString('\n')
		if err != nil {
			return out, err
		}
		n, err := strconv.ParseInt(strings.TrimSpace(l), 16, 64)
		if err != nil {
			return out, err
		}
		if n == 0 {
			for {
				l, err := br.ReadString('\n')
				if err != nil {
					return out, err
				}
				if strings.TrimRight(l, "\r\n") == "" {
					return out, nil
				}
			}
		}
		b := make([]byte, n+2)
		if _, err := io.ReadFull(br, b); err != nil {
			return out, err
		}
		out = append(out, b[:n]...)
	}
}

func setH(h http.Header, kv [][2]string) {
	for _, x := range kv {
		h.Add(x[0], x[1])
	}
}

// respond answers ex; false: the connection is finished.
func (o *Origin) respond(c *simConn, ex *Exchange) bool {
	w := o.w
	or := o.lookup(ex.Path)
	var r *Resource
	ver := 1
	if or == nil {
		r = &Resource{Origin: o.idx, Path: ex.Path, Status: 404, Size: 64, Headers: [][2]string{{"Cache-Control", "no-store"}}}
	} else {
		r = or.r
		ver = or.ver
	}
	ex.Res, ex.Version = r, ver
	h := http.Header{}
	ex.RHeader = h
	now := o.wall()
	if !r.NoDate {
		d, known := httpDate(now, r.Extra["date"])
		h.Set("Date", d)
		ex.DateS, ex.HasDate = now.Unix(), known
		if r.Extra["date"] == "ancient" {
			ex.DateS = time.Date(1601, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
		}
	}
	mod := time.Unix(0, simEpoch).Add(-time.Hour)
	if or != nil && or.mod > 0 {
		mod = time.Unix(0, simEpoch).Add(or.mod)
	}
	etag := etagOf(o.idx, ex.Path, ver)
	ex.Status = r.Status
	full := bodyFor(ex.ID, o.idx, ex.Target, ver, r.Size)
	if r.Status == 204 || r.Status == 304 || r.extra("empty") && !r.extra("noid") {
		full = nil
	}
	body := full
	notMod := false
	fields := r.Headers
	if r.Alt != nil && ver%2 == 0 {
		fields = r.Alt
	}
	if r.Status == 200 {
		if inm := ex.Header.Get("If-None-Match"); inm != "" && r.ETag {
			for _, t := range strings.Split(inm, ",") {
				t = strings.TrimPrefix(strings.TrimSpace(t), "W/")
				if t == etag || t == "*" {
					notMod = true
				}
			}
		} else if ims := ex.Header.Get("If-Modified-Since"); inm == "" && ims != "" && r.LastMod {
			if t, err := http.ParseTime(ims); err == nil && !mod.Truncate(time.Second).After(t) {
				notMod = true
			}
		}
		if im := ex.Header.Get("If-Match"); im != "" && r.ETag && !strings.Contains(im, etag) && im != "*" {
			ex.Status = 412
			body = bodyFor(ex.ID, o.idx, ex.Target, ver, 64)
			h.Set("Cache-Control", "no-store")
		}
	}
	if r.Odd304 && ex.Header.Get("If-None-Match") == "" && ex.Header.Get("If-Modified-Since") == "" && o.rng.IntN(3) == 0 {
		notMod = true
	}
	partial := false
	if notMod {
		ex.Status = 304
		body = nil
		h.Set("X-Val", strconv.Itoa(ex.ID))
		setH(h, r.H304)
		switch r.Etag304 {
		case "omit":
		case "other":
			h.Set("Etag", `"other-`+strconv.Itoa(ex.ID)+`"`)
		default:
			if r.ETag {
				h.Set("Etag", etag)
			}
		}
		if r.LastMod {
			h.Set("Last-Modified", mod.UTC().Format(http.TimeFormat))
		}
		if r.H304 == nil {
			setH(h, fields)
		}
		if e := r.Exp304Ms; e != 0 || r.H304 == nil && r.ExpireMs != 0 {
			if e == 0 {
				e = r.ExpireMs
			}
			d, _ := httpDate(now.Add(time.Duration(e)*time.Millisecond), r.Extra["expires"])
			h.Set("Expires", d)
		}
	} else if ex.Status != 412 {
		setH(h, fields)
		if r.ETag {
			h.Set("Etag", etag)
		}
		if r.LastMod {
			h.Set("Last-Modified", mod.UTC().Format(http.TimeFormat))
		}
		if r.ExpireMs != 0 {
			d, _ := httpDate(now.Add(time.Duration(r.ExpireMs)*time.Millisecond), r.Extra["expires"])
			h.Set("Expires", d)
		}
		if rg := ex.Header.Get("Range"); rg != "" && r.Ranges && ex.Status == 200 && ex.Method == "GET" {
			ir := ex.Header.Get("If-Range")
			if a, b, ok := parseRange(rg, len(full)); ok && (ir == "" || ir == etag) {
				partial = true
				ex.Status = 206
				body = full[a : b+1]
				h.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", a, b, len(full)))
			}
		}
		if r.Ranges {
			h.Set("Accept-Ranges", "bytes")
		}
	}
	_ = partial
	if !notMod && !r.extra("noid") {
		h.Set("X-Exch", strconv.Itoa(ex.ID))
	}
	if ct := r.Extra["ctype2"]; ct != "" && ver%2 == 0 && !notMod {
		h.Set("Content-Type", ct)
	} else if ct := r.Extra["ctype"]; ct != "" && !notMod {
		h.Set("Content-Type", ct)
	} else if !notMod && ex.Status != 204 {
		h.Set("Content-Type", "text/plain")
	}
	ex.Body = body
	ex.FullLen = len(full)

	// How the answer is disturbed.
	fault, gz := "", false
	delay := time.Duration(r.DelayMs) * time.Millisecond
	if delay > 0 {
		delay += time.Duration(o.rng.Int64N(int64(delay)/2 + 1))
	}
	for _, f := range o.active {
		if o.rng.IntN(100) >= f.Prob {
			continue
		}
		switch f.Mode {
		case "slow":
			delay += time.Duration(o.rng.Int64N(max(1, f.Arg))) * time.Millisecond
			w.faults["origin-slow"]++
		case "status500":
			ex.Status = 500
			ex.Body = bodyFor(ex.ID, o.idx, ex.Target, ver, 80)
			body = ex.Body
			for k := range h {
				if k != "Date" && k != "X-Exch" {
					delete(h, k)
				}
			}
			h.Set("X-Exch", strconv.Itoa(ex.ID))
			w.faults["origin-500"]++
			ex.Fault = "status500"
		default:
			fault = f.Mode
		}
	}
	if fault != "" {
		ex.Fault = fault
		w.faults["origin-"+fault]++
	}
	if fault == "reset-early" {
		c.abort(104, true)
		ex.End = w.now()
		return false
	}
	if fault == "eof-early" {
		ex.End = w.now()
		return false
	}
	if fault == "stall" {
		// Nothing until the fault ends (or the peer gives up).
		for o.hasMode("stall") && !c.closed && c.rerr == nil && !c.eof {
			time.Sleep(50 * time.Millisecond)
		}
		ex.Fault = "stall"
		if c.eof || c.rerr != nil {
			ex.End = w.now()
			return false
		}
	}
	if fault == "garbage" {
		c.Write([]byte("\x16\x03\x01 this is no HTTP response\r\n\r\n"))
		ex.End = w.now()
		return false
	}
	if delay > 0 {
		time.Sleep(delay)
	}
	if up := ex.Header.Get("Upgrade"); r.extra("upgrade") && up != "" && strings.EqualFold(ex.Header.Get("Connection"), "Upgrade") {
		// The connection now belongs to another protocol.
		w.faults["origin-switches-protocol"]++
		ex.Fault = "upgrade"
		ex.Status = 101
		ex.End = w.now()
		c.Write([]byte("HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: " + up + "\r\nX-Exch: " + strconv.Itoa(ex.ID) + "\r\n\r\nhello"))
		io.Copy(io.Discard, c)
		return false
	}
	// Kache's transport asks for compression by itself and undoes it.
	if r.extra("gzip") && ex.Status == 200 && ex.Method == "GET" && strings.Contains(ex.Header.Get("Accept-Encoding"), "gzip") && ex.Header.Get("Range") == "" {
		var z bytes.Buffer
		zw := gzip.NewWriter(&z)
		zw.Write(body)
		zw.Close()
		body, gz = z.Bytes(), true
		w.faults["origin-gzip"]++
	}
	var buf bytes.Buffer
	if fault == "interim" {
		buf.WriteString("HTTP/1.1 103 Early Hints\r\nLink: </style.css>; rel=preload\r\n\r\n")
	}
	fmt.Fprintf(&buf, "HTTP/1.1 %d %s\r\n", ex.Status, http.StatusText(ex.Status))
	framing := r.Framing
	closeAfter := false
	var ks []string
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, v := range h[k] {
			name := k
			if r.extra("lower") {
				name = strings.ToLower(k)
			}
			fmt.Fprintf(&buf, "%s: %s\r\n", name, v)
		}
	}
	if gz {
		buf.WriteString("Content-Encoding: gzip\r\n")
	}
	connection := ""
	if r.extra("hop") && framing != "close" && o.rng.IntN(10) < 7 {
		// Fields that concern this connection only. (Not along with "close": Go's
		// library drops such a Connection field before anyone sees it.)
		buf.WriteString("X-Rhop: 1\r\nKeep-Alive: timeout=5\r\nProxy-Authenticate: Basic\r\nUpgrade: h2c\r\n")
		connection = "X-Rhop"
		w.faults["origin-hop-by-hop"]++
	}
	if framing == "close" && ex.Method != "HEAD" && ex.Status != 204 && ex.Status != 304 {
		connection = strings.TrimPrefix(connection+", close", ", ")
	} else if connection != "" && o.rng.IntN(2) == 0 {
		connection += ", keep-alive"
	}
	if connection != "" {
		fmt.Fprintf(&buf, "Connection: %s\r\n", connection)
	}
	nobody := ex.Method == "HEAD" || ex.Status == 204 || ex.Status == 304
	if nobody {
		if ex.Method == "HEAD" && ex.Status != 204 && ex.Status != 304 && framing == "" {
			fmt.Fprintf(&buf, "Content-Length: %d\r\n", len(body))
		}
		buf.WriteString("\r\n")
	} else {
		switch framing {
		case "chunked":
			if r.extra("trailer") {
				buf.WriteString("Trailer: X-Sum\r\n")
			}
			buf.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		case "close":
			buf.WriteString("\r\n")
			closeAfter = true
		default:
			fmt.Fprintf(&buf, "Content-Length: %d\r\n\r\n", len(body))
		}
	}
	head := buf.Len()
	if !nobody {
		if framing == "chunked" {
			b := body
			for len(b) > 0 {
				k := min(len(b), 1+o.rng.IntN(3000))
				fmt.Fprintf(&buf, "%x\r\n", k)
				buf.Write(b[:k])
				buf.WriteString("\r\n")
				b = b[k:]
			}
			buf.WriteString("0\r\n")
			if r.extra("trailer") {
				fmt.Fprintf(&buf, "X-Sum: %d\r\n", ex.ID)
				w.faults["origin-trailer"]++
			}
			buf.WriteString("\r\n")
		} else {
			buf.Write(body)
		}
	}
	out := buf.Bytes()
	ex.Start = w.now()
	cut := -1
	switch fault {
	case "truncate":
		// anywhere in the body
		if len(out) > head && framing != "close" {
			cut = head + o.rng.IntN(len(out)-head)
		}
	case "truncate-head":
		cut = 1 + o.rng.IntN(head-2)
	case "truncate-reset":
		if framing == "close" {
			// the end of such a body can only be told by the end of the connection
			cut = head + o.rng.IntN(max(1, len(out)-head))
		} else if len(out) > head {
			cut = head + o.rng.IntN(len(out)-head)
		}
	}
	if cut >= 0 {
		if !o.writeAll(c, out[:cut], fault) {
			ex.End = w.now()
			return false
		}
		w.logf("origin%d cut ex=%d at %d of %d (%s)", o.idx, ex.ID, cut, len(out), fault)
		ex.End = w.now()
		ex.Fault = fault + "!"
		ex.Sent = cut == len(out) && (nobody || framing != "close")
		if fault == "truncate-reset" {
			// let what was written arrive, then reset
			time.Sleep(5 * time.Millisecond)
			c.abort(104, true)
		}
		return false
	}
	if fault == "dribble" {
		for len(out) > 0 {
			k := min(len(out), 1+o.rng.IntN(len(out)/4+2))
			if !o.writeAll(c, out[:k], "") {
				ex.End = w.now()
				return false
			}
			out = out[k:]
			if len(out) > 0 {
				time.Sleep(time.Duration(o.rng.IntN(40)) * time.Millisecond)
			}
		}
	} else if !o.writeAll(c, out, fault) {
		ex.End = w.now()
		return false
	}
	ex.Sent = true
	ex.End = w.now()
	w.logf("origin%d -> ex=%d %d %d bytes ver=%d", o.idx, ex.ID, ex.Status, len(body), ver)
	return !closeAfter
}

func (r *Resource) extra(k string) bool { return r.Extra[k] != "" }

func (o *Origin) hasMode(m string) bool {
	for _, f := range o.active {
		if f.Mode == m {
			return true
		}
	}
	return false
}

func (o *Origin) writeAll(c *simConn, b []byte, fault string) bool {
	for len(b) > 0 {
		k := min(len(b), 1400*(1+o.rng.IntN(8)))
		c.SetWriteDeadline(time.Now().Add(40 * time.Second))
		if _, err := c.Write(b[:k]); err != nil {
			return false
		}
		b = b[k:]
	}
	return true
}

func parseRange(s string, n int) (int, int, bool) {
	s, ok := strings.CutPrefix(s, "bytes=")
	if !ok || n == 0 || strings.Contains(s, ",") {
		return 0, 0, false
	}
	a, b, ok := strings.Cut(s, "-")
	if !ok {
		return 0, 0, false
	}
	if a == "" {
		k, err := strconv.Atoi(b)
		if err != nil || k <= 0 {
			return 0, 0, false
		}
		return max(0, n-k), n - 1, true
	}
	x, err := strconv.Atoi(a)
	if err != nil || x >= n {
		return 0, 0, false
	}
	y := n - 1
	if b != "" {
		y, err = strconv.Atoi(b)
		if err != nil || y < x {
			return 0, 0, false
		}
		y = min(y, n-1)
	}
	return x, y, true
}

// change publishes a new version of a resource.
func (o *Origin) change(path string) {
	if r := o.res[path]; r != nil {
		r.ver++
		r.mod = o.w.now()
		o.w.logf("origin%d %s is now version %d", o.idx, path, r.ver)
	}
}

// httpDate writes a time in one of the notations in use, or as something that
// is no time at all.
func httpDate(t time.Time, how string) (string, bool) {
	t = t.UTC()
	switch how {
	case "":
		return t.Format(http.TimeFormat), true
	case "850":
		return t.Format("Monday, 02-Jan-06 15:04:05 GMT"), true
	case "ansi":
		return t.Format(time.ANSIC), true
	case "ancient":
		return "Mon, 01 Jan 1601 00:00:00 GMT", true
	case "old":
		return "Thu, 01 Jan 1970 00:00:00 GMT", false
	}
	return how, false
}
