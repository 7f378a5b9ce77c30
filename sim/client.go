//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// An OpRec is an operation of a client or an administrator and its outcome.
type OpRec struct {
	Op      *Op
	ID      int
	Node    *KNode
	Inc     int
	Start   time.Duration
	Conn    time.Duration // connected
	First   time.Duration // response head received
	End     time.Duration
	Done    bool
	Err     string // "" when a complete, well formed response was received
	Status  int
	Header  http.Header
	Trailer http.Header
	Body    []byte
	Length  int64 // Content-Length as announced, -1 if none
	Extra   bool  // bytes after the end of the response
	Reused  bool
	Probe   bool
	Interim int
}

func (o *OpRec) String() string {
	return fmt.Sprintf("req=%d %s %s%s at %.3fms", o.ID, o.Op.Method, o.Node.m.name, o.Op.Target, float64(o.Start)/1e6)
}

func (o *OpRec) ok() bool { return o.Done && o.Err == "" }

type clientConn struct {
	c    *simConn
	br   *bufio.Reader
	busy bool
	inc  int
}

var errHalf = errors.New("half a request")

func errClass(err error) string {
	switch {
	case err == errHalf:
		return "gave up"
	case err == nil:
		return ""
	case errors.Is(err, syscall.ECONNREFUSED):
		return "refused"
	case errors.Is(err, syscall.ECONNRESET), errors.Is(err, syscall.EPIPE):
		return "reset"
	case errors.Is(err, os.ErrDeadlineExceeded):
		return "timeout"
	case errors.Is(err, net.ErrClosed):
		return "canceled"
	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
		return "eof"
	}
	return "malformed: " + err.Error()
}

const clientPatience = 60 * time.Second

// doOp performs one planned operation.
func (w *World) doOp(op *Op) {
	switch op.Kind {
	case "req", "api":
		w.request(op, false)
	case "change":
		if op.Origin < len(w.origins) {
			w.origins[op.Origin].change(op.Target)
		}
	case "cfg":
		if op.Node < len(w.nodes) {
			w.writeConfig(w.nodes[op.Node], op.Config, op.Mode, op.ID)
		}
	case "sighup":
		if op.Node < len(w.nodes) {
			w.noteReload(w.nodes[op.Node], "sighup", w.now(), w.now(), 0)
			w.signal(w.nodes[op.Node], syscall.SIGHUP)
		}
	case "sigterm":
		if op.Node < len(w.nodes) {
			w.signal(w.nodes[op.Node], syscall.SIGTERM)
		}
	case "sigint":
		if op.Node < len(w.nodes) {
			w.signal(w.nodes[op.Node], syscall.SIGINT)
		}
	case "start":
		if op.Node < len(w.nodes) {
			w.startNode(w.nodes[op.Node])
		}
	default:
		panic("unknown op " + op.Kind)
	}
}

func (w *World) request(op *Op, probe bool) *OpRec {
	w.reqSeq++
	rec := &OpRec{Op: op, ID: w.reqSeq, Start: w.now(), Length: -1, Probe: probe}
	w.ops = append(w.ops, rec)
	rec.Node = w.nodes[op.Node%len(w.nodes)]
	rec.Inc = rec.Node.inc
	m := w.machines[fmt.Sprintf("client%d", op.Client%6)]
	port := 80
	if op.Kind == "api" {
		m = w.machines["admin"]
		port = 6067
	}
	if strings.HasPrefix(op.Mode, "intruder") || op.Mode == "admin6" {
		m = w.machines[op.Mode]
	}
	if op.Arg != 0 {
		port = int(op.Arg)
	}
	w.logf("%s -> %s req=%d %s %s tag=%s", m.name, rec.Node.m.name, rec.ID, op.Method, op.Target, op.Tag)
	err := w.exchange(rec, m, port)
	rec.End = w.now()
	rec.Err = errClass(err)
	rec.Done = true
	n := len(rec.Body)
	if strings.HasSuffix(op.Target, "metrics") {
		n = 0 // reports values of the real process
	}
	w.logf("%s <- %s req=%d status=%d err=%q body=%d", m.name, rec.Node.m.name, rec.ID, rec.Status, rec.Err, n)
	if op.Kind == "api" {
		w.apiDone(rec)
	}
	return rec
}

func (w *World) exchange(rec *OpRec, m *Machine, port int) error {
	op := rec.Op
	var cc *clientConn
	key := [2]int{op.Client*10 + op.Node, port}
	deadline := time.Now().Add(clientPatience)
	if op.Keep {
		if x := w.keepConn[key]; x != nil && !x.busy && !x.c.closed && x.c.rerr == nil && !x.c.eof && x.br.Buffered() == 0 && len(x.c.buf) == 0 {
			cc = x
			rec.Reused = true
		}
	}
	if cc == nil {
		ctx, cancel := context.WithDeadline(context.Background(), deadline)
		c, err := w.net.dial(ctx, m, 0, fmt.Sprintf("%s:%d", rec.Node.m.ip, port))
		cancel()
		if err != nil {
			return err
		}
		cc = &clientConn{c: c.(*simConn), br: bufio.NewReaderSize(c, 16<<10)}
		rec.Inc = rec.Node.inc // it may have come up meanwhile
	}
	cc.busy = true
	c := cc.c
	rec.Conn = w.now()
	c.SetDeadline(deadline)
	keep := false
	defer func() {
		cc.busy = false
		if keep {
			w.keepConn[key] = cc
		} else {
			if w.keepConn[key] == cc {
				delete(w.keepConn, key)
			}
			c.Close()
		}
	}()
	if op.Cancel > 0 {
		afterSim(time.Duration(op.Cancel)*time.Microsecond, func() {
			if !rec.Done && cc.busy {
				w.faults["client-cancel"]++
				w.logf("req=%d canceled by the client", rec.ID)
				if op.Mode == "rst" {
					c.abort(syscall.ECONNRESET, true)
				}
				c.Close()
			}
		})
	}
	var buf bytes.Buffer
	if op.Text != "" {
		buf.WriteString(op.Text)
	} else {
		fmt.Fprintf(&buf, "%s %s HTTP/1.1\r\n", op.Method, op.Target)
		host := op.Host
		if host == "" {
			host = rec.Node.m.ip
		}
		fmt.Fprintf(&buf, "Host: %s\r\n", host)
		if op.Kind == "req" {
			fmt.Fprintf(&buf, "X-Req: %d\r\n", rec.ID)
		}
		for _, h := range op.Headers {
			fmt.Fprintf(&buf, "%s: %s\r\n", h[0], h[1])
		}
		if !op.Keep {
			buf.WriteString("Connection: close\r\n")
		}
		body := op.body(rec.ID)
		if op.Chunked && len(body) > 0 {
			buf.WriteString("Transfer-Encoding: chunked\r\n\r\n")
			b := body
			for len(b) > 0 {
				k := min(len(b), 700)
				fmt.Fprintf(&buf, "%x\r\n%s\r\n", k, b[:k])
				b = b[k:]
			}
			buf.WriteString("0\r\n\r\n")
		} else {
			if len(body) > 0 || op.Method == "POST" || op.Method == "PUT" {
				fmt.Fprintf(&buf, "Content-Length: %d\r\n", len(body))
			}
			buf.WriteString("\r\n")
			buf.Write(body)
		}
	}
	out := buf.Bytes()
	if op.Mode == "half" || op.Mode == "hang" {
		out = out[:len(out)/2+1]
	}
	if op.Mode == "cut" {
		// somewhere in the body
		out = out[:len(out)-1-rec.ID*7%(len(op.Body)*2/3)]
	}
	if i := bytes.Index(out, []byte("\r\n\r\n")); i > 0 && hasHeader(rec, "Expect") && op.Mode == "" {
		// The body is only sent when it is asked for, or after some time.
		if _, err := c.Write(out[:i+4]); err != nil {
			return err
		}
		out = out[i+4:]
		c.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
		cc.br.Peek(1)
		c.SetReadDeadline(deadline)
	}
	for len(out) > 0 {
		k := min(len(out), 1400)
		if _, err := c.Write(out[:k]); err != nil {
			return err
		}
		out = out[k:]
	}
	if op.Mode == "half" || op.Mode == "cut" {
		w.faults["client-half-request"]++
		time.Sleep(2 * time.Millisecond)
		return errHalf
	}
	if op.Mode == "hang" {
		w.faults["client-hang"]++
	}
	if op.SlowMs > 0 {
		w.faults["client-slow-reader"]++
		time.Sleep(time.Duration(op.SlowMs) * time.Millisecond)
	}
	resp, err := http.ReadResponse(cc.br, &http.Request{Method: op.Method})
	for err == nil && resp.StatusCode >= 100 && resp.StatusCode < 200 && resp.StatusCode != 101 {
		rec.Interim++
		resp, err = http.ReadResponse(cc.br, &http.Request{Method: op.Method})
	}
	if err != nil {
		return err
	}
	rec.First = w.now()
	rec.Status = resp.StatusCode
	rec.Header = resp.Header
	rec.Length = resp.ContentLength
	b, err := io.ReadAll(io.LimitReader(resp.Body, 64<<20))
	rec.Body = b
	if err != nil {
		return err
	}
	resp.Body.Close()
	rec.Trailer = resp.Trailer
	if op.Keep && !resp.Close {
		keep = true
		return nil
	}
	// The connection is to be closed by the other side: nothing may follow.
	if op.Mode != "hang" {
		c.SetReadDeadline(time.Now().Add(2 * time.Second))
		if n, _ := cc.br.Read(make([]byte, 1)); n > 0 {
			rec.Extra = true
		}
	}
	return nil
}

func (o *Op) body(id int) []byte {
	if o.Body != "" {
		return []byte(o.Body)
	}
	if o.BodyLen > 0 {
		b := []byte(fmt.Sprintf("REQ=%d;LEN=%d;", id, o.BodyLen))
		if len(b) > o.BodyLen {
			return b[:o.BodyLen]
		}
		return append(b, filler(1_000_000+id, o.BodyLen-len(b))...)
	}
	return nil
}

// ---- configuration files

type cfgWrite struct {
	At     time.Duration
	ID     int
	Config *ConfigPlan // nil: not a loadable configuration
	Mode   string
}

type reload struct {
	kind     string
	from, to time.Duration
	status   int
}

type cfgState struct {
	writes  []cfgWrite
	reloads []reload
}

func (w *World) noteReload(k *KNode, kind string, from, to time.Duration, status int) {
	w.curCfg[k.idx].reloads = append(w.curCfg[k.idx].reloads, reload{kind, from, to, status})
}

// writeConfig puts a configuration file in place, or something that is none.
func (w *World) writeConfig(k *KNode, c *ConfigPlan, mode string, id int) {
	st := w.curCfg[k.idx]
	text := ""
	if c != nil {
		text = c.yaml()
	}
	wr := cfgWrite{At: w.now(), ID: id, Mode: mode}
	os.RemoveAll(k.cfgPath)
	switch mode {
	case "", "write":
		wr.Config = c
		os.WriteFile(k.cfgPath, []byte(text), 0o644)
	case "torn":
		// the first part of the file, cut inside the cache section
		n := strings.Index(text, "\ncache:")
		if n < 0 {
			n = len(text) / 2
		}
		cut := n + 8 + int(h64(id, "torn")%uint64(max(1, len(text)-n-8)))
		t := text[:min(cut, len(text))]
		os.WriteFile(k.cfgPath, []byte(t+"\n  \"unterminated: [\n"), 0o644)
		w.faults["config-torn"]++
	case "empty":
		os.WriteFile(k.cfgPath, nil, 0o644)
		w.faults["config-empty"]++
	case "missing":
		w.faults["config-missing"]++
	case "dir":
		os.MkdirAll(k.cfgPath, 0o755)
		w.faults["config-unreadable"]++
	case "garbage":
		os.WriteFile(k.cfgPath, []byte("cache: {{{\x00 not yaml ::\n\t- ["), 0o644)
		w.faults["config-garbage"]++
	case "unknown":
		os.WriteFile(k.cfgPath, []byte(text+"\nno_such_section:\n  a: 1\n"), 0o644)
		w.faults["config-unknown-field"]++
	case "wrongtype":
		bad := strings.Replace(text, "\ncache:\n", "\ncache:\n  timeouts: 17\n", 1)
		if bad == text {
			bad += "\ncache:\n  timeouts: 17\n"
		}
		os.WriteFile(k.cfgPath, []byte(bad), 0o644)
		w.faults["config-wrong-type"]++
	case "sparse", "hosts":
		wr.Config = c
		os.WriteFile(k.cfgPath, []byte(c.variant(mode, id)), 0o644)
	default:
		if !unusable[mode] {
			panic("config mode " + mode)
		}
		os.WriteFile(k.cfgPath, []byte(c.variant(mode, id)), 0o644)
		w.faults["config-"+mode]++
	}
	w.logf("config of %s: %s id=%d", k.m.name, mode, id)
	st.writes = append(st.writes, wr)
}

// unusable are the kinds of files no process can start with.
var unusable = map[string]bool{"torn": true, "empty": true, "missing": true, "dir": true, "garbage": true, "unknown": true, "wrongtype": true,
	"no-listeners": true, "null-listener": true, "bad-listener": true, "dup-listener": true, "no-upstreams": true, "null-upstream": true, "bad-upstream": true,
	"no-api": true, "bad-acl": true, "bad-port": true, "port-clash": true, "no-provider": true, "bad-backend": true, "mem-item": true, "no-endpoint": true, "no-workers": true, "bad-cluster": true}

// variant renders the configuration in another way, or with a flaw.
func (c *ConfigPlan) variant(mode string, id int) string {
	n := int(h64(id, mode) % 997)
	pick := func(l ...string) string { return l[n%len(l)] }
	if mode == "mem-item" {
		v := *c
		v.MemMax, v.MemItem = 1000, 1001
		if v.Backend == "redis" {
			v.Layered = true
		}
		return v.yaml()
	}
	text := c.yaml()
	section := func(name, with string) {
		i := strings.Index("\n"+text, "\n"+name+":")
		j := len(text)
		for k := i + 1; k < len(text); k++ {
			if text[k-1] == '\n' && text[k] != ' ' {
				j = k
				break
			}
		}
		text = text[:i] + with + text[j:]
	}
	once := func(old, with string) {
		if !strings.Contains(text, old) {
			panic("config variant " + mode)
		}
		text = strings.Replace(text, old, with, 1)
	}
	switch mode {
	case "no-listeners":
		section("listeners", pick("", "listeners:\n", "listeners: {}\n"))
	case "null-listener":
		once("  web1:\n    addr: :80\n", pick("  web1:\n    addr: :80\n  web0:\n", "  web1:\n"))
	case "bad-listener":
		once("addr: "+pick(":80", ":3128"), "addr: "+yq(pick(":99999", "80", ":80:80", "10.0.9.9:80", ":-1", "no such host:80")))
	case "dup-listener":
		once("addr: :3128", "addr: :80")
	case "no-upstreams":
		section("upstreams", pick("", "upstreams:\n", "upstreams: []\n"))
	case "null-upstream":
		once("upstreams:\n", "upstreams:\n  -\n")
	case "bad-upstream":
		i := strings.LastIndex(text[:strings.Index(text, "\napi:")], "addr: \"")
		if n%2 == 0 {
			i = strings.Index(text, "upstreams:")
			i += strings.Index(text[i:], "addr: \"")
		}
		j := i + 7 + strings.IndexByte(text[i+7:], '"')
		text = text[:i+7] + pick("http://[::1", "http://a b:80/", "http://%zz/", ":80") + text[j:]
	case "no-api":
		section("api", pick("", "api:\n"))
	case "bad-acl":
		section("api", "api:\n  port: 6067\n  acl: "+yq(pick("10.0.7.1,10.0.0.0/33", "10.0.7.1,nowhere", "10.0.7.1,,10.0.7.2", "10.0.7.1;10.0.7.2", "10.0.7.1 10.0.7.2", "10.0.7"))+"\n")
	case "bad-port":
		once("port: 6067", "port: "+pick("70000", "-1"))
	case "port-clash":
		once("port: 6067", "port: "+pick("80", "3128"))
	case "no-provider":
		section("provider", pick("", "provider:\n"))
	case "bad-backend":
		once("backend: "+c.Backend, "backend: "+pick("memcached", "\"\"", "Redis", "in-memory"))
	case "no-endpoint":
		once("    endpoint: \"10.0.1.1:6379\"\n", pick("", "    endpoint:\n", "    endpoint: \"10.0.1.1\"\n", "    endpoint: \"10.0.1.1:6380\"\n"))
	case "no-workers":
		i := strings.Index(text, "    max_queue_concurrency: ")
		j := i + strings.IndexByte(text[i:], '\n')
		text = text[:i] + pick("    max_queue_concurrency: 0", "    max_queue_concurrency:", "    max_queue_concurrency: -1") + text[j:]
	case "bad-cluster":
		if c.Cluster {
			once("discovery: kubernetes", "discovery: "+pick("consul", "\"\"", "Kubernetes"))
		} else {
			text += "cluster:\n  discovery: " + pick("consul", "dns") + "\n"
		}
	case "sparse":
		section("logging", pick("", "logging:\n"))
		if c.Backend == "inmemory" && c.MemMax+c.MemItem == 0 && c.MemTTL == "" {
			once("backend: inmemory\n", "backend: inmemory\n  inmemory:\n    max_size:\n    max_item_size:\n")
		}
		text = "# a comment\n---\n" + text
	case "hosts":
		once("addr: :80", "addr: "+yq(pick("0.0.0.0:80", "[::]:80")))
		once("addr: :3128", "addr: "+yq(pick("[::]:3128", ":3128")))
	}
	return text
}

func yq(s string) string {
	return "\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(s) + "\""
}

// cacheYAML renders the cache section without its indentation.
func (c *CachePlan) lines() []string {
	var l []string
	add := func(f string, a ...any) { l = append(l, fmt.Sprintf(f, a...)) }
	if c.Strict != nil {
		add("strict: %v", *c.Strict)
	}
	add("x_header: %v", c.XHeader)
	if c.XName != "" {
		add("x_header_name: %s", c.XName)
	}
	if c.DefaultTTL != "" {
		add("default_ttl: %s", c.DefaultTTL)
	} else if c.DefaultTTLMs != 0 {
		add("default_ttl: %dms", c.DefaultTTLMs)
	}
	if c.DefaultCC != "" {
		add("default_cache_control: %s", yq(c.DefaultCC))
	}
	if c.ForceCC {
		add("force_cache_control: true")
	}
	if len(c.Timeouts) > 0 {
		add("timeouts:")
		for _, t := range c.Timeouts {
			add("  - path: %s", yq(t.Path))
			add("    ttl: %dms", t.TTLMs)
		}
	}
	if len(c.ExPaths)+len(c.ExHeaders)+len(c.ExContent) > 0 {
		add("exclude:")
		if len(c.ExPaths) > 0 {
			add("  path:")
			for _, p := range c.ExPaths {
				add("    - %s", yq(p))
			}
		}
		if len(c.ExHeaders) > 0 {
			add("  header:")
			var ks []string
			for k := range c.ExHeaders {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				add("    %s: %s", k, yq(c.ExHeaders[k]))
			}
		}
		if len(c.ExContent) > 0 {
			add("  content:")
			for _, x := range c.ExContent {
				add("    - type: %s", yq(x.Type))
				if x.Size > 0 {
					add("      size: %d", x.Size)
				}
			}
		}
	}
	return l
}

func (c *CachePlan) yaml(indent string) string {
	var b strings.Builder
	for _, l := range c.lines() {
		b.WriteString(indent + l + "\n")
	}
	return b.String()
}

func (c *ConfigPlan) yaml() string {
	var b strings.Builder
	b.WriteString("listeners:\n  web1:\n    addr: :80\n  web2:\n    addr: :3128\nupstreams:\n")
	for _, u := range c.Upstreams {
		fmt.Fprintf(&b, "  - name: %s\n    addr: \"http://%s%s\"\n    path: %s\n", u.Name, u.host(), u.Base, yq(u.Path))
	}
	b.WriteString("api:\n  port: 6067\n")
	if c.Debug {
		b.WriteString("  debug: true\n")
	}
	if c.Prefix != "" {
		fmt.Fprintf(&b, "  prefix: %s\n", yq(c.Prefix))
	}
	if c.ACL != "" {
		fmt.Fprintf(&b, "  acl: %s\n", yq(c.ACL))
	}
	fmt.Fprintf(&b, "logging:\n  level: %s\n", map[bool]string{true: "debug", false: "error"}[c.Debug])
	if !c.Cache.NoSection {
		b.WriteString("cache:\n")
		b.WriteString(c.Cache.yaml("  "))
	}
	fmt.Fprintf(&b, "provider:\n  backend: %s\n", c.Backend)
	if c.Layered {
		b.WriteString("  layered: true\n")
	}
	if c.LayeredMs > 0 {
		fmt.Fprintf(&b, "  layered_ttl: %dms\n", c.LayeredMs)
	}
	if c.Backend == "redis" {
		qb, qc := c.QueueBuf, c.QueueConc
		if qb == 0 {
			qb = 1000
		}
		if qc == 0 {
			qc = 8
		}
		fmt.Fprintf(&b, "  redis:\n    endpoint: \"10.0.1.1:6379\"\n    max_queue_concurrency: %d\n    max_queue_buffer_size: %d\n", qc, qb)
		if c.RedisItem > 0 {
			fmt.Fprintf(&b, "    max_item_size: %d\n", c.RedisItem)
		}
		if c.RedisDB > 0 {
			fmt.Fprintf(&b, "    db: %d\n", c.RedisDB)
		}
		if c.RedisUser != "" {
			fmt.Fprintf(&b, "    username: %q\n", c.RedisUser)
		}
		if c.RedisPass != "" {
			fmt.Fprintf(&b, "    password: %q\n", c.RedisPass)
		}
	}
	if c.MemMax > 0 || c.MemItem > 0 || c.MemTTL != "" {
		b.WriteString("  inmemory:\n")
		if c.MemMax > 0 {
			fmt.Fprintf(&b, "    max_size: %d\n", c.MemMax)
		}
		if c.MemItem > 0 {
			fmt.Fprintf(&b, "    max_item_size: %d\n", c.MemItem)
		}
		if c.MemTTL != "" {
			fmt.Fprintf(&b, "    default_ttl: %s\n", yq(c.MemTTL))
		}
	}
	if c.Cluster {
		b.WriteString("cluster:\n  discovery: kubernetes\n  namespace: default\n  service: kache-service\n")
	}
	return b.String()
}

func (c *ConfigPlan) prefix() string {
	if c.Prefix == "" {
		return "/api"
	}
	p := c.Prefix
	if p[0] != '/' {
		p = "/" + p
	}
	return strings.TrimSuffix(path.Clean(p), "/")
}

// apiDone classifies a finished API request for the oracles.
func (w *World) apiDone(rec *OpRec) {
	if strings.HasSuffix(rec.Op.Target, "/cache/config/reload") && rec.Op.Method == "POST" && rec.Status != 401 {
		w.noteReload(rec.Node, "api", rec.Start, rec.End, rec.Status)
	}
}
