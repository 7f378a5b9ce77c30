//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// The simulated Redis server: RESP2 over the simulated network, with expiry
// by the simulated clock, cursor scans and glob patterns.

type redisVal struct {
	v   []byte
	exp time.Duration // 0: never
	set *RedisSet
}

// A RedisSet is a SET as it reached the server.
type RedisSet struct {
	At     time.Duration
	Key    string
	Val    []byte
	TTL    time.Duration // 0: none
	Node   string
	Failed bool
	Info   entryInfo
}

type RedisDel struct {
	At   time.Duration
	Key  string
	Node string
	Cmd  string
}

type Redis struct {
	w       *World
	m       *Machine
	l       *simListener
	data    map[string]*redisVal
	sets    []*RedisSet
	dels    []*RedisDel
	rng     *rand.Rand
	modes   []Fault
	down    bool
	stall   chan struct{}
	cmds    map[string]int64
	conns   []*simConn
	flushes int
}

func newRedis(w *World) *Redis {
	r := &Redis{w: w, data: map[string]*redisVal{}, cmds: map[string]int64{}, rng: rand.New(rand.NewPCG(w.plan.Seed, 99))}
	r.m = w.addMachine("redis", "10.0.1.1")
	r.listen()
	return r
}

func (r *Redis) listen() {
	l, err := r.w.net.listenOn(r.m, 0, 6379)
	if err != nil {
		panic(err)
	}
	r.l = l
	goSim(func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			sc := c.(*simConn)
			r.conns = append(r.conns, sc)
			goSim(func() { r.serve(sc) })
		}
	})
}

// fault starts or ends a fault of the server itself.
func (r *Redis) fault(f Fault, on bool) {
	if on {
		r.modes = append(r.modes, f)
	} else {
		for i := range r.modes {
			if r.modes[i] == f {
				r.modes = append(r.modes[:i:i], r.modes[i+1:]...)
				break
			}
		}
	}
	switch f.Mode {
	case "crash", "crash-lose":
		if on && !r.down {
			r.down = true
			r.l.Close()
			for _, c := range r.conns {
				c.abort(104, true)
			}
			r.conns = nil
			if f.Mode == "crash-lose" {
				r.data = map[string]*redisVal{}
			}
		} else if !on && r.down {
			still := false
			for _, m := range r.modes {
				if m.Mode == "crash" || m.Mode == "crash-lose" {
					still = true
				}
			}
			if !still {
				r.down = false
				r.listen()
			}
		}
	case "stall":
		if on && r.stall == nil {
			r.stall = make(chan struct{})
		} else if !on && r.stall != nil && !r.has("stall") {
			close(r.stall)
			r.stall = nil
		}
	case "corrupt":
		if on {
			// Damage some of what is stored.
			var ks []string
			for k := range r.data {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if r.rng.IntN(100) >= f.Prob {
					continue
				}
				v := r.data[k]
				r.data[k] = &redisVal{v: r.damage(v.v), exp: v.exp, set: v.set}
				r.w.faults["redis-value-damaged"]++
				r.w.logf("redis damaged %s", k)
			}
		}
	case "evict":
		if on {
			var ks []string
			for k := range r.data {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if r.rng.IntN(100) < f.Prob {
					delete(r.data, k)
					r.w.faults["redis-key-evicted"]++
				}
			}
		}
	}
}

// damage makes a value that cannot be a well formed entry any more: it is cut
// short, emptied or replaced by something else. (A damaged byte inside a body
// is not detectable by any reader without a checksum, so that is not a fault
// whose consequences kache could be blamed for.)
func (r *Redis) damage(v []byte) []byte {
	switch r.rng.IntN(4) {
	case 0:
		if len(v) > 1 {
			return append([]byte(nil), v[:1+r.rng.IntN(len(v)-1)]...)
		}
		return []byte{}
	case 1:
		return []byte{}
	case 2:
		return []byte("not an entry at all\r\n\x00\xff")
	default:
		b := make([]byte, 1+r.rng.IntN(64))
		for i := range b {
			b[i] = byte(r.rng.Uint32())
		}
		return b
	}
}

func (r *Redis) has(mode string) bool {
	for _, m := range r.modes {
		if m.Mode == mode {
			return true
		}
	}
	return false
}

func (r *Redis) get(k string) *redisVal {
	v := r.data[k]
	if v == nil {
		return nil
	}
	if v.exp != 0 && r.w.now() >= v.exp {
		delete(r.data, k)
		return nil
	}
	return v
}

func (r *Redis) keys() []string {
	var ks []string
	for k := range r.data {
		if r.get(k) != nil {
			ks = append(ks, k)
		}
	}
	// in the order of a hash, as the real server's cursor walks its table
	sort.Slice(ks, func(i, j int) bool {
		a, b := h64(ks[i]), h64(ks[j])
		return a < b || a == b && ks[i] < ks[j]
	})
	return ks
}

func readCmd(br *bufio.Reader) ([][]byte, error) {
	line, err := br.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	line = bytes.TrimRight(line, "\r\n")
	if len(line) == 0 || line[0] != '*' {
		return nil, fmt.Errorf("bad command %q", line)
	}
	n, err := strconv.Atoi(string(line[1:]))
	if err != nil || n < 1 || n > 1024 {
		return nil, fmt.Errorf("bad command %q", line)
	}
	args := make([][]byte, n)
	for i := range args {
		line, err := br.ReadBytes('\n')
		if err != nil {
			return nil, err
		}
		line = bytes.TrimRight(line, "\r\n")
		if len(line) == 0 || line[0] != '$' {
			return nil, fmt.Errorf("bad bulk %q", line)
		}
		k, err := strconv.Atoi(string(line[1:]))
		if err != nil || k < 0 {
			return nil, fmt.Errorf("bad bulk %q", line)
		}
		buf := make([]byte, k+2)
		if _, err := io.ReadFull(br, buf); err != nil {
			return nil, err
		}
		args[i] = buf[:k]
	}
	return args, nil
}

func (r *Redis) serve(c *simConn) {
	br := bufio.NewReader(c)
	defer c.Close()
	cfg := &r.w.plan.Config
	db, authed := 0, cfg.RedisPass == ""
	for {
		args, err := readCmd(br)
		if err != nil {
			return
		}
		if s := r.stall; s != nil {
			r.w.faults["redis-stalled-command"]++
			<-s
		}
		if r.down {
			return
		}
		// service time
		d := time.Duration(20+r.rng.IntN(120)) * time.Microsecond
		for _, m := range r.modes {
			if m.Mode == "slow" {
				d += time.Duration(r.rng.Int64N(max(1, m.Arg))) * time.Microsecond
				r.w.faults["redis-slow-command"]++
			}
		}
		time.Sleep(d)
		if r.down || c.closed || c.rerr != nil {
			return
		}
		cmd := strings.ToUpper(string(args[0]))
		setup := cmd == "PING" || cmd == "HELLO" || cmd == "CLIENT" || cmd == "SELECT" || cmd == "AUTH"
		for _, m := range r.modes {
			if r.rng.IntN(100) >= m.Prob {
				continue
			}
			switch m.Mode {
			case "error":
				if setup {
					continue
				}
				r.w.faults["redis-error-reply"]++
				r.noteSet(cmd, args, c, true)
				if _, err := c.Write([]byte("-ERR simulated failure\r\n")); err != nil {
					return
				}
				goto next
			case "readonly":
				if cmd == "SET" || cmd == "DEL" || cmd == "FLUSHDB" {
					r.w.faults["redis-oom-reply"]++
					r.noteSet(cmd, args, c, true)
					if _, err := c.Write([]byte("-OOM command not allowed when used memory > 'maxmemory'\r\n")); err != nil {
						return
					}
					goto next
				}
			case "loading":
				r.w.faults["redis-loading-reply"]++
				if _, err := c.Write([]byte("-LOADING Redis is loading the dataset in memory\r\n")); err != nil {
					return
				}
				goto next
			case "reset-before":
				r.w.faults["redis-reset-before"]++
				c.abort(104, true)
				return
			case "reset-after":
				r.w.faults["redis-reset-after"]++
				if authed && db == cfg.RedisDB {
					r.exec(cmd, args, c)
				}
				c.abort(104, true)
				return
			}
		}
		switch {
		case cmd == "AUTH":
			user, pass := "default", string(args[len(args)-1])
			if len(args) > 2 {
				user = string(args[1])
			}
			want := cfg.RedisUser
			if want == "" {
				want = "default"
			}
			authed = user == want && pass == cfg.RedisPass || cfg.RedisPass == ""
			if !authed {
				r.w.logf("redis %s AUTH refused", c.peer.m.name)
				if _, err := c.Write([]byte("-WRONGPASS invalid username-password pair or user is disabled.\r\n")); err != nil {
					return
				}
				goto next
			}
		case !authed && cmd != "HELLO":
			r.w.logf("redis %s %s without AUTH", c.peer.m.name, cmd)
			if _, err := c.Write([]byte("-NOAUTH Authentication required.\r\n")); err != nil {
				return
			}
			goto next
		case cmd == "SELECT":
			db, _ = strconv.Atoi(string(args[1]))
		case setup:
		case db != cfg.RedisDB:
			// Another application's database: what kache stores or removes
			// there is not its own.
			r.foreign(c, fmt.Sprintf("%s in database %d, kache's is %d", args, db, cfg.RedisDB))
		case cmd == "FLUSHALL" || cmd == "SWAPDB" || cmd == "CONFIG":
			r.foreign(c, fmt.Sprintf("%s, which affects the databases of other applications", args))
		}
		if _, err := c.Write(r.exec(cmd, args, c)); err != nil {
			return
		}
	next:
	}
}

func (r *Redis) foreign(c *simConn, what string) {
	p := "C05"
	if r.w.plan.Prop == "C10" {
		p = "C10"
	}
	r.w.violate(p, "foreign-database", "%s sent %.120q", c.peer.m.name, what)
}

func (r *Redis) noteSet(cmd string, args [][]byte, c *simConn, failed bool) {
	if cmd == "SET" && len(args) >= 3 {
		r.sets = append(r.sets, &RedisSet{At: r.w.now(), Key: string(args[1]), Val: append([]byte(nil), args[2]...), Node: c.peer.m.name, Failed: failed})
	}
}

func bulk(b []byte) []byte {
	o := []byte(fmt.Sprintf("$%d\r\n", len(b)))
	o = append(o, b...)
	return append(o, '\r', '\n')
}

func (r *Redis) exec(cmd string, args [][]byte, c *simConn) []byte {
	r.cmds[cmd]++
	peer := c.peer.m.name
	switch cmd {
	case "PING":
		return []byte("+PONG\r\n")
	case "SELECT", "AUTH":
		return []byte("+OK\r\n")
	case "CLIENT":
		return []byte("+OK\r\n")
	case "HELLO":
		return []byte("-ERR unknown command 'HELLO'\r\n")
	case "GET":
		v := r.get(string(args[1]))
		if v == nil {
			r.w.logf("redis %s GET %s -> nil", peer, args[1])
			return []byte("$-1\r\n")
		}
		r.w.logf("redis %s GET %s -> %d bytes", peer, args[1], len(v.v))
		return bulk(v.v)
	case "SET":
		s := &RedisSet{At: r.w.now(), Key: string(args[1]), Val: append([]byte(nil), args[2]...), Node: peer}
		nx := false
		for i := 3; i < len(args); i++ {
			switch strings.ToUpper(string(args[i])) {
			case "EX":
				n, _ := strconv.ParseInt(string(args[i+1]), 10, 64)
				s.TTL = time.Duration(n) * time.Second
				i++
			case "PX":
				n, _ := strconv.ParseInt(string(args[i+1]), 10, 64)
				s.TTL = time.Duration(n) * time.Millisecond
				i++
			case "NX":
				nx = true
			}
		}
		if nx && r.get(s.Key) != nil {
			return []byte("$-1\r\n")
		}
		s.Info = parseEntry(s.Val)
		r.sets = append(r.sets, s)
		v := &redisVal{v: s.Val, set: s}
		if s.TTL > 0 {
			v.exp = r.w.now() + s.TTL
		}
		r.data[s.Key] = v
		r.w.logf("redis %s SET %s %d bytes ex=%d ttl=%v", peer, s.Key, len(s.Val), s.Info.Exch, s.TTL)
		return []byte("+OK\r\n")
	case "DEL", "UNLINK":
		n := 0
		for _, k := range args[1:] {
			if r.get(string(k)) != nil {
				n++
				delete(r.data, string(k))
			}
			r.dels = append(r.dels, &RedisDel{r.w.now(), string(k), peer, cmd})
			r.w.logf("redis %s DEL %s", peer, k)
		}
		return []byte(fmt.Sprintf(":%d\r\n", n))
	case "EXISTS":
		n := 0
		for _, k := range args[1:] {
			if r.get(string(k)) != nil {
				n++
			}
		}
		return []byte(fmt.Sprintf(":%d\r\n", n))
	case "TTL", "PTTL":
		v := r.get(string(args[1]))
		if v == nil {
			return []byte(":-2\r\n")
		}
		if v.exp == 0 {
			return []byte(":-1\r\n")
		}
		d := v.exp - r.w.now()
		if cmd == "TTL" {
			return []byte(fmt.Sprintf(":%d\r\n", int64(d/time.Second)))
		}
		return []byte(fmt.Sprintf(":%d\r\n", int64(d/time.Millisecond)))
	case "MGET":
		o := []byte(fmt.Sprintf("*%d\r\n", len(args)-1))
		for _, k := range args[1:] {
			if v := r.get(string(k)); v != nil {
				o = append(o, bulk(v.v)...)
			} else {
				o = append(o, "$-1\r\n"...)
			}
		}
		return o
	case "DBSIZE":
		return []byte(fmt.Sprintf(":%d\r\n", len(r.keys())))
	case "FLUSHDB", "FLUSHALL":
		r.data = map[string]*redisVal{}
		r.flushes++
		r.dels = append(r.dels, &RedisDel{r.w.now(), "*", peer, cmd})
		r.w.logf("redis %s FLUSHDB", peer)
		return []byte("+OK\r\n")
	case "KEYS":
		var ks []string
		for _, k := range r.keys() {
			if globMatch(string(args[1]), k) {
				ks = append(ks, k)
			}
		}
		o := []byte(fmt.Sprintf("*%d\r\n", len(ks)))
		for _, k := range ks {
			o = append(o, bulk([]byte(k))...)
		}
		return o
	case "SCAN":
		// The cursor is a position in hash space, so a scan returns every
		// key that is there throughout, whatever happens to the others.
		cur, _ := strconv.ParseUint(string(args[1]), 10, 64)
		pat, count := "*", 10
		for i := 2; i+1 < len(args); i += 2 {
			switch strings.ToUpper(string(args[i])) {
			case "MATCH":
				pat = string(args[i+1])
			case "COUNT":
				count, _ = strconv.Atoi(string(args[i+1]))
			}
		}
		if count < 1 {
			count = 10
		}
		// COUNT is only a hint, pages may well be empty.
		if m := h64(fmt.Sprint("page", r.w.plan.Seed)) % 4; m > 0 {
			count = min(count, int(m))
		}
		var out []string
		next := uint64(0)
		n := 0
		for _, k := range r.keys() {
			h := h64(k)>>1 + 1
			if h < cur {
				continue
			}
			if n >= count {
				next = h
				break
			}
			n++
			if globMatch(pat, k) {
				out = append(out, k)
				if h64(fmt.Sprint("again", r.w.plan.Seed, k))%8 == 0 {
					out = append(out, k) // a scan may return a key more than once
				}
			}
		}
		r.w.logf("redis %s SCAN %d %s -> %d %d", peer, cur, pat, next, len(out))
		o := []byte("*2\r\n")
		o = append(o, bulk([]byte(strconv.FormatUint(next, 10)))...)
		o = append(o, fmt.Sprintf("*%d\r\n", len(out))...)
		for _, k := range out {
			o = append(o, bulk([]byte(k))...)
		}
		return o
	}
	r.w.logf("redis %s unknown %s", peer, cmd)
	return []byte("-ERR unknown command\r\n")
}

// globMatch is Redis' stringmatchlen.
func globMatch(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if globMatch(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if len(s) == 0 {
				return false
			}
			s = s[1:]
			p = p[1:]
		case '[':
			if len(s) == 0 {
				return false
			}
			p = p[1:]
			not := len(p) > 0 && p[0] == '^'
			if not {
				p = p[1:]
			}
			match := false
			for {
				if len(p) == 0 {
					break
				}
				if p[0] == '\\' && len(p) >= 2 {
					p = p[1:]
					if p[0] == s[0] {
						match = true
					}
				} else if p[0] == ']' {
					break
				} else if len(p) >= 3 && p[1] == '-' {
					a, b := p[0], p[2]
					if a > b {
						a, b = b, a
					}
					p = p[2:]
					if s[0] >= a && s[0] <= b {
						match = true
					}
				} else if p[0] == s[0] {
					match = true
				}
				p = p[1:]
			}
			if len(p) > 0 {
				p = p[1:]
			}
			if not {
				match = !match
			}
			if !match {
				return false
			}
			s = s[1:]
		case '\\':
			if len(p) >= 2 {
				p = p[1:]
			}
			fallthrough
		default:
			if len(s) == 0 || s[0] != p[0] {
				return false
			}
			s = s[1:]
			p = p[1:]
		}
	}
	return len(s) == 0
}

var _ net.Conn = (*simConn)(nil)
var _ = runtime.NumGoroutine
