//go:build go1.22

package main

import "fmt"

// The plan of one run. A run is a pure function of its plan and of the code.

type SchedPlan struct {
	Seed       uint64 `json:"seed"`
	Policy     int32  `json:"policy"`
	MixN       uint32 `json:"mix_n"`
	YieldN     uint32 `json:"yield_n"`
	StallN     uint32 `json:"stall_n"`
	StallMaxUs int64  `json:"stall_max_us"`
}

// Timeout is a per path TTL of the cache section.
type TimeoutPlan struct {
	Path  string `json:"path"`
	TTLMs int64  `json:"ttl_ms"`
}

type ContentPlan struct {
	Type string `json:"type"`
	Size int    `json:"size"`
}

// CachePlan is the cache section of a configuration.
type CachePlan struct {
	NoSection    bool              `json:"no_section,omitempty"`
	Strict       *bool             `json:"strict,omitempty"`
	XHeader      bool              `json:"x_header,omitempty"`
	XName        string            `json:"x_name,omitempty"`
	DefaultTTLMs int64             `json:"default_ttl_ms,omitempty"`
	DefaultTTL   string            `json:"default_ttl,omitempty"` // as written, what it means is DefaultTTLMs
	DefaultCC    string            `json:"default_cc,omitempty"`
	ForceCC      bool              `json:"force_cc,omitempty"`
	Timeouts     []TimeoutPlan     `json:"timeouts,omitempty"`
	ExPaths      []string          `json:"ex_paths,omitempty"`
	ExHeaders    map[string]string `json:"ex_headers,omitempty"`
	ExContent    []ContentPlan     `json:"ex_content,omitempty"`
}

func (c *CachePlan) strict() bool { return c.Strict == nil || *c.Strict }

type UpstreamPlan struct {
	Name   string `json:"name"`
	Path   string `json:"path"`   // prefix matched
	Origin int    `json:"origin"` // index of the origin machine
	Base   string `json:"base,omitempty"`
	Host   string `json:"host,omitempty"` // "": address and port of the origin
}

func (u *UpstreamPlan) host() string {
	if u.Host != "" {
		return u.Host
	}
	return fmt.Sprintf("10.0.2.%d:8000", u.Origin+1)
}

// ConfigPlan is a whole kache.yml.
type ConfigPlan struct {
	Cache     CachePlan      `json:"cache"`
	Upstreams []UpstreamPlan `json:"upstreams"`
	Backend   string         `json:"backend"` // inmemory or redis
	Layered   bool           `json:"layered,omitempty"`
	LayeredMs int64          `json:"layered_ttl_ms,omitempty"`
	MemMax    uint64         `json:"mem_max,omitempty"`
	MemItem   uint64         `json:"mem_item,omitempty"`
	MemTTL    string         `json:"mem_ttl,omitempty"`
	RedisItem int            `json:"redis_item,omitempty"`
	RedisDB   int            `json:"redis_db,omitempty"`   // the database that is kache's own
	RedisUser string         `json:"redis_user,omitempty"` // what the server demands
	RedisPass string         `json:"redis_pass,omitempty"`
	QueueBuf  int            `json:"queue_buf,omitempty"`
	QueueConc int            `json:"queue_conc,omitempty"`
	Cluster   bool           `json:"cluster,omitempty"`
	Prefix    string         `json:"prefix,omitempty"`
	ACL       string         `json:"acl,omitempty"`
	Debug     bool           `json:"debug,omitempty"`
}

// Resource describes what an origin serves at a path.
type Resource struct {
	Origin   int               `json:"origin"`
	Path     string            `json:"path"`
	Status   int               `json:"status"`
	Headers  [][2]string       `json:"headers,omitempty"`
	Size     int               `json:"size"`
	Framing  string            `json:"framing,omitempty"` // "" length, "chunked", "close"
	DelayMs  int               `json:"delay_ms,omitempty"`
	NoDate   bool              `json:"no_date,omitempty"`
	ETag     bool              `json:"etag,omitempty"`
	LastMod  bool              `json:"last_mod,omitempty"`
	Lm304    bool              `json:"lm304,omitempty"`
	Etag304  string            `json:"etag304,omitempty"` // "", "omit", "other"
	Ranges   bool              `json:"ranges,omitempty"`
	ExpireMs int               `json:"expire_ms,omitempty"` // adds Expires = Date + this
	H304     [][2]string       `json:"h304,omitempty"`
	Exp304Ms int               `json:"exp304_ms,omitempty"` // the Expires of a 304, if different
	Alt      [][2]string       `json:"alt,omitempty"`       // header fields of every other version instead of Headers
	Odd304   bool              `json:"odd304,omitempty"`    // answers 304 to unconditional requests now and then
	Extra    map[string]string `json:"extra,omitempty"`
}

// Op is something that happens at a given time.
type Op struct {
	At int64 `json:"at"` // ms
	// OnRead, if not zero, makes it happen this many microseconds (1: none) after
	// the node has next read its configuration file.
	OnRead int64  `json:"on_read_us,omitempty"`
	Kind   string `json:"kind"`
	// req: client request; api: API request; change: new version of a resource
	ID      int         `json:"id,omitempty"`
	Client  int         `json:"client,omitempty"`
	Node    int         `json:"node,omitempty"`
	Method  string      `json:"method,omitempty"`
	Target  string      `json:"target,omitempty"`
	Host    string      `json:"host,omitempty"`
	Headers [][2]string `json:"headers,omitempty"`
	Body    string      `json:"body,omitempty"`
	BodyLen int         `json:"body_len,omitempty"`
	Chunked bool        `json:"chunked,omitempty"`
	Keep    bool        `json:"keep,omitempty"`      // use the client's persistent connection
	Cancel  int64       `json:"cancel_us,omitempty"` // close the connection after this long
	SlowMs  int64       `json:"slow_ms,omitempty"`   // pause before reading the response
	Res     int         `json:"res,omitempty"`
	Config  *ConfigPlan `json:"config,omitempty"`
	Text    string      `json:"text,omitempty"`
	Tag     string      `json:"tag,omitempty"`
	Mode    string      `json:"mode,omitempty"`
	DurMs   int64       `json:"dur_ms,omitempty"`
	Arg     int64       `json:"arg,omitempty"`
	Key     string      `json:"key,omitempty"`
	Origin  int         `json:"origin,omitempty"`
}

// Fault is an injected fault window.
type Fault struct {
	At    int64  `json:"at"`
	DurMs int64  `json:"dur_ms"`
	Kind  string `json:"kind"`
	A     string `json:"a,omitempty"` // machine name
	B     string `json:"b,omitempty"`
	Arg   int64  `json:"arg,omitempty"`
	Prob  int    `json:"prob,omitempty"` // per cent
	Mode  string `json:"mode,omitempty"`
}

type Plan struct {
	Prop      string     `json:"prop"`
	Seed      uint64     `json:"seed"`
	Scenario  string     `json:"scenario"`
	Sched     SchedPlan  `json:"sched"`
	Nodes     int        `json:"nodes"`
	Origins   int        `json:"origins"`
	Config    ConfigPlan `json:"config"`
	Resources []Resource `json:"resources"`
	Ops       []Op       `json:"ops"`
	Faults    []Fault    `json:"faults"`
	EndMs     int64      `json:"end_ms"` // operations and faults happen before this
	Watch     bool       `json:"watch,omitempty"`
	WatchMs   int64      `json:"watch_ms,omitempty"`
	SkewMs    []int64    `json:"skew_ms,omitempty"`
	OSkewMs   []int64    `json:"oskew_ms,omitempty"` // origin clock skew
	LatUs     int64      `json:"lat_us,omitempty"`
	JitUs     int64      `json:"jit_us,omitempty"`
	Prov      *ProvPlan  `json:"prov,omitempty"`
	Probe     bool       `json:"probe,omitempty"`
	Flags     []string   `json:"flags,omitempty"`
}

func (p *Plan) flag(s string) bool {
	for _, f := range p.Flags {
		if f == s {
			return true
		}
	}
	return false
}

// ProvPlan is a workload on a cache provider itself.
type ProvPlan struct {
	Mode string   `json:"mode"`
	Ops  []ProvOp `json:"ops"`
}

type ProvOp struct {
	G     int    `json:"g"` // goroutine
	Kind  string `json:"kind"`
	Key   string `json:"key,omitempty"`
	Size  int    `json:"size,omitempty"`
	TTLMs int64  `json:"ttl_ms,omitempty"`
	WaitU int64  `json:"wait_us,omitempty"`
}

type Violation struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"` // stable class of what failed
	Msg  string `json:"msg"`
}

type Result struct {
	Violations []Violation      `json:"violations"`
	Hash       string           `json:"hash"`       // of the event log
	SchedHash  string           `json:"sched_hash"` // of the scheduling decisions
	Stats      map[string]int64 `json:"stats"`
	Faults     map[string]int64 `json:"faults"`
	Cover      map[string]int64 `json:"cover"` // what the oracles actually judged
	SimMs      int64            `json:"sim_ms"`
	Plan       *Plan            `json:"plan,omitempty"`
	Log        []string         `json:"log,omitempty"`
	Err        string           `json:"err,omitempty"`
	Nontrivial bool             `json:"nontrivial"`
}
