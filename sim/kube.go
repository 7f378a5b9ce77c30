//go:build go1.22

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"time"
)

// The simulated Kubernetes API server: it answers for one Endpoints object.

const kubeconfig = `apiVersion: v1
kind: Config
clusters:
- name: sim
  cluster:
    server: http://10.0.3.1:6443
contexts:
- name: sim
  context:
    cluster: sim
    user: sim
current-context: sim
users:
- name: sim
  user: {}
`

type Kube struct {
	w    *World
	m    *Machine
	mode string
	hits int
}

func newKube(w *World) *Kube {
	k := &Kube{w: w}
	k.m = w.addMachine("kube", "10.0.3.1")
	l, err := w.net.listenOn(k.m, 0, 6443)
	if err != nil {
		panic(err)
	}
	goSim(func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			goSim(func() { k.serve(c.(*simConn)) })
		}
	})
	return k
}

func (k *Kube) serve(c *simConn) {
	defer c.Close()
	br := bufio.NewReader(c)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		k.hits++
		k.w.logf("kube <- %s %s %s mode=%s", c.peer.m.name, req.Method, req.URL.Path, k.mode)
		time.Sleep(time.Millisecond)
		status, body := 200, ""
		switch k.mode {
		case "stall":
			k.w.faults["kube-stalled-request"]++
			for k.mode == "stall" && !c.eof && c.rerr == nil {
				time.Sleep(50 * time.Millisecond)
			}
			if c.eof || c.rerr != nil {
				return
			}
			body = k.endpoints()
		case "error":
			k.w.faults["kube-error"]++
			status = 500
			body = `{"kind":"Status","apiVersion":"v1","status":"Failure","message":"simulated","code":500}`
		case "reset":
			k.w.faults["kube-reset"]++
			c.abort(104, true)
			return
		default:
			body = k.endpoints()
		}
		if !strings.Contains(req.URL.Path, "/endpoints/") {
			status, body = 404, `{"kind":"Status","apiVersion":"v1","status":"Failure","reason":"NotFound","code":404}`
		}
		if _, err := fmt.Fprintf(c, "HTTP/1.1 %d %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", status, http.StatusText(status), len(body), body); err != nil {
			return
		}
	}
}

func (k *Kube) endpoints() string {
	type ref struct {
		Kind string `json:"kind"`
		Name string `json:"name"`
	}
	type addr struct {
		IP        string `json:"ip"`
		TargetRef *ref   `json:"targetRef,omitempty"`
	}
	type port struct {
		Name string `json:"name"`
		Port int    `json:"port"`
	}
	type subset struct {
		Addresses         []addr `json:"addresses,omitempty"`
		NotReadyAddresses []addr `json:"notReadyAddresses,omitempty"`
		Ports             []port `json:"ports"`
	}
	s := subset{Ports: []port{{"web", 80}, {"api", 6067}}}
	if k.w.plan.flag("kube-api-first") {
		s.Ports = []port{{"api", 6067}, {"web", 80}, {"metrics", 9100}}
	}
	for _, n := range k.w.nodes {
		a := addr{IP: n.m.ip, TargetRef: &ref{"Pod", n.m.name}}
		if k.w.plan.flag("kube-noref") {
			a.TargetRef = nil
		}
		s.Addresses = append(s.Addresses, a)
	}
	subs := []subset{s}
	if k.w.plan.flag("kube-subsets") {
		// another subset of the service, without the api port
		subs = append(subs, subset{Ports: []port{{"other", 9999}}, Addresses: []addr{{IP: "10.0.7.1", TargetRef: &ref{"Pod", "other"}}}})
	}
	if k.w.plan.flag("kube-subsets-first") {
		subs = append([]subset{{Ports: []port{{"other", 9999}, {"web", 80}}, Addresses: []addr{{IP: "10.0.7.1", TargetRef: &ref{"Pod", "other"}}}}}, subs...)
	}
	if k.w.plan.flag("kube-noports") {
		subs = append([]subset{{Ports: []port{}, Addresses: []addr{{IP: "10.0.7.2"}}}}, subs...)
	}
	if k.w.plan.flag("kube-split") && len(s.Addresses) > 1 {
		subs = []subset{{Ports: s.Ports, Addresses: s.Addresses[:1]}, {Ports: s.Ports, Addresses: s.Addresses[1:]}}
	}
	if k.w.plan.flag("kube-others-after") {
		// and more machines of the service that do not serve the api
		subs = append(subs, subset{Ports: []port{}, Addresses: []addr{{IP: "10.0.7.2", TargetRef: &ref{"Pod", "other2"}}}},
			subset{Ports: []port{{"apiserver", 6067}, {"", 6067}}, Addresses: []addr{{IP: "10.0.7.3"}}})
	}
	if k.w.plan.flag("kube-notready") {
		for i := range subs {
			subs[i].NotReadyAddresses = append(subs[i].NotReadyAddresses, addr{IP: "10.0.7.4", TargetRef: &ref{"Pod", "starting"}})
		}
	}
	if k.mode == "empty" {
		subs = nil
		k.w.faults["kube-empty"]++
	}
	b, _ := json.Marshal(map[string]any{"kind": "Endpoints", "apiVersion": "v1",
		"metadata": map[string]any{"name": "kache-service", "namespace": "default"}, "subsets": subs})
	return string(b)
}
