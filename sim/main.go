//go:build go1.22

package main

import (
	"encoding/json"
	"io"
	"log"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"unicode/utf8"
)

// One process is one run: the input says which.
type simInput struct {
	Prop  string `json:"prop"`
	Seed  uint64 `json:"seed"`
	Tier  string `json:"tier"`
	Plan  *Plan  `json:"plan,omitempty"`
	Trace bool   `json:"trace,omitempty"`
	Dry   bool   `json:"dry,omitempty"` // only generate the plan
}

func main() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	var in simInput
	if err := json.Unmarshal(b, &in); err != nil {
		panic(err)
	}
	p := in.Plan
	if p != nil {
		walkStrings(reflect.ValueOf(p), func(s string) string {
			if u, err := strconv.Unquote(strings.TrimPrefix(s, quoted)); err == nil && strings.HasPrefix(s, quoted) {
				return u
			}
			return s
		})
	}
	if p == nil {
		p = genPlan(in.Prop, in.Seed, in.Tier)
	}
	if in.Dry {
		jsonSafe(p)
		emit(&Result{Plan: p})
		return
	}
	if null, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil && os.Getenv("SIM_STDERR") == "" {
		keepOpen = []*os.File{os.Stdout, os.Stderr}
		os.Stdout, os.Stderr = null, null
		log.SetOutput(io.Discard)
	}
	r := runPlan(p, in.Trace)
	if in.Plan == nil && (len(r.Violations) > 0 || in.Trace) {
		r.Plan = p
		jsonSafe(p)
	}
	emit(r)
	runtime.SimQuiet()
	os.SimExit = nil
	os.Exit(0)
}

// Bytes that are no UTF-8 would not survive JSON.
const quoted = "quoted:"

func jsonSafe(p *Plan) {
	walkStrings(reflect.ValueOf(p), func(s string) string {
		if !utf8.ValidString(s) || strings.HasPrefix(s, quoted) {
			return quoted + strconv.QuoteToASCII(s)
		}
		return s
	})
}

func walkStrings(v reflect.Value, f func(string) string) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			walkStrings(v.Elem(), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walkStrings(v.Field(i), f)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walkStrings(v.Index(i), f)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if x := v.MapIndex(k); x.Kind() == reflect.String {
				v.SetMapIndex(k, reflect.ValueOf(f(x.String())))
			}
		}
	case reflect.String:
		v.SetString(f(v.String()))
	}
}

// keepOpen keeps the garbage collector from closing the real output.
var keepOpen []*os.File
