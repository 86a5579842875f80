package main

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"maps"
	"net/http"
	"net/url"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"

	"github.com/shohruhadham/nanomux"
)

// M is a JSON object.
type M = map[string]interface{}

func str(m M, k string) string {
	var s, _ = m[k].(string)
	return s
}

func num(m M, k string) int {
	switch v := m[k].(type) {
	case int:
		return v
	case float64:
		return int(v)
	}
	return 0
}

func yes(m M, k string) bool {
	var b, _ = m[k].(bool)
	return b
}

func strs(m M, k string) []string {
	switch v := m[k].(type) {
	case []string:
		return v
	case []interface{}:
		var r = []string{}
		for _, e := range v {
			r = append(r, e.(string))
		}
		return r
	}
	return []string{}
}

func obj(m M, k string) M {
	var o, _ = m[k].(map[string]interface{})
	return o
}

func list(m M, k string) []M {
	switch v := m[k].(type) {
	case []M:
		return v
	case []interface{}:
		var r = []M{}
		for _, e := range v {
			r = append(r, e.(M))
		}
		return r
	}
	return nil
}

func config(cfg []string) nanomux.Config {
	var c nanomux.Config
	for _, f := range cfg {
		switch f {
		case "sub":
			c.SubtreeHandler = true
		case "sec":
			c.Secure = true
		case "red":
			c.RedirectsInsecureRequest = true
		case "ts":
			c.HasTrailingSlash = true
		case "strict":
			c.StrictOnTrailingSlash = true
		case "lts":
			c.LenientOnTrailingSlash = true
		case "lup":
			c.LenientOnUncleanPath = true
		case "asis":
			c.HandlesThePathAsIs = true
		}
	}
	return c
}

func configList(c nanomux.Config) []string {
	var l = []string{}
	for _, f := range []struct {
		n string
		b bool
	}{
		{"sub", c.SubtreeHandler}, {"sec", c.Secure}, {"red", c.RedirectsInsecureRequest},
		{"ts", c.HasTrailingSlash}, {"strict", c.StrictOnTrailingSlash},
		{"lts", c.LenientOnTrailingSlash}, {"lup", c.LenientOnUncleanPath},
		{"asis", c.HandlesThePathAsIs},
	} {
		if f.b {
			l = append(l, f.n)
		}
	}
	return l
}

// --------------------------------------------------
// Requests

type rec struct {
	q      M
	names  []string
	keys   []string
	beh    map[string]string
	h      http.Header
	ev     []M
	w      []M
	dead   bool
	nest   []M
	world  *world
	gate   func() // called at every event; nil: nothing
	labels []string
	wrote  bool
	orig   *http.Request
	url    url.URL
	header http.Header
	outer  *nanomux.Args // of the request within which this one is made
}

func (c *rec) Header() http.Header { return c.h }
func (c *rec) Write(b []byte) (int, error) {
	if !c.wrote {
		c.WriteHeader(200)
	}
	return len(b), nil
}
func (c *rec) WriteHeader(code int) {
	c.wrote = true
	// The order of the methods is of no importance.
	var methods = strings.FieldsFunc(strings.Join(c.h.Values("Allow"), ","), func(r rune) bool { return r == ',' || r == ' ' })
	sort.Strings(methods)
	var allow = strings.Join(methods, ", ")
	var loc = c.h.Get("Location")
	c.w = append(c.w, M{"c": code, "allow": allow, "loc": loc})
	c.h.Del("Allow")
	c.h.Del("Location")
}

func (c *rec) behOf(l string) string {
	if b, ok := c.beh[l]; ok {
		return b
	}
	return "pass"
}

func chainOf(r interface{}) []string {
	var l = []string{}
	switch v := r.(type) {
	case *nanomux.Host:
		if v != nil {
			l = append(l, "host "+v.Template().String())
		}
	case *nanomux.Resource:
		if v == nil {
			return l
		}
		var top = v
		for p := v; p != nil; p = p.Parent() {
			l = append([]string{"res " + p.Template().String()}, l...)
			top = p
			if len(l) > 500 {
				return []string{"cycle"}
			}
		}
		if h := top.Host(); h != nil {
			l = append([]string{"host " + h.Template().String()}, l...)
		}
	}
	return l
}

func asStr(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case interface{ implLabel() string }:
		return x.implLabel()
	}
	return fmt.Sprintf("?%T", v)
}

func blankView() M {
	return M{"g": []string{}, "rem": "", "data": "", "impl": "", "host": []string{},
		"cur": []string{}, "keys": []string{}, "ctx": false}
}

type originKey struct{}

// Tells whether r is the request that has been made: nobody has changed it or
// replaced it with another one, apart from adding to its context.
func (c *rec) same(r *http.Request) bool {
	return r.Method == c.orig.Method && r.URL == c.orig.URL && *r.URL == c.url &&
		r.Host == c.orig.Host && r.TLS == c.orig.TLS && maps.EqualFunc(r.Header, c.header, slices.Equal[[]string]) &&
		r.RequestURI == c.orig.RequestURI && r.Context().Value(originKey{}) == c
}

// Marks r as the request that c observes.
func (c *rec) own(r *http.Request) *http.Request {
	r = r.WithContext(context.WithValue(r.Context(), originKey{}, c))
	c.orig, c.url, c.header = r, *r.URL, r.Header.Clone()
	return r
}

func (c *rec) view(args *nanomux.Args, r *http.Request) M {
	if args == nil || args == c.outer {
		return blankView()
	}
	var g = []string{}
	var vs = args.HostPathValues()
	for _, n := range c.names {
		g = append(g, vs.Get(n))
	}
	var ks = []string{}
	for _, k := range c.keys {
		ks = append(ks, asStr(args.Get(k)))
	}
	return M{
		"g": g, "rem": args.RemainingPath(), "data": asStr(args.ResponderSharedData()),
		"impl": asStr(args.ResponderImpl()), "host": chainOf(args.Host()),
		"cur": chainOf(args.CurrentResource()), "keys": ks,
		"ctx": nanomux.ArgsFrom(r) == args,
	}
}

func (c *rec) event(args *nanomux.Args, r *http.Request, e, l, u string, code int, res bool) {
	if c.gate != nil {
		c.gate()
	}
	c.labels = append(c.labels, l)
	c.ev = append(c.ev, M{"e": e, "l": l, "u": u, "c": code, "res": res, "req": c.same(r), "v": c.view(args, r)})
}

type handlerPanic struct{}

// Makes another request from within the one being served when that's what the
// one with the label l does.
func (c *rec) nested(args *nanomux.Args, r *http.Request, l, u string, code int) {
	if c.behOf(l) != "nest" {
		return
	}
	if n := list(c.q, "nest"); len(n) > 0 {
		var x = c.world.serveWithin(r, n[0], c.world.router, nil)
		delete(x, "nest")
		c.nest = append(c.nest, x)
	}
	c.event(args, r, "h2", l, u, code, false)
}

// The handler with the label l.
func handle(l string, w http.ResponseWriter, r *http.Request, args *nanomux.Args) bool {
	var c = w.(*rec)
	c.event(args, r, "h", l, "", 0, false)
	switch c.behOf(l) {
	case "F":
		return false
	case "panic":
		panic(handlerPanic{})
	}
	c.nested(args, r, l, "", 0)
	w.WriteHeader(200)
	return true
}

func handler(l string) nanomux.Handler {
	switch {
	case l == "":
		return nil
	case strings.HasPrefix(l, "-"):
		var f = func(w http.ResponseWriter, r *http.Request) {
			handle(l, w, r, nanomux.ArgsFrom(r))
		}
		if l[len(l)-1]%2 == 0 {
			return nanomux.FnHr(f)
		}
		return nanomux.Hr(http.HandlerFunc(f))
	case strings.HasPrefix(l, "="):
		var f = func(w http.ResponseWriter, r *http.Request) {
			handle(l, w, r, nanomux.ArgsFrom(r))
		}
		if l[len(l)-1]%2 == 0 {
			return nanomux.FnHrWithArgs(f)
		}
		return nanomux.HrWithArgs(http.HandlerFunc(f))
	}
	return func(w http.ResponseWriter, r *http.Request, args *nanomux.Args) bool {
		return handle(l, w, r, args)
	}
}

func notFoundHandler(l string, orig nanomux.Handler) nanomux.Handler {
	if l == "" {
		return nil
	}
	return func(w http.ResponseWriter, r *http.Request, args *nanomux.Args) bool {
		var c = w.(*rec)
		c.event(args, r, "nf", l, "", 0, false)
		if c.behOf(l) == "F" {
			return false
		}
		c.nested(args, r, l, "", 0)
		if orig != nil {
			return orig(w, r, args)
		}
		w.WriteHeader(404)
		return true
	}
}

func redirectHandler(l string, orig nanomux.RedirectHandler) nanomux.RedirectHandler {
	if l == "" {
		return nil
	}
	return func(w http.ResponseWriter, r *http.Request, u string, code int, args *nanomux.Args) bool {
		var c = w.(*rec)
		c.event(args, r, "rd", l, u, code, false)
		if c.behOf(l) == "F" {
			return false
		}
		c.nested(args, r, l, u, code)
		if orig != nil {
			return orig(w, r, u, code, args)
		}
		w.WriteHeader(code)
		return true
	}
}

func setKeys(c *rec, args *nanomux.Args, l string) {
	switch c.behOf(l) {
	case "set":
		args.Set("k", l)
	case "own":
		args.Set(l, l)
	}
}

func middleware(l string) nanomux.Middleware {
	if l == "" {
		return nil
	}
	if l[0] == '~' {
		return nanomux.Mw(func(next http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				var c = w.(*rec)
				var args = nanomux.ArgsFrom(r)
				c.event(args, r, "in", l, "", 0, false)
				switch c.behOf(l) {
				case "stopT":
					w.WriteHeader(203)
					return
				case "stopF":
					return
				}
				setKeys(c, args, l)
				c.nested(args, r, l, "", 0)
				next.ServeHTTP(w, r)
				c.event(args, r, "out", l, "", 0, false)
			})
		})
	}
	return func(next nanomux.Handler) nanomux.Handler {
		return func(w http.ResponseWriter, r *http.Request, args *nanomux.Args) bool {
			var c = w.(*rec)
			c.event(args, r, "in", l, "", 0, false)
			switch c.behOf(l) {
			case "stopT":
				w.WriteHeader(203)
				return true
			case "stopF":
				return false
			}
			setKeys(c, args, l)
			c.nested(args, r, l, "", 0)
			var res = next(w, r, args)
			c.event(args, r, "out", l, "", 0, res)
			switch c.behOf(l) {
			case "forceT":
				return true
			case "forceF":
				return false
			}
			return res
		}
	}
}

func middlewares(ls []string) []nanomux.Middleware {
	var r []nanomux.Middleware
	for _, l := range ls {
		r = append(r, middleware(l))
	}
	return r
}

func redirectMw(l string) func(nanomux.RedirectHandler) nanomux.RedirectHandler {
	if l == "" {
		return nil
	}
	return func(next nanomux.RedirectHandler) nanomux.RedirectHandler {
		return func(w http.ResponseWriter, r *http.Request, u string, code int, args *nanomux.Args) bool {
			var c = w.(*rec)
			c.event(args, r, "in", l, u, code, false)
			switch c.behOf(l) {
			case "stopT":
				w.WriteHeader(203)
				return true
			case "stopF":
				return false
			}
			setKeys(c, args, l)
			c.nested(args, r, l, u, code)
			var res = next(w, r, u, code, args)
			c.event(args, r, "out", l, u, code, res)
			switch c.behOf(l) {
			case "forceT":
				return true
			case "forceF":
				return false
			}
			return res
		}
	}
}

func redirectMws(ls []string) []func(nanomux.RedirectHandler) nanomux.RedirectHandler {
	var r []func(nanomux.RedirectHandler) nanomux.RedirectHandler
	for _, l := range ls {
		r = append(r, redirectMw(l))
	}
	return r
}

// --------------------------------------------------
// Implementations

type implBase struct{ l string }

func (i implBase) implLabel() string { return i.l }

type ImplA struct{ implBase }
type ImplB struct{ implBase }
type ImplC struct{ implBase }
type ImplD struct{ implBase }
type ImplE struct{ implBase }
type ImplF struct{ implBase }
type ImplG struct{ implBase }
type ImplH struct{ implBase }

type hw = http.ResponseWriter
type hr = http.Request
type ha = nanomux.Args

func (i *ImplA) HandleGet(w hw, r *hr, a *ha) bool { return handle(i.l+":GET", w, r, a) }

func (i ImplB) HandleGet(w hw, r *hr, a *ha) bool  { return handle(i.l+":GET", w, r, a) }
func (i ImplB) HandlePost(w hw, r *hr, a *ha) bool { return handle(i.l+":POST", w, r, a) }
func (i ImplB) HandleNotAllowedMethod(w hw, r *hr, a *ha) bool {
	return handle(i.l+":!", w, r, a)
}

func (i *ImplC) HandleOptions(w hw, r *hr, a *ha) bool { return handle(i.l+":OPTIONS", w, r, a) }
func (i *ImplC) HandlePut(w hw, r *hr, a *ha) bool     { return handle(i.l+":PUT", w, r, a) }

// ImplD has no handlers.

func (i *ImplE) HandleShare(w hw, r *hr, a *ha) bool  { return handle(i.l+":SHARE", w, r, a) }
func (i *ImplE) HandleDelete(w hw, r *hr, a *ha) bool { return handle(i.l+":DELETE", w, r, a) }
func (i *ImplE) HandleHead(w hw, r *hr, a *ha) bool   { return handle(i.l+":HEAD", w, r, a) }
func (i *ImplE) Handled() bool                        { return true }

func (i *ImplF) HandleNotAllowedMethod(w hw, r *hr, a *ha) bool {
	return handle(i.l+":!", w, r, a)
}

func (i *ImplG) HandlePatch(w hw, r *hr, a *ha) bool { return handle(i.l+":PATCH", w, r, a) }
func (i *ImplG) HandleGet(w hw, r *hr) bool          { return false } // Not a handler.

// ImplH has more handlers than usual.
func (i *ImplH) HandleA(w hw, r *hr, a *ha) bool       { return handle(i.l+":A", w, r, a) }
func (i *ImplH) HandleBind(w hw, r *hr, a *ha) bool    { return handle(i.l+":BIND", w, r, a) }
func (i *ImplH) HandleConnect(w hw, r *hr, a *ha) bool { return handle(i.l+":CONNECT", w, r, a) }
func (i *ImplH) HandleCopy(w hw, r *hr, a *ha) bool    { return handle(i.l+":COPY", w, r, a) }
func (i *ImplH) HandleCustom(w hw, r *hr, a *ha) bool  { return handle(i.l+":CUSTOM", w, r, a) }
func (i *ImplH) HandleDelete(w hw, r *hr, a *ha) bool  { return handle(i.l+":DELETE", w, r, a) }
func (i *ImplH) HandleGet(w hw, r *hr, a *ha) bool     { return handle(i.l+":GET", w, r, a) }
func (i *ImplH) HandleHead(w hw, r *hr, a *ha) bool    { return handle(i.l+":HEAD", w, r, a) }
func (i *ImplH) HandleLink(w hw, r *hr, a *ha) bool    { return handle(i.l+":LINK", w, r, a) }
func (i *ImplH) HandleLock(w hw, r *hr, a *ha) bool    { return handle(i.l+":LOCK", w, r, a) }
func (i *ImplH) HandleMkcol(w hw, r *hr, a *ha) bool   { return handle(i.l+":MKCOL", w, r, a) }
func (i *ImplH) HandleMove(w hw, r *hr, a *ha) bool    { return handle(i.l+":MOVE", w, r, a) }
func (i *ImplH) HandlePatch(w hw, r *hr, a *ha) bool   { return handle(i.l+":PATCH", w, r, a) }
func (i *ImplH) HandlePost(w hw, r *hr, a *ha) bool    { return handle(i.l+":POST", w, r, a) }
func (i *ImplH) HandleSearch(w hw, r *hr, a *ha) bool  { return handle(i.l+":SEARCH", w, r, a) }
func (i *ImplH) HandleTrace(w hw, r *hr, a *ha) bool   { return handle(i.l+":TRACE", w, r, a) }
func (i *ImplH) HandleZ(w hw, r *hr, a *ha) bool       { return handle(i.l+":Z", w, r, a) }

func implOf(o M) nanomux.Impl {
	var i = obj(o, "impl")
	var b = implBase{str(i, "label")}
	switch str(i, "type") {
	case "A":
		return &ImplA{b}
	case "B":
		return ImplB{b}
	case "C":
		return &ImplC{b}
	case "D":
		return &ImplD{b}
	case "E":
		return &ImplE{b}
	case "F":
		return &ImplF{b}
	case "G":
		return &ImplG{b}
	case "H":
		return &ImplH{b}
	}
	return nil
}

var implTable = M{
	"A": M{"ms": []string{"GET"}, "na": false},
	"B": M{"ms": []string{"GET", "POST"}, "na": true},
	"C": M{"ms": []string{"OPTIONS", "PUT"}, "na": false},
	"D": M{"ms": []string{}, "na": false},
	"E": M{"ms": []string{"SHARE", "DELETE", "HEAD"}, "na": false},
	"F": M{"ms": []string{}, "na": true},
	"G": M{"ms": []string{"PATCH"}, "na": false},
	"H": M{"ms": []string{"A", "BIND", "CONNECT", "COPY", "CUSTOM", "DELETE", "GET", "HEAD", "LINK", "LOCK", "MKCOL", "MOVE", "PATCH", "POST", "SEARCH", "TRACE", "Z"}, "na": false},
}

// --------------------------------------------------

type world struct {
	router *nanomux.Router
	refs   []interface{} // *nanomux.Host, *nanomux.Resource or nil
}

var (
	stdRedirect = nanomux.CommonRedirectHandler()
	stdNotFound = nanomux.HandlerOfNotFound()
)

func newWorld() *world {
	nanomux.SetCommonRedirectHandler(redirectHandler("#std", stdRedirect))
	nanomux.SetHandlerForNotFound(notFoundHandler("#nf", stdNotFound))
	nanomux.SetPermanentRedirectCode(http.StatusPermanentRedirect)
	return &world{router: nanomux.NewRouter()}
}

func (wd *world) request(q M) *http.Request {
	var u = &url.URL{
		Scheme: str(q, "uscheme"), Host: str(q, "uhost"), Path: str(q, "path"),
		RawPath: str(q, "rawpath"), RawQuery: str(q, "query"),
	}
	var r = &http.Request{
		Method: str(q, "method"), URL: u, Host: str(q, "host"), Header: http.Header{},
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
	}
	if yes(q, "tls") {
		r.TLS = &tls.ConnectionState{}
	}
	// Headers that a router has nothing to do with.
	if n := len(u.Path) + len(r.Host); n%2 == 0 {
		r.Header.Set("X-Forwarded-Proto", []string{"https", "http"}[n/2%2])
		r.Header.Set("Forwarded", "for=1.2.3.4;proto=https;host=other.org")
		r.Header.Set("X-Forwarded-Host", "h.com")
		r.Header.Set("X-HTTP-Method-Override", []string{"POST", "GET", "DELETE"}[n/2%3])
		r.Header.Set("X-Original-URL", "/a")
		r.Header.Set("Access-Control-Request-Method", "GET")
		r.Header.Set("Upgrade-Insecure-Requests", "1")
		r.Header.Set("Upgrade", "h2c")
		r.Header.Set("Connection", "Upgrade")
	}
	return r
}

func (wd *world) newRec(q M) *rec {
	var c = &rec{
		q: q, names: strs(q, "names"), keys: strs(q, "keys"), beh: map[string]string{},
		h: http.Header{}, ev: []M{}, w: []M{}, nest: []M{}, world: wd,
	}
	for k, v := range obj(q, "beh") {
		c.beh[k] = v.(string)
	}
	return c
}

// serve makes the request and returns what has been observed.
func (wd *world) serve(q M, h http.Handler, gate func()) M {
	return wd.serveWithin(nil, q, h, gate)
}

// serveWithin makes the request while another one is being served. It may have
// the context of the other request.
func (wd *world) serveWithin(outer *http.Request, q M, h http.Handler, gate func()) M {
	var c = wd.newRec(q)
	c.gate = gate
	var r = wd.request(q)
	if outer != nil && yes(q, "inherit") {
		c.outer = nanomux.ArgsFrom(outer)
		r = r.WithContext(outer.Context())
	}
	r = c.own(r)
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(handlerPanic); ok {
					c.dead = true
					return
				}
				panic(p)
			}
		}()
		h.ServeHTTP(c, r)
	}()
	return M{"ev": c.ev, "w": c.w, "dead": c.dead, "nest": c.nest, "kept": c.same(r)}
}

// conc makes the requests concurrently.  At every event a request waits for
// its turn; the turns are given in the order of sched.
func (wd *world) conc(qs []M, sched []int) []M {
	var n = len(qs)
	var res = make([]M, n)
	var turn = make([]chan struct{}, n)
	var back = make(chan int)
	var done = make([]bool, n)
	var panics = make([]interface{}, n)
	for i := range qs {
		turn[i] = make(chan struct{})
		go func(i int) {
			<-turn[i]
			func() {
				defer func() { panics[i] = recover() }()
				res[i] = wd.serve(qs[i], wd.router, func() {
					back <- i
					<-turn[i]
				})
			}()
			done[i] = true
			back <- i
		}(i)
	}
	var step = func(i int) {
		if !done[i] {
			turn[i] <- struct{}{}
			<-back
		}
	}
	for _, i := range sched {
		step(i % n)
	}
	for i := 0; i < n; i++ {
		for !done[i] {
			step(i)
		}
	}
	for _, p := range panics {
		if p != nil {
			panic(p)
		}
	}
	return res
}

// par makes the requests in parallel, each one the given number of times, and
// returns the distinct outcomes of every request.
func (wd *world) par(qs []M, times int) []M {
	var res = make([]M, len(qs))
	var bad = make([]M, len(qs))
	var panics = make([]interface{}, len(qs))
	var wg sync.WaitGroup
	for i := range qs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { panics[i] = recover() }()
			for t := 0; t < times; t++ {
				var x = wd.serve(qs[i], wd.router, runtime.Gosched)
				if res[i] == nil {
					res[i] = x
				} else if bad[i] == nil && jsonOf(x) != jsonOf(res[i]) {
					bad[i] = x
				}
			}
		}(i)
	}
	wg.Wait()
	for i := range bad {
		if panics[i] != nil {
			panic(panics[i])
		}
		if bad[i] != nil {
			res[i] = bad[i]
		}
	}
	return res
}

// --------------------------------------------------
// Operations

func (wd *world) ref(o M, k string) interface{} {
	var i = num(o, k)
	if i == 0 {
		return nil
	}
	return wd.refs[i-1]
}

func asRes(v interface{}) *nanomux.Resource {
	var r, _ = v.(*nanomux.Resource)
	return r
}

func asHost(v interface{}) *nanomux.Host {
	var h, _ = v.(*nanomux.Host)
	return h
}

type responder interface {
	http.Handler
	Template() *nanomux.Template
	Name() string
	Router() *nanomux.Router
	URL(nanomux.HostPathValues) (*url.URL, error)
	Resource(string) *nanomux.Resource
	ResourceUsingConfig(string, nanomux.Config) *nanomux.Resource
	RegisterResource(*nanomux.Resource)
	RegisterResourceUnder(string, *nanomux.Resource)
	RegisteredResource(string) *nanomux.Resource
	ChildResourceNamed(string) *nanomux.Resource
	ChildResources() []*nanomux.Resource
	HasChildResource(*nanomux.Resource) bool
	HasAnyChildResources() bool
	SetSharedData(interface{})
	SharedData() interface{}
	SetConfiguration(nanomux.Config)
	Configuration() nanomux.Config
	SetImplementation(nanomux.Impl)
	Implementation() nanomux.Impl
	SetHandlerFor(string, nanomux.Handler)
	HandlerOf(string) nanomux.Handler
	AllowedHTTPMethods() []string
	WrapRequestPasser(...nanomux.Middleware)
	WrapRequestHandler(...nanomux.Middleware)
	WrapHandlerOf(string, ...nanomux.Middleware)
	SetPermanentRedirectCode(int)
	PermanentRedirectCode() int
	SetRedirectHandler(nanomux.RedirectHandler)
	RedirectHandler() nanomux.RedirectHandler
	WrapRedirectHandler(...func(nanomux.RedirectHandler) nanomux.RedirectHandler)
	RedirectRequestTo(string, int)
	RedirectAnyRequestTo(string, int)
	SetSharedDataAt(string, interface{})
	SharedDataAt(string) interface{}
	SetConfigurationAt(string, nanomux.Config)
	ConfigurationAt(string) nanomux.Config
	SetImplementationAt(string, nanomux.Impl)
	ImplementationAt(string) nanomux.Impl
	SetPathHandlerFor(string, string, nanomux.Handler)
	PathHandlerOf(string, string) nanomux.Handler
	WrapRequestPasserAt(string, ...nanomux.Middleware)
	WrapRequestHandlerAt(string, ...nanomux.Middleware)
	WrapPathHandlerOf(string, string, ...nanomux.Middleware)
	SetPermanentRedirectCodeAt(string, int)
	PermanentRedirectCodeAt(string) int
	SetRedirectHandlerAt(string, nanomux.RedirectHandler)
	RedirectHandlerAt(string) nanomux.RedirectHandler
	WrapRedirectHandlerAt(string, ...func(nanomux.RedirectHandler) nanomux.RedirectHandler)
	RedirectRequestAt(string, string, int)
	RedirectAnyRequestAt(string, string, int)
	SetSharedDataForSubtree(interface{})
	SetConfigurationForSubtree(nanomux.Config)
	WrapSubtreeRequestPassers(...nanomux.Middleware)
	WrapSubtreeRequestHandlers(...nanomux.Middleware)
	WrapSubtreeHandlersOf(string, ...nanomux.Middleware)
	IsSubtreeHandler() bool
	IsSecure() bool
	RedirectsInsecureRequest() bool
	HasTrailingSlash() bool
	IsStrictOnTrailingSlash() bool
	IsLenientOnTrailingSlash() bool
	IsLenientOnUncleanPath() bool
	HandlesThePathAsIs() bool
}

func data(o M) interface{} {
	if s := str(o, "data"); s != "" {
		return s
	}
	return nil
}

func values(vals []M) nanomux.TemplateValues {
	var v nanomux.TemplateValues
	for _, kv := range vals {
		v.Set(str(kv, "k"), str(kv, "v"))
	}
	return v
}

func retRes(r *nanomux.Resource) interface{} {
	if r == nil {
		return nil
	}
	return r
}

func retHost(h *nanomux.Host) interface{} {
	if h == nil {
		return nil
	}
	return h
}

// labelsOf calls the handler and returns the labels of what it has called.
func (wd *world) labelsOf(h nanomux.Handler, method string) []string {
	if h == nil {
		return []string{}
	}
	var c = wd.newRec(M{})
	var q = M{"method": "LABELS", "path": "/", "host": "x"}
	h(c, c.own(wd.request(q)), &nanomux.Args{})
	return c.called()
}

func (c *rec) called() []string {
	var l = []string{}
	for _, e := range c.ev {
		if e["e"] == "in" || e["e"] == "h" || e["e"] == "rd" || e["e"] == "nf" {
			l = append(l, e["l"].(string))
		}
	}
	var last = ""
	if len(l) > 0 {
		last = l[len(l)-1]
	}
	if n := len(c.w); n == 1 && c.w[0]["allow"] != "" || n == 1 && c.w[0]["c"] == 405 {
		if c.w[0]["c"] == 200 {
			last = "#options"
		} else {
			last = "#notallowed"
		}
		l = append(l, last)
	}
	return l
}

func (wd *world) redirectLabelsOf(h nanomux.RedirectHandler) []string {
	if h == nil {
		return []string{}
	}
	var c = wd.newRec(M{})
	h(c, c.own(wd.request(M{"method": "GET", "path": "/", "host": "x"})), "/x", 301, &nanomux.Args{})
	return c.called()
}

func tmplOut(t *nanomux.Template) M {
	var vns = t.ValueNames()
	if vns == nil {
		vns = []string{}
	}
	return M{
		"str": t.String(), "name": t.Name(), "content": t.Content(),
		"unesc": t.UnescapedContent(), "static": t.IsStatic(), "wild": t.IsWildcard(),
		"pattern": t.HasPattern(), "vns": vns,
	}
}

func simErr(s nanomux.Similarity) string {
	switch err := s.Err(); {
	case err == nil:
		return "none"
	case errors.Is(err, nanomux.ErrDifferentTemplates):
		return "different"
	case errors.Is(err, nanomux.ErrDifferentValueNames):
		return "value names"
	case errors.Is(err, nanomux.ErrDifferentNames):
		return "names"
	}
	return "?"
}

func toInts(v interface{}) []int {
	switch l := v.(type) {
	case []int:
		return l
	case []interface{}:
		var r []int
		for _, e := range l {
			r = append(r, int(e.(float64)))
		}
		return r
	}
	return nil
}

// do executes the operation.  It panics when the operation does.
func (wd *world) do(o M) (ret interface{}, out interface{}) {
	out = []string{}
	var ro = wd.router
	var node, _ = wd.ref(o, "i").(responder)
	var u, cfg, uc = str(o, "u"), config(strs(o, "cfg")), yes(o, "uc")
	switch str(o, "op") {
	case "MkHost":
		switch impl := implOf(o); {
		case yes(o, "nil") && !uc:
			ret = retHost(nanomux.NewHost(u, nil))
		case yes(o, "nil"):
			ret = retHost(nanomux.NewHostUsingConfig(u, nil, cfg))
		case impl == nil && !uc:
			ret = retHost(nanomux.NewDormantHost(u))
		case impl == nil:
			ret = retHost(nanomux.NewDormantHostUsingConfig(u, cfg))
		case !uc:
			ret = retHost(nanomux.NewHost(u, impl))
		default:
			ret = retHost(nanomux.NewHostUsingConfig(u, impl, cfg))
		}
	case "MkRes":
		switch impl := implOf(o); {
		case yes(o, "nil") && !uc:
			ret = retRes(nanomux.NewResource(u, nil))
		case yes(o, "nil"):
			ret = retRes(nanomux.NewResourceUsingConfig(u, nil, cfg))
		case impl == nil && !uc:
			ret = retRes(nanomux.NewDormantResource(u))
		case impl == nil:
			ret = retRes(nanomux.NewDormantResourceUsingConfig(u, cfg))
		case !uc:
			ret = retRes(nanomux.NewResource(u, impl))
		default:
			ret = retRes(nanomux.NewResourceUsingConfig(u, impl, cfg))
		}
	case "Host":
		if uc {
			ret = retHost(ro.HostUsingConfig(u, cfg))
		} else {
			ret = retHost(ro.Host(u))
		}
	case "Resource":
		switch {
		case node == nil && !uc:
			ret = retRes(ro.Resource(u))
		case node == nil:
			ret = retRes(ro.ResourceUsingConfig(u, cfg))
		case !uc:
			ret = retRes(node.Resource(u))
		default:
			ret = retRes(node.ResourceUsingConfig(u, cfg))
		}
	case "RegisterHost":
		ro.RegisterHost(asHost(wd.ref(o, "r")))
	case "Register":
		if node == nil {
			ro.RegisterResource(asRes(wd.ref(o, "r")))
		} else {
			node.RegisterResource(asRes(wd.ref(o, "r")))
		}
	case "RegisterUnder":
		if node == nil {
			ro.RegisterResourceUnder(u, asRes(wd.ref(o, "r")))
		} else {
			node.RegisterResourceUnder(u, asRes(wd.ref(o, "r")))
		}
	case "Registered":
		if node == nil {
			ret = retRes(ro.RegisteredResource(u))
		} else {
			ret = retRes(node.RegisteredResource(u))
		}
	case "RegisteredHost":
		ret = retHost(ro.RegisteredHost(u))
	case "HostNamed":
		ret = retHost(ro.HostNamed(str(o, "n")))
	case "ChildNamed":
		ret = retRes(node.ChildResourceNamed(str(o, "n")))
	case "ParentOf":
		ret = retRes(asRes(wd.ref(o, "i")).Parent())
	case "HostOf":
		switch v := wd.ref(o, "i").(type) {
		case *nanomux.Host:
			ret = v
		case *nanomux.Resource:
			ret = retHost(v.Host())
		}
	case "Has":
		if node == nil {
			out = ro.HasHost(asHost(wd.ref(o, "r")))
		} else {
			out = node.HasChildResource(asRes(wd.ref(o, "r")))
		}
	case "Set":
		wd.set(node, o)
	case "SetAt":
		if node == nil {
			wd.routerSetAt(o)
		} else {
			wd.nodeSetAt(node, o)
		}
	case "SetSub":
		wd.setSub(node, o)
	case "GetAt":
		if node == nil {
			out = wd.routerGetAt(o)
		} else {
			out = wd.nodeGetAt(node, o)
		}
	case "Get":
		out = wd.get(node, o)
	case "RWrapPasser":
		ro.WrapRequestPasser(middlewares(strs(o, "mws"))...)
	case "PRC":
		nanomux.SetPermanentRedirectCode(num(o, "code"))
	case "SetCRH":
		nanomux.SetCommonRedirectHandler(redirectHandler(str(o, "h"), nil))
	case "WrapCRH":
		nanomux.WrapCommonRedirectHandler(redirectMws(strs(o, "mws"))...)
	case "SetNF":
		if h := str(o, "h"); h == "" {
			nanomux.SetHandlerForNotFound(nil)
		} else {
			nanomux.SetHandlerForNotFound(notFoundHandler(h, nil))
		}
	case "WrapNF":
		nanomux.WrapHandlerOfNotFound(middlewares(strs(o, "mws"))...)
	case "URL":
		var v, err = node.URL(values(list(o, "vals")))
		if err != nil {
			out = M{"ok": false}
		} else {
			out = M{"ok": true, "scheme": v.Scheme, "host": v.Host, "path": v.Path, "esc": v.EscapedPath()}
		}
	case "Req":
		var h http.Handler = ro
		if node != nil {
			h = node
		}
		out = wd.serve(obj(o, "q"), h, nil)
	case "Conc":
		if t := num(o, "times"); t > 0 {
			out = wd.par(list(o, "qs"), t)
		} else {
			out = wd.conc(list(o, "qs"), toInts(o["sched"]))
		}
	case "Parse":
		var t, err = nanomux.TryToParse(str(o, "t"))
		if err != nil {
			out = []M{}
		} else {
			var m = tmplOut(t)
			m["hvn"] = []bool{t.HasValueName("none0"), t.HasValueName(append([]string{"none0"}, t.ValueNames()...)...)}
			t.SetName("re:named")
			m["named"] = []string{t.Name(), t.String(), t.Content()}
			t.Clear()
			m["cleared"] = []string{t.Name(), t.String(), t.Content()}
			out = []M{m}
		}
	case "Sim":
		var sim = nanomux.Parse(str(o, "t")).SimilarityWith(nanomux.Parse(str(o, "t2")))
		out = M{"s": int(sim), "e": simErr(sim)}
	case "Vals":
		var vs = values(list(o, "vals"))
		var g = []string{}
		for _, n := range strs(o, "names") {
			g = append(g, vs.Get(n))
		}
		out = g
	case "Common":
		out = M{"prc": nanomux.PermanentRedirectCode(), "nf": wd.labelsOf(nanomux.HandlerOfNotFound(), ""),
			"rd": wd.redirectLabelsOf(nanomux.CommonRedirectHandler())}
	case "Match":
		var ok, vs = nanomux.Parse(str(o, "t")).Match(str(o, "s"), values(list(o, "vals")))
		var g = []string{}
		for _, n := range strs(o, "names") {
			g = append(g, vs.Get(n))
		}
		out = M{"ok": ok, "g": g}
	case "Apply":
		var t = nanomux.Parse(str(o, "t"))
		var s, err = t.TryToApply(values(list(o, "vals")), yes(o, "ign"))
		var s2, panicked = func() (s string, p bool) {
			defer func() { p = recover() != nil }()
			return t.Apply(values(list(o, "vals")), yes(o, "ign")), false
		}()
		switch {
		case err == nil && !panicked && s == s2:
			out = []string{s}
		case err != nil && panicked:
			out = []string{}
		default:
			out = []string{"?"}
		}
	default:
		panic(fmt.Errorf("unknown op %v", o))
	}
	return
}

func (wd *world) set(n responder, o M) {
	switch str(o, "set") {
	case "SharedData":
		n.SetSharedData(data(o))
	case "Configuration":
		n.SetConfiguration(config(strs(o, "cfg")))
	case "Implementation":
		n.SetImplementation(implOf(o))
	case "Handler":
		n.SetHandlerFor(str(o, "methods"), handler(str(o, "h")))
	case "WrapPasser":
		n.WrapRequestPasser(middlewares(strs(o, "mws"))...)
	case "WrapHandler":
		n.WrapRequestHandler(middlewares(strs(o, "mws"))...)
	case "WrapHandlerOf":
		n.WrapHandlerOf(str(o, "methods"), middlewares(strs(o, "mws"))...)
	case "RedirectCode":
		n.SetPermanentRedirectCode(num(o, "code"))
	case "RedirectHandler":
		n.SetRedirectHandler(redirectHandler(str(o, "h"), nil))
	case "WrapRedirectHandler":
		n.WrapRedirectHandler(redirectMws(strs(o, "mws"))...)
	case "Redirect":
		n.RedirectRequestTo(str(o, "url"), num(o, "code"))
	case "RedirectAny":
		n.RedirectAnyRequestTo(str(o, "url"), num(o, "code"))
	}
}

func (wd *world) nodeSetAt(n responder, o M) {
	var u = str(o, "u")
	switch str(o, "set") {
	case "SharedData":
		n.SetSharedDataAt(u, data(o))
	case "Configuration":
		n.SetConfigurationAt(u, config(strs(o, "cfg")))
	case "Implementation":
		n.SetImplementationAt(u, implOf(o))
	case "Handler":
		n.SetPathHandlerFor(str(o, "methods"), u, handler(str(o, "h")))
	case "WrapPasser":
		n.WrapRequestPasserAt(u, middlewares(strs(o, "mws"))...)
	case "WrapHandler":
		n.WrapRequestHandlerAt(u, middlewares(strs(o, "mws"))...)
	case "WrapHandlerOf":
		n.WrapPathHandlerOf(str(o, "methods"), u, middlewares(strs(o, "mws"))...)
	case "RedirectCode":
		n.SetPermanentRedirectCodeAt(u, num(o, "code"))
	case "RedirectHandler":
		n.SetRedirectHandlerAt(u, redirectHandler(str(o, "h"), nil))
	case "WrapRedirectHandler":
		n.WrapRedirectHandlerAt(u, redirectMws(strs(o, "mws"))...)
	case "Redirect":
		n.RedirectRequestAt(u, str(o, "url"), num(o, "code"))
	case "RedirectAny":
		n.RedirectAnyRequestAt(u, str(o, "url"), num(o, "code"))
	}
}

func (wd *world) routerSetAt(o M) {
	var n, u = wd.router, str(o, "u")
	switch str(o, "set") {
	case "SharedData":
		n.SetSharedDataAt(u, data(o))
	case "Configuration":
		n.SetConfigurationAt(u, config(strs(o, "cfg")))
	case "Implementation":
		n.SetImplementationAt(u, implOf(o))
	case "Handler":
		n.SetURLHandlerFor(str(o, "methods"), u, handler(str(o, "h")))
	case "WrapPasser":
		n.WrapRequestPasserAt(u, middlewares(strs(o, "mws"))...)
	case "WrapHandler":
		n.WrapRequestHandlerAt(u, middlewares(strs(o, "mws"))...)
	case "WrapHandlerOf":
		n.WrapURLHandlerOf(str(o, "methods"), u, middlewares(strs(o, "mws"))...)
	case "RedirectCode":
		n.SetPermanentRedirectCodeAt(u, num(o, "code"))
	case "RedirectHandler":
		n.SetRedirectHandlerAt(u, redirectHandler(str(o, "h"), nil))
	case "WrapRedirectHandler":
		n.WrapRedirectHandlerAt(u, redirectMws(strs(o, "mws"))...)
	case "Redirect":
		n.RedirectRequestAt(u, str(o, "url"), num(o, "code"))
	case "RedirectAny":
		n.RedirectAnyRequestAt(u, str(o, "url"), num(o, "code"))
	}
}

func (wd *world) setSub(n responder, o M) {
	var mws = middlewares(strs(o, "mws"))
	var ro = wd.router
	switch str(o, "set") {
	case "SharedData":
		if n == nil {
			ro.SetSharedDataForAll(data(o))
		} else {
			n.SetSharedDataForSubtree(data(o))
		}
	case "Configuration":
		if n == nil {
			ro.SetConfigurationForAll(config(strs(o, "cfg")))
		} else {
			n.SetConfigurationForSubtree(config(strs(o, "cfg")))
		}
	case "WrapPasser":
		if n == nil {
			ro.WrapAllRequestPassers(mws...)
		} else {
			n.WrapSubtreeRequestPassers(mws...)
		}
	case "WrapHandler":
		if n == nil {
			ro.WrapAllRequestHandlers(mws...)
		} else {
			n.WrapSubtreeRequestHandlers(mws...)
		}
	case "WrapHandlerOf":
		if n == nil {
			ro.WrapAllHandlersOf(str(o, "methods"), mws...)
		} else {
			n.WrapSubtreeHandlersOf(str(o, "methods"), mws...)
		}
	}
}

func (wd *world) get(n responder, o M) []string {
	switch str(o, "get") {
	case "SharedData":
		return []string{asStr(n.SharedData())}
	case "Implementation":
		return []string{asStr(n.Implementation())}
	case "Configuration":
		return configList(n.Configuration())
	case "RedirectCode":
		return []string{fmt.Sprint(n.PermanentRedirectCode())}
	case "Handler":
		return wd.labelsOf(n.HandlerOf(str(o, "methods")), str(o, "methods"))
	}
	return wd.redirectLabelsOf(n.RedirectHandler())
}

func (wd *world) nodeGetAt(n responder, o M) []string {
	var u = str(o, "u")
	switch str(o, "get") {
	case "SharedData":
		return []string{asStr(n.SharedDataAt(u))}
	case "Implementation":
		return []string{asStr(n.ImplementationAt(u))}
	case "Configuration":
		return configList(n.ConfigurationAt(u))
	case "RedirectCode":
		return []string{fmt.Sprint(n.PermanentRedirectCodeAt(u))}
	case "Handler":
		return wd.labelsOf(n.PathHandlerOf(str(o, "methods"), u), str(o, "methods"))
	}
	return wd.redirectLabelsOf(n.RedirectHandlerAt(u))
}

func (wd *world) routerGetAt(o M) []string {
	var n, u = wd.router, str(o, "u")
	switch str(o, "get") {
	case "SharedData":
		return []string{asStr(n.SharedDataAt(u))}
	case "Implementation":
		return []string{asStr(n.ImplementationAt(u))}
	case "Configuration":
		return configList(n.ConfigurationAt(u))
	case "RedirectCode":
		return []string{fmt.Sprint(n.PermanentRedirectCodeAt(u))}
	case "Handler":
		return wd.labelsOf(n.URLHandlerOf(str(o, "methods"), u), str(o, "methods"))
	}
	return wd.redirectLabelsOf(n.RedirectHandlerAt(u))
}

// --------------------------------------------------
// Dumps

// sortByText makes the order of static children, which is the order of a map,
// reproducible.
func sortByText(ds []M) {
	sort.SliceStable(ds, func(i, j int) bool { return jsonOf(ds[i]) < jsonOf(ds[j]) })
}

func (wd *world) dumpNode(n responder, kind string, host *nanomux.Host, ro *nanomux.Router, above ...responder) M {
	var cycle bool
	for _, a := range above {
		cycle = cycle || a == n
	}
	if cycle {
		return M{"kind": "cycle", "t": "", "name": "", "cfg": []string{}, "data": "", "impl": "",
			"ms": []string{}, "prc": 0, "lk": false, "st": []M{}, "pt": []M{}, "wl": []M{}}
	}
	var cfg = configList(n.Configuration())
	var c = n.Configuration()
	var lk = n.Router() == ro && n.Name() == n.Template().Name() &&
		c.SubtreeHandler == n.IsSubtreeHandler() && c.Secure == n.IsSecure() &&
		c.RedirectsInsecureRequest == n.RedirectsInsecureRequest() &&
		c.HasTrailingSlash == n.HasTrailingSlash() &&
		c.StrictOnTrailingSlash == n.IsStrictOnTrailingSlash() &&
		c.LenientOnTrailingSlash == n.IsLenientOnTrailingSlash() &&
		c.LenientOnUncleanPath == n.IsLenientOnUncleanPath() &&
		c.HandlesThePathAsIs == n.HandlesThePathAsIs()
	var ms = append([]string{}, n.AllowedHTTPMethods()...)
	sort.Strings(ms)
	var st, pt, wl = []M{}, []M{}, []M{}
	var children = n.ChildResources()
	lk = lk && n.HasAnyChildResources() == (len(children) > 0)
	var this, _ = n.(*nanomux.Resource)
	for _, ch := range children {
		var d = wd.dumpNode(ch, "res", host, ro, append(above[:len(above):len(above)], n)...)
		lk = lk && n.HasChildResource(ch) && ch.Parent() == this && ch.Host() == host &&
			(ch.Name() == "" || n.ChildResourceNamed(ch.Name()) == ch)
		switch t := ch.Template(); {
		case t.IsStatic():
			st = append(st, d)
		case t.IsWildcard():
			wl = append(wl, d)
		default:
			pt = append(pt, d)
		}
	}
	sortByText(st)
	return M{
		"kind": kind, "t": n.Template().String(), "name": n.Name(), "cfg": cfg,
		"data": asStr(n.SharedData()), "impl": asStr(n.Implementation()), "ms": ms,
		"prc": n.PermanentRedirectCode(), "lk": lk, "st": st, "pt": pt, "wl": wl,
	}
}

// root returns the root resource if it can be reached without an effect.
func (wd *world) root() *nanomux.Resource {
	for _, v := range wd.refs {
		var r = asRes(v)
		if r == nil {
			continue
		}
		for i := 0; r.Parent() != nil && i < 500; i++ {
			r = r.Parent()
		}
		if r.Router() == wd.router && r.Template().Content() == "/" {
			return r
		}
	}
	return nil
}

func (wd *world) dump() (d M, rootSeen bool, loose []M) {
	var st, pt, rt = []M{}, []M{}, []M{}
	var hosts = wd.router.Hosts()
	var lk = wd.router.HasAnyHost() == (len(hosts) > 0)
	for _, h := range hosts {
		var x = wd.dumpNode(h, "host", h, wd.router)
		if !lk || !wd.router.HasHost(h) || h.Name() != "" && wd.router.HostNamed(h.Name()) == nil {
			x["lk"] = false
		}
		if h.Template().IsStatic() {
			st = append(st, x)
		} else {
			pt = append(pt, x)
		}
	}
	sortByText(st)
	if r := wd.root(); r != nil {
		rootSeen = true
		rt = append(rt, wd.dumpNode(r, "res", nil, wd.router))
	}
	loose = []M{}
	var seen = map[interface{}]bool{}
	for i, v := range wd.refs {
		if v == nil || seen[v] {
			continue
		}
		seen[v] = true
		switch x := v.(type) {
		case *nanomux.Host:
			if x.Router() == nil {
				loose = append(loose, M{"ref": i + 1, "d": wd.dumpNode(x, "host", x, nil)})
			}
		case *nanomux.Resource:
			if x.Router() == nil && x.Parent() == nil && x.Host() == nil {
				loose = append(loose, M{"ref": i + 1, "d": wd.dumpNode(x, "res", nil, nil)})
			}
		}
	}
	return M{"st": st, "pt": pt, "root": rt}, rootSeen, loose
}

// exec executes the operation and returns the step of the trace.
func (wd *world) exec(o M, dump bool) M {
	var ret, out interface{}
	var ok, crash = true, ""
	func() {
		defer func() {
			if p := recover(); p != nil {
				ok = false
				if e, isErr := p.(runtime.Error); isErr {
					crash = e.Error()
				} else if e, isErr := p.(error); !isErr {
					crash = fmt.Sprint(p)
				} else if strings.HasPrefix(e.Error(), "unknown op") {
					panic(p)
				}
			}
		}()
		ret, out = wd.do(o)
	}()
	if !ok {
		ret, out = nil, []string{}
	}
	var same = 0
	if ret != nil {
		for i, v := range wd.refs {
			if v == ret {
				same = i + 1
				break
			}
		}
	}
	wd.refs = append(wd.refs, ret)
	var x = M{
		"o": o, "ok": ok, "crash": crash, "out": out,
		"ret":  M{"nil": ret == nil, "same": same, "chain": chainOf(ret)},
		"dump": []M{}, "loose": []M{}, "rootseen": false,
	}
	if dump && crash == "" {
		var d, seen, loose = wd.dump()
		x["dump"], x["rootseen"], x["loose"] = []M{d}, seen, loose
	}
	return x
}
