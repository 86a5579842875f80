package main

import (
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"unicode"

	"github.com/shohruhadham/nanomux"
)

// --------------------------------------------------
// Vocabulary

var patternPool = []string{
	`\d+`, `\d{3}`, `[a-c]+`, `[^-]+`, `a|b`, `(a|b)c`, `a|ab`, `\d+|x`, `.`, `.+`,
	`[a-z]{2,3}`, `x*y`, `\d*`, `[{}]+`, `(?:ab)+`, `\}`, `[0-9]{2}`, `a+?`, `en|fr`,
	`[^x]`, `\d{1,2}?`, `ab?c`, `(?:a|b|c){2}`, `[a-z]+\d`, `b`, `[]x]+`, `[^]x]+`, `v\d`, `a`,
	`[a|b]c`, `[^|]x|y`, `[]|]+`, `(a|b)|c1`, `\(|x`, `(a|(?:b|c)d)1`, `[^]|]|ab`, `[[]|en`,
	`[[:digit:]|]+`, `[[:lower:]]|1`, `[^[:digit:]|x]`,
	`[a-bA-B]+`, `[A-Z][a-z]?`, `[a-z.]+`, `(?:aB|ab)`,
	`(`, `*`, `[a`,
}

var patterns = map[string]AST{}

func init() {
	for _, p := range patternPool {
		patterns[p] = parseRe(p)
	}
}

var escTable = M{"é": "%C3%A9", "ж": "%D0%B6"}

var methodPool = []string{
	"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE", "SHARE",
	"LOCK", "UNLOCK", "COPY", "MOVE", "MKCOL", "PROPFIND", "SEARCH", "LINK", "UNLINK", "BIND",
	"CUSTOM", "A", "Z", "LABELS",
}

func header() M {
	var ms = append([]string{}, methodPool...)
	sort.Strings(ms)
	return M{"pats": patterns, "esc": escTable, "impls": implTable, "methods": ms}
}

// A piece of a template: static text or a value.
type piece struct {
	static  string
	name    string
	pattern string
}

// pieces takes a well-formed segment template apart.
func pieces(t string) []piece {
	if strings.HasPrefix(t, "$") {
		var i = 1
		for i < len(t) && (t[i] != ':' || t[i-1] == '\\') {
			i++
		}
		if i >= len(t) {
			return nil
		}
		t = t[i+1:]
	} else if strings.HasPrefix(t, `\$`) {
		t = t[1:]
	}
	var ps []piece
	var st = ""
	var seen = map[string]string{}
	for i := 0; i < len(t); i++ {
		switch {
		case t[i] == '\\' && i+1 < len(t) && (t[i+1] == '{' || t[i+1] == '}'):
			st += t[i+1 : i+2]
			i++
		case t[i] == '{':
			if st != "" {
				ps = append(ps, piece{static: st})
				st = ""
			}
			var d, j, colon, class = 1, i + 1, -1, false
			for ; j < len(t) && d > 0; j++ {
				switch {
				case t[j] == '\\':
					j++
				case class:
					if t[j] == ']' && t[j-1] != '[' && !(t[j-1] == '^' && t[j-2] == '[') {
						class = false
					}
				case t[j] == '[' && colon >= 0:
					class = true
				case t[j] == '{':
					d++
				case t[j] == '}':
					d--
				case t[j] == ':' && colon < 0:
					colon = j
				}
			}
			if d > 0 {
				return nil
			}
			var p = piece{name: t[i+1 : j-1]}
			if colon >= 0 {
				p = piece{name: t[i+1 : colon], pattern: t[colon+1 : j-1]}
				seen[p.name] = p.pattern
			} else if pt, ok := seen[p.name]; ok {
				p.pattern = pt
			}
			ps = append(ps, p)
			i = j - 1
		default:
			st += t[i : i+1]
		}
	}
	if st != "" {
		ps = append(ps, piece{static: st})
	}
	return ps
}

func valueNames(t string) []string {
	var ns []string
	for _, p := range pieces(t) {
		if p.static == "" {
			ns = append(ns, p.name)
		}
	}
	return ns
}

// perturb changes a string a little: the case, a repetition, a character.
func perturb(r *rand.Rand, s string) string {
	var c = []rune(s)
	if len(c) == 0 {
		return "a"
	}
	var i = r.Intn(len(c))
	var j = i + 1 + r.Intn(len(c)-i)
	switch r.Intn(7) {
	case 0:
		for k, x := range c {
			if x < 128 {
				c[k] = unicode.ToUpper(x)
			}
		}
	case 1, 2:
		if c[i] >= 128 {
			break
		}
		if unicode.IsUpper(c[i]) {
			c[i] = unicode.ToLower(c[i])
		} else {
			c[i] = unicode.ToUpper(c[i])
		}
	case 3: // a part twice
		return string(c[:j]) + string(c[i:])
	case 4: // without a part
		if len(c) > j-i {
			return string(c[:i]) + string(c[j:])
		}
	case 5: // another character
		c[i] = []rune("ab1-x.A7")[r.Intn(8)]
	case 6: // exchanged
		c[i], c[len(c)-1-i] = c[len(c)-1-i], c[i]
	}
	return string(c)
}

var wildValues = []string{"v1", "ab", "7", "x-y", "a", "b", "100", "a b", "éx", "x,y", "q:1", "101", "c", "5%", "%41", "a%2Fb",
	"a longer value, with spaces; longer than 40 characters"}

func instance(r *rand.Rand, t string) string {
	var vals = map[string]string{}
	var s = ""
	var ps = pieces(t)
	for _, p := range ps {
		if p.static != "" {
			s += p.static
			continue
		}
		var v, ok = vals[p.name]
		if ok && r.Intn(8) == 0 {
			v = perturb(r, v)
		} else if !ok || r.Intn(12) == 0 {
			if p.pattern != "" {
				v = sample(r, patterns[p.pattern])
			} else {
				v = wildValues[r.Intn(len(wildValues))]
				if q := ps[r.Intn(len(ps))]; q.static != "" && r.Intn(3) == 0 {
					// Text of the template itself.
					v = []string{q.static, v + q.static, q.static + v}[r.Intn(3)]
				}
			}
			vals[p.name] = v
		}
		s += v
	}
	return s
}

var segPool = struct{ static, wild, pat, odd []string }{
	static: []string{"a", "b", "c", "ab", "x1", "a-b", "user", "items", "7", "100", "$n1:a", "$n2:b",
		"$n3:items", "a.b", "v1", "en"},
	wild: []string{"{id}", "{nm}", "{ID}", "$n1:{id}", "{rest}", "$n2:{nm}", "{w}"},
	pat: []string{
		`{id:\d+}`, `{Id:\d+}x`, `{id:\d{3}}`, `{nm:[a-c]+}`, `{x:a|b}`, `p{id:\d+}`, `{id:\d+}-{nm:[a-c]+}`,
		`{id:\d+}{rest}`, `{rest}-{id:\d+}`, `{x:a|ab}`, `{x:a|ab}c`, `$n1:{id:\d+}`, `{x:(a|b)c}`,
		`{y:[^-]+}-{w}`, `{w}{z:en|fr}`, `{x:\d+|x}`, `{c:[a-z]{2,3}}`, `v{w}`, `{w}.html`,
		`{d:\d*}x`, `{x:a|b}{w}{x}`, `{id:\d+}-{id}`, `{g:(?:ab)+}`, `{b:.+}1`, `{t:.}`, `{k:a+?}{w}`,
		`{h:x*y}`, `{m:[^x]}`, `{l:\d{1,2}?}5`, `{e:b}{f:v\d}`, `{l:\d{1,2}?}`, `{w}{id:\d+}{x:a|b}`,
	},
	odd: []string{`\{z\}`, `\$d`, `a%2fb`, `a b`, `é`, `{j:[{}]+}`, `{o:\}}`, `{u\:v}`, `$n\:4:c`, `$n\:5\:6:c`, `{u\:v\:w}`, `{u\:v\:w:\d+}x`, "a,b", "ж1",
		`{q:[]x]+}`, `a;b`, `{p:[^]x]+}`, `{q:[a|b]c}`, `{p:[^|]x|y}`, `{q:[]|]+}{w}`, `{x:(a|b)|c1}`, `{w}{y:(a|b)|c1}`,
		`{y:\(|x}1`, `{x:(a|(?:b|c)d)1}`, `v{x:[^]|]|ab}`, `{w}{k:[^|]x|y}`, `{x:[[]|en}`,
		`{q:[[:digit:]|]+}`, `{x:[[:lower:]]|1}`, `{w}{x:[[:lower:]]|1}`, `{w}{q:[^[:digit:]|x]}`, "A", "User", `{nm:[a-bA-B]+}-{nm}`,
		`{c:[A-Z][a-z]?}{w}`, `{x:(?:aB|ab)}{w}{x}`, `{w}-{w2:[a-z.]+}`, "{w}a.", "x{w}-x"},
}

// Patterns that match some of the same strings.
var overlaps = [][]string{
	{`{id:\d+}`, `{x:\d+|x}`, `{id:\d{3}}`, `{w}{id:\d+}{x:a|b}`, `{b:.+}1`, `{t:.}`, `{id:\d+}{rest}`, `{m:[^x]}`},
	{`{nm:[a-c]+}`, `{x:a|b}`, `{t:.}`, `{c:[a-z]{2,3}}`, `{x:a|ab}`, `{m:[^x]}`, `{nm:[a-bA-B]+}-{nm}`, `{k:a+?}{w}`},
	{`v{w}`, `{w}{z:en|fr}`, `{y:[^-]+}-{w}`, `{w}.html`, `{rest}-{id:\d+}`},
}

var badSegs = []string{"{", "}", "{}", "{x", "{:a}", "{x:}", "$", "$n", "$n:", "{a}{b}", `{x:(}`, `{x:*}`,
	`{id:\d+}{id:[a-c]+}`, "{{x}:a}", "{a{b:c}}", "{id}{id}", `{x:[a}`, "a}", `{x:a|b}{w}{x:b}`}

var hostPool = []string{"h.com", "example.com", "{sub}.h.com", "{sub:a|b}.h.com", "$hn:h2.com", `{sub:\d+}.com`,
	"$hn:x.org", `{dom:[a-c]+}.org`, "$h1:h.com", "localhost", `{sub:a|ab}{tld}`, "{sub}.{lc:en|fr}"}

var badHosts = []string{"{any}", "$hn:{any}", "", "{", "h.com}"}

var cfgPool = []string{"sub", "sec", "red", "ts", "strict", "lts", "lup", "asis"}

// --------------------------------------------------
// Profiles

type profile struct {
	steps    int
	weights  map[string]int // weights of the operations, see gens
	setW     map[string]int // weights of the setters
	subW     map[string]int // weights of the setters of subtrees
	tmplW    map[string]int // weights of the template operations
	pHost    float64        // a URL has a host
	pSec     float64        // https
	pTS      float64        // trailing slash in a URL template
	pBad     float64        // malformed template
	pArg     float64        // bad argument
	pCfg     float64        // ...UsingConfig
	pPat     float64        // pattern segments
	pWild    float64
	pOdd     float64
	cfg      map[string]float64
	pTLS     float64
	pUnclean float64
	pReqTS   float64
	pEnc     float64
	pBeh     float64 // behaviours of middlewares
	pF       float64 // handlers that don't handle
	pPanic   float64
	pNest    float64
	methods  int // number of methods in use
	reqs     int // requests at the end
	pDump    float64
	pImpl    float64
	pHTTP    float64 // adapted handlers and middlewares
	conc     int     // concurrent operations at the end
	follow   bool    // follow automatic redirects
	segs     int     // size of the vocabulary
	pMulti   float64
	tmpl     int // template operations
	urls     int // URL operations at the end
	pEntry   float64
	pProbe   float64 // requests after rejected setters
	pBig     float64 // much of something
}

type ginfo struct {
	host  string
	segs  []string
	loose bool
	isRes bool
}

type gen struct {
	r        *rand.Rand
	p        profile
	wd       *world
	steps    []M
	segs     []string
	hosts    []string
	info     map[int]ginfo // by the position of the operation
	used     []ginfo       // URLs of what has been created
	hs, ms   []string      // labels of handlers and middlewares
	rhs, rms []string
	n        int
	methods  []string
	emit     func(M)
	begin    func(M)
	stop     bool
	last     M
	setAts   []M
	setIns   []ginfo // where they are
	lately   []int   // what has been set
	handling []int   // what has been given handlers

	handlingAt []int    // the same, positions in setAts
	extra      []string // more value names
	aim        []ginfo  // what requests should rather be for
}

func (g *gen) chance(p float64) bool  { return g.r.Float64() < p }
func (g *gen) pick(l []string) string { return l[g.r.Intn(len(l))] }
func (g *gen) weighted(w map[string]int) string {
	var ks []string
	var t = 0
	for k, n := range w {
		ks = append(ks, k)
		t += n
	}
	sort.Strings(ks)
	var x = g.r.Intn(t)
	for _, k := range ks {
		if x -= w[k]; x < 0 {
			return k
		}
	}
	return ""
}

func (g *gen) vocabulary() {
	var add = func(l *[]string, s string) {
		for _, x := range *l {
			if x == s {
				return
			}
		}
		*l = append(*l, s)
	}
	for len(g.segs) < g.p.segs {
		switch x := g.r.Float64(); {
		case x < g.p.pPat:
			add(&g.segs, g.pick(segPool.pat))
		case x < g.p.pPat+g.p.pWild:
			add(&g.segs, g.pick(segPool.wild))
		case x < g.p.pPat+g.p.pWild+g.p.pOdd:
			add(&g.segs, g.pick(segPool.odd))
		default:
			add(&g.segs, g.pick(segPool.static))
		}
	}
	if g.p.pPat > 0 && g.chance(0.2) {
		var l = overlaps[g.r.Intn(len(overlaps))]
		for n := 3; n > 0; n-- {
			add(&g.segs, g.pick(l))
		}
	}
	for len(g.hosts) < 1+g.r.Intn(3) {
		add(&g.hosts, g.pick(hostPool))
	}
	var perm = g.r.Perm(len(methodPool) - 1)
	g.methods = []string{"GET"}
	if g.p.methods > 2 && g.p.methods < 10 && g.chance(0.4) {
		add(&g.methods, "OPTIONS")
	}
	for i := 0; len(g.methods) < g.p.methods && i < len(perm); i++ {
		add(&g.methods, methodPool[perm[i]])
	}
}

// do executes an operation and records it.
func (g *gen) do(o M) M {
	if g.stop {
		return nil
	}
	var dump = g.chance(g.p.pDump)
	g.begin(o)
	var x = g.wd.exec(o, dump)
	g.steps = append(g.steps, x)
	g.emit(x)
	g.last = x
	if x["crash"] != "" || len(g.steps) > 400 {
		g.stop = true
	}
	return x
}

func (g *gen) idx() int { return len(g.steps) }

func (g *gen) label(prefix string, l *[]string) string {
	g.n++
	var s = fmt.Sprintf("%s%d", prefix, g.n)
	*l = append(*l, s)
	return s
}

func (g *gen) handler() string {
	if g.chance(0.02 + g.p.pArg) {
		return ""
	}
	var pre = "h"
	if g.chance(g.p.pHTTP) {
		pre = g.pick([]string{"=h", "-h"})
	}
	return g.label(pre, &g.hs)
}

func (g *gen) mws() []string {
	var l = []string{}
	if g.chance(0.03) {
		return l
	}
	for n := 1 + g.r.Intn(2); n > 0; n-- {
		var pre = "m"
		if g.chance(g.p.pHTTP) {
			pre = "~m"
		}
		l = append(l, g.label(pre, &g.ms))
	}
	return g.spoil(l)
}

// spoil may put a nil middleware in the list.
func (g *gen) spoil(l []string) []string {
	if !g.chance(0.005 + g.p.pArg) {
		return l
	}
	var i = g.r.Intn(len(l) + 1)
	return append(append(append([]string{}, l[:i]...), ""), l[i:]...)
}

func (g *gen) rmws() []string {
	var l = []string{}
	for n := 1 + g.r.Intn(2); n > 0; n-- {
		l = append(l, g.label("q", &g.rms))
	}
	if g.chance(0.01 + g.p.pArg) {
		return []string{}
	}
	return g.spoil(l)
}

func (g *gen) seg() string {
	if g.chance(g.p.pBad / 3) {
		return g.pick(badSegs)
	}
	if g.chance(0.03) {
		return g.pick(g.pool())
	}
	return g.pick(g.segs)
}

func (g *gen) pool() []string {
	switch g.r.Intn(4) {
	case 0:
		return segPool.pat
	case 1:
		return segPool.wild
	}
	return segPool.static
}

func (g *gen) path(max int) []string {
	var n = 1
	for n < max && g.chance(0.45) {
		n++
	}
	var l []string
	for ; n > 0; n-- {
		l = append(l, g.seg())
	}
	return l
}

func (g *gen) cfg() []string {
	var c = []string{}
	for _, f := range cfgPool {
		if g.chance(g.p.cfg[f]) {
			c = append(c, f)
		}
	}
	return c
}

// url makes a URL template.  node: for a method of a host or resource.
// under gives the paths of what is below the responder.
func (g *gen) under(i int) [][]string {
	var n, all = g.info[i], [][]string{}
	var see = func(in ginfo) {
		if k := len(n.segs); in.host == n.host && in.loose == n.loose && len(in.segs) > k &&
			strings.Join(in.segs[:k], "/") == strings.Join(n.segs, "/") {
			all = append(all, in.segs[k:])
		}
	}
	for _, in := range g.used {
		see(in)
	}
	var ks []int
	for k := range g.info {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		see(g.info[k])
	}
	return all
}

func (g *gen) url(i int) (string, ginfo) {
	var in ginfo
	var node = i != 0
	var scheme = ""
	if g.chance(g.p.pSec) {
		scheme = "https://"
	} else if g.chance(0.1) {
		scheme = "http://"
	}
	if !node && g.chance(g.p.pHost) {
		in.host = g.pick(g.hosts)
		if g.chance(g.p.pBad / 2) {
			in.host = g.pick(badHosts)
		}
		if scheme == "" {
			scheme = "http://"
		}
	}
	if !node && g.chance(0.05) {
		if in.host == "" {
			return scheme + "/", in
		}
		return scheme + in.host + g.pick([]string{"", "/"}), in
	}
	if len(g.used) > 0 && g.chance(0.35) && !node {
		in = g.used[g.r.Intn(len(g.used))]
		if in.host != "" && scheme == "" {
			scheme = "http://"
		}
		if g.chance(0.3) {
			in.segs = append(append([]string{}, in.segs...), g.path(2)...)
		} else if len(in.segs) > 1 && g.chance(0.3) {
			// What was passed through on the way.
			in.segs = in.segs[:1+g.r.Intn(len(in.segs)-1)]
		}
	} else if all := g.under(i); node && len(all) > 0 && g.chance(0.35) {
		in.segs = all[g.r.Intn(len(all))]
		if len(in.segs) > 1 && g.chance(0.4) {
			in.segs = in.segs[:1+g.r.Intn(len(in.segs)-1)]
		} else if g.chance(0.3) {
			in.segs = append(append([]string{}, in.segs...), g.path(2)...)
		}
	} else {
		in.segs = g.path(3)
	}
	var u = ""
	for i, s := range in.segs {
		if i > 0 || scheme != "" || !g.chance(0.1) {
			u += "/"
		}
		u += s
	}
	if g.chance(g.p.pTS) {
		u += "/"
	}
	if len(in.segs) > 0 && g.chance(g.p.pBad/3) {
		switch g.r.Intn(4) {
		case 0:
			u = "/" + u
		case 1:
			u += "//"
		case 2:
			return "", ginfo{}
		case 3:
			return scheme, ginfo{}
		}
	}
	if node && g.chance(0.02) {
		// Paths don't have hosts.
		var h = g.info[i].host
		if h == "" || g.chance(0.3) {
			h = g.pick(g.hosts)
		}
		if scheme == "" {
			scheme = "http://"
		}
		if !strings.HasPrefix(u, "/") {
			u = "/" + u
		}
		return scheme + h + u, in
	}
	return scheme + in.host + u, in
}

func join(a ginfo, segs []string) ginfo {
	return ginfo{host: a.host, segs: append(append([]string{}, a.segs...), segs...), loose: a.loose}
}

// alike gives another segment that is nearly the same.
func (g *gen) alike(s string) string {
	switch g.r.Intn(4) {
	case 0: // the value name
		if i := strings.Index(s, "{"); i >= 0 && !strings.Contains(s, "\\") {
			return s[:i] + "{v" + s[i+1:]
		}
	case 1: // the name
		if strings.HasPrefix(s, "$") {
			if i := strings.Index(s, ":"); i > 0 && s[i-1] != '\\' {
				return s[i+1:]
			}
			return s
		}
		return "$n7:" + s
	case 2:
		return g.pick(g.segs)
	}
	return s + "0"
}

// node picks a live responder, or 0.
func (g *gen) node(want func(ginfo) bool) int {
	var all, ks []int
	for k := range g.info {
		all = append(all, k)
	}
	sort.Ints(all)
	for _, k := range all {
		if want == nil || want(g.info[k]) {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return 0
	}
	if g.chance(0.5) {
		return ks[len(ks)-1-g.r.Intn((len(ks)+1)/2)]
	}
	return ks[g.r.Intn(len(ks))]
}

func (g *gen) loose() int {
	return g.node(func(i ginfo) bool { return i.loose && i.isRes && len(i.segs) > 0 })
}
func (g *gen) anyRes() int { return g.node(func(i ginfo) bool { return i.isRes }) }

func (g *gen) impl() M {
	if g.chance(g.p.pImpl) {
		return M{"type": string("ABCDEFGH"[g.r.Intn(8)]), "label": g.label("i", new([]string))}
	}
	return M{"type": "", "label": ""}
}

func (g *gen) implLabels(m M) {
	var t, l = str(m, "type"), str(m, "label")
	if t == "" {
		return
	}
	var d = implTable[t].(M)
	for _, x := range d["ms"].([]string) {
		g.hs = append(g.hs, l+":"+x)
	}
	if d["na"].(bool) {
		g.hs = append(g.hs, l+":!")
	}
}

func (g *gen) ok(x M) bool { return x != nil && x["ok"] == true }
func (g *gen) got(x M) bool {
	return g.ok(x) && x["ret"].(M)["nil"] == false
}

func (g *gen) keep(in ginfo) {
	g.info[g.idx()] = in
	if !in.loose {
		g.used = append(g.used, in)
	}
}

func (g *gen) methodsArg() string {
	var ms = []string{g.pick(g.methods)}
	if n := len(g.methods); n > 15 && g.chance(0.12) {
		for _, i := range g.r.Perm(n)[:n-g.r.Intn(6)] {
			ms = append(ms, g.methods[i])
		}
	}
	for g.chance(0.3) {
		ms = append(ms, g.pick(g.methods))
	}
	var s = ms[0]
	var sep = g.pick([]string{" ", ",", ", "})
	for _, m := range ms[1:] {
		if g.chance(0.1) {
			sep = g.pick([]string{"  ", " ,", " , ", ",,"})
		}
		if g.chance(0.1) {
			m = m[:1] + strings.ToLower(m[1:])
		}
		s += sep + m
	}
	if g.chance(0.3) {
		s = strings.ToLower(s)
	}
	if g.chance(0.02) {
		return ""
	}
	if g.chance(0.05) {
		return " " + s + ","
	}
	return s
}

// setter fills in the arguments of a random setter.
func (g *gen) setter(o M, w map[string]int) M {
	var s = g.weighted(w)
	o["set"] = s
	switch s {
	case "SharedData":
		o["data"] = g.label("d", new([]string))
		if g.chance(0.1) {
			o["data"] = ""
		}
	case "Configuration":
		o["cfg"] = g.cfg()
	case "Implementation":
		var i = M{"type": string("ABCDEFGH"[g.r.Intn(8)]), "label": g.label("i", new([]string))}
		if g.chance(0.02) {
			i = M{"type": "", "label": ""}
		}
		g.implLabels(i)
		o["impl"] = i
	case "Handler":
		o["methods"] = g.methodsArg()
		if g.chance(0.1) {
			o["methods"] = "!"
		}
		o["h"] = g.handler()
	case "WrapPasser", "WrapHandler":
		o["mws"] = g.mws()
	case "WrapHandlerOf":
		o["methods"] = g.methodsArg()
		if o["op"] == "SetSub" && g.chance(0.4) {
			var ms []string
			for _, i := range g.r.Perm(len(g.methods)) {
				ms = append(ms, g.methods[i])
			}
			o["methods"] = strings.Join(ms, " ")
		}
		if g.chance(0.3) {
			o["methods"] = g.pick([]string{"*", "!", "OPTIONS"})
		} else if g.chance(0.2) {
			// The first one is there in general, the second one perhaps not.
			o["methods"] = "OPTIONS, " + g.pick(g.methods)
		}
		o["mws"] = g.mws()
	case "RedirectCode":
		o["code"] = []int{301, 308, 308, 301, 302}[g.r.Intn(5)]
	case "RedirectHandler":
		o["h"] = g.label("r", &g.rhs)
		if g.chance(0.03) {
			o["h"] = ""
		}
	case "WrapRedirectHandler":
		o["mws"] = g.rmws()
	case "Redirect", "RedirectAny":
		o["url"] = g.pick([]string{"/to", "to/", "/to/x/", "http://other.com", "https://other.com/p/", "/", "rel", "/a", "https://h.com/b",
			"/to?x=1", "http://other.com/p?a=/b", "rel/y?", "HTTP://other.com/u", "//other.com/p", "/../a"})
		o["code"] = []int{301, 302, 303, 307, 308, 300, 304, 399}[g.r.Intn(8)]
		if g.chance(0.03) {
			o["code"] = []int{299, 400, 0}[g.r.Intn(3)]
		}
		if g.chance(0.02) {
			o["url"] = ""
		}
	}
	return o
}

func (g *gen) setters() map[string]int {
	if g.p.setW != nil {
		return g.p.setW
	}
	return map[string]int{"Handler": 10, "SharedData": 1, "Configuration": 2, "Implementation": 1,
		"WrapPasser": 1, "WrapHandler": 1, "WrapHandlerOf": 1}
}

var gens = map[string]func(g *gen){
	"Host": func(g *gen) {
		var h = g.pick(g.hosts)
		if g.chance(g.p.pBad) {
			h = g.pick(badHosts)
		}
		var u = g.pick([]string{"", "", "http://"})
		if g.chance(g.p.pSec) {
			u = "https://"
		}
		u += h
		if g.chance(g.p.pTS) {
			u += "/"
		}
		if g.chance(g.p.pBad / 3) {
			u += "/x"
		}
		var o = M{"op": "Host", "u": u, "uc": g.chance(g.p.pCfg), "cfg": g.cfg()}
		if g.got(g.do(o)) {
			g.keep(ginfo{host: h})
		}
	},
	"Resource": func(g *gen) {
		var u, in = g.url(0)
		if g.got(g.do(M{"op": "Resource", "i": 0, "u": u, "uc": g.chance(g.p.pCfg), "cfg": g.cfg()})) {
			in.isRes = true
			g.keep(in)
		}
	},
	"NResource": func(g *gen) {
		var i = g.node(nil)
		if i == 0 {
			return
		}
		var u, in = g.url(i)
		if g.got(g.do(M{"op": "Resource", "i": i, "u": u, "uc": g.chance(g.p.pCfg), "cfg": g.cfg()})) {
			in = join(g.info[i], in.segs)
			in.isRes = true
			g.keep(in)
		}
	},
	"MkHost": func(g *gen) {
		var h = g.pick(g.hosts)
		var u = g.pick([]string{"", "http://", "https://"}) + h + g.pick([]string{"", "", "/"})
		if g.chance(g.p.pArg / 4) {
			g.do(M{"op": "MkHost", "u": u, "impl": M{"type": "", "label": ""}, "nil": true, "uc": g.chance(0.5), "cfg": g.cfg()})
			return
		}
		var im = g.impl()
		if g.got(g.do(M{"op": "MkHost", "u": u, "impl": im, "uc": g.chance(g.p.pCfg), "cfg": g.cfg()})) {
			g.implLabels(im)
			g.keep(ginfo{host: h, loose: true})
		}
	},
	"MkRes": func(g *gen) {
		var u, in = g.url(0)
		if g.chance(0.5) {
			var s = g.seg()
			u, in = s, ginfo{segs: []string{s}}
			if g.chance(g.p.pTS) {
				u += "/"
			}
		}
		if g.chance(0.04) {
			u, in = "/", ginfo{}
		}
		if g.chance(g.p.pArg / 4) {
			g.do(M{"op": "MkRes", "u": u, "impl": M{"type": "", "label": ""}, "nil": true, "uc": g.chance(0.5), "cfg": g.cfg()})
			return
		}
		var im = g.impl()
		if g.got(g.do(M{"op": "MkRes", "u": u, "impl": im, "uc": g.chance(g.p.pCfg), "cfg": g.cfg()})) {
			g.implLabels(im)
			in.loose, in.isRes = true, true
			g.keep(in)
		}
	},
	// A prebuilt tree of several branches, and its registration.
	"Tree": func(g *gen) {
		var m = g.seg()
		var in = ginfo{segs: []string{m}, loose: true, isRes: true}
		if !g.got(g.do(M{"op": "MkRes", "u": m, "impl": g.impl(), "uc": false, "cfg": []string{}})) {
			return
		}
		var r = g.idx()
		g.keep(in)
		var nodes = []int{r}
		for n := 2 + g.r.Intn(3); n > 0; n-- {
			var i = nodes[g.r.Intn(len(nodes))]
			var segs = g.path(3)
			if g.got(g.do(M{"op": "Resource", "i": i, "u": strings.Join(segs, "/"), "uc": g.chance(g.p.pCfg / 2), "cfg": g.cfg()})) {
				var x = join(g.info[i], segs)
				x.isRes = true
				g.keep(x)
				nodes = append(nodes, g.idx())
			}
		}
		for n := g.r.Intn(3); n > 0; n-- {
			g.do(g.setter(M{"op": "Set", "i": nodes[g.r.Intn(len(nodes))]}, w{"Handler": 3, "SharedData": 1}))
		}
		var i = 0
		if g.chance(0.6) {
			i = g.node(func(i ginfo) bool { return !i.loose })
		}
		var up = g.info[i]
		if g.chance(0.5) {
			if !g.ok(g.do(M{"op": "Register", "i": i, "r": r})) {
				return
			}
		} else {
			var u, p = g.url(i)
			if !g.ok(g.do(M{"op": "RegisterUnder", "i": i, "u": u, "r": r})) {
				return
			}
			up = join(ginfo{host: p.host + up.host, segs: up.segs}, p.segs)
		}
		g.settle(r, join(up, in.segs))
	},
	// A resource with a URL, registered where the URL says, or nearly so.
	"UrlReg": func(g *gen) {
		var i = g.node(func(i ginfo) bool { return !i.loose || g.chance(0.3) })
		var in = g.info[i]
		if i == 0 && len(g.used) > 0 {
			in = g.used[g.r.Intn(len(g.used))]
		}
		var more = []string{}
		if g.chance(0.4) {
			more = g.path(2)
		}
		var segs = append(append([]string{}, in.segs...), more...)
		var host = in.host
		if len(segs) > 0 && g.chance(0.35) {
			var k = g.r.Intn(len(segs))
			segs[k] = g.alike(segs[k])
		}
		if g.chance(0.1) {
			host = g.pick(append([]string{""}, g.hosts...))
			if host != "" && g.chance(0.5) {
				host = g.alike(in.host)
			}
		}
		var seg = g.seg()
		var u = "/" + strings.Join(append(append([]string{}, segs...), seg), "/")
		if host != "" {
			u = g.pick([]string{"http://", "http://", "https://"}) + host + u
		}
		if g.chance(0.25) {
			u += "/"
		}
		if !g.got(g.do(M{"op": "MkRes", "u": u, "impl": g.impl(), "uc": false, "cfg": []string{}})) {
			return
		}
		var r = g.idx()
		g.keep(ginfo{host: host, segs: append(segs, seg), loose: true, isRes: true})
		for n := g.r.Intn(3); n > 0; n-- {
			g.do(g.setter(M{"op": "Set", "i": r}, w{"Handler": 3, "SharedData": 2, "Configuration": 1}))
		}
		if g.chance(0.3) {
			i = 0
		}
		switch {
		case g.chance(0.6):
			if !g.ok(g.do(M{"op": "Register", "i": i, "r": r})) {
				return
			}
		case i == 0:
			var p = "/" + strings.Join(segs, "/")
			if host != "" {
				p = "http://" + host + p
			}
			if len(segs) > 0 && g.chance(0.2) {
				var l = segs[len(segs)-1]
				p = strings.TrimSuffix(p, l) + g.alike(l)
			}
			if g.chance(0.3) && len(segs) > 0 && len(segs[len(segs)-1]) == 1 {
				// As long as the one asked for.
				p = p[:len(p)-1] + g.pick([]string{"a", "b", "z"})
			}
			if g.chance(0.2) && len(segs) > 0 {
				p += "/"
			}
			if host != "" && g.chance(0.2) {
				p = "https" + strings.TrimPrefix(p, "http")
			}
			if !g.ok(g.do(M{"op": "RegisterUnder", "i": i, "u": p, "r": r})) {
				return
			}
		default:
			var p = strings.Join(more, "/")
			if g.chance(0.15) {
				p = strings.Join(segs[g.r.Intn(len(segs)+1):], "/")
				p = p[g.r.Intn(len(p)+1):] // perhaps within a segment
			}
			if !g.ok(g.do(M{"op": "RegisterUnder", "i": i, "u": p, "r": r})) {
				return
			}
		}
		g.settle(r, join(ginfo{host: in.host, segs: in.segs}, append(more, seg)))
	},
	// What is created on the way to another one, and is asked for later.
	"Through": func(g *gen) {
		var i = g.node(nil)
		if i == 0 {
			return
		}
		if g.chance(0.5) {
			g.do(g.setter(M{"op": "Set", "i": i}, w{"Handler": 2, "SharedData": 2, "Configuration": 1, "WrapPasser": 1}))
		}
		var segs = append(g.path(2), g.path(2)...)
		if len(segs) < 2 {
			return
		}
		if g.got(g.do(M{"op": "Resource", "i": i, "u": "/" + strings.Join(segs, "/"), "uc": g.chance(g.p.pCfg), "cfg": g.cfg()})) {
			var in = join(g.info[i], segs)
			in.isRes = true
			g.keep(in)
		} else {
			return
		}
		if g.chance(0.3) {
			g.do(g.setter(M{"op": "Set", "i": i}, g.setters()))
		}
		for n := 1 + g.r.Intn(2); n > 0; n-- {
			var k = 1 + g.r.Intn(len(segs)-1)
			var u = "/" + strings.Join(segs[:k], "/")
			if g.chance(g.p.pSec) {
				u = "https://" + u
			}
			if g.chance(g.p.pTS) {
				u += "/"
			}
			var x M
			switch g.r.Intn(5) {
			case 0, 1, 2:
				x = g.do(M{"op": "Resource", "i": i, "u": u, "uc": g.chance(g.p.pCfg), "cfg": g.cfg()})
			case 3:
				x = g.do(M{"op": "Registered", "i": i, "u": u})
			case 4:
				g.do(g.setter(M{"op": "SetAt", "i": i, "u": u}, g.setters()))
			}
			if x != nil && g.got(x) {
				var in = join(g.info[i], segs[:k])
				in.isRes = true
				g.keep(in)
			}
		}
	},
	// A prebuilt resource for the place of an existing one.
	"Collide": func(g *gen) {
		var i = g.node(func(i ginfo) bool { return i.isRes && len(i.segs) > 0 && (!i.loose || len(i.segs) > 1) })
		if i == 0 {
			return
		}
		var in = g.info[i]
		for len(in.segs) > 2 && g.chance(0.4) {
			if !g.got(g.do(M{"op": "ParentOf", "i": i})) {
				return
			}
			i = g.idx()
			in.segs = in.segs[:len(in.segs)-1]
			g.keep(in)
		}
		var n = len(in.segs) - 1
		var ok = g.got(g.do(M{"op": "ParentOf", "i": i}))
		var up = 0
		if ok {
			up = g.idx()
			g.keep(ginfo{host: in.host, segs: in.segs[:n], loose: in.loose, isRes: true})
		} else if g.got(g.do(M{"op": "HostOf", "i": i})) {
			up = g.idx()
			g.keep(ginfo{host: in.host, loose: in.loose})
		}
		var some = func(k int) {
			for c := g.r.Intn(3); c > 0; c-- {
				g.do(g.setter(M{"op": "Set", "i": k}, w{"Handler": 4, "SharedData": 3, "Configuration": 1,
					"WrapPasser": 2, "WrapHandler": 1, "Implementation": 1, "RedirectCode": 1, "RedirectHandler": 1, "Redirect": 1}))
			}
			if g.chance(0.5) {
				var segs = g.path(2)
				if g.got(g.do(M{"op": "Resource", "i": k, "u": strings.Join(segs, "/"), "uc": false, "cfg": []string{}})) {
					var x = join(g.info[k], segs)
					x.isRes = true
					g.keep(x)
				}
			}
		}
		if g.chance(0.6) {
			some(i)
		}
		var seg = in.segs[n]
		if k := strings.Index(seg, "{"); k >= 0 && strings.Contains(seg[k:], ":") && up != 0 && g.chance(0.6) {
			for c := 1 + g.r.Intn(2); c > 0; c-- {
				var s = g.pick(overlaps[g.r.Intn(2)])
				if g.got(g.do(M{"op": "Resource", "i": up, "u": s, "uc": false, "cfg": []string{}})) {
					var x = join(ginfo{host: in.host, segs: in.segs[:n], loose: in.loose, isRes: true}, []string{s})
					g.keep(x)
					g.do(g.setter(M{"op": "Set", "i": g.idx()}, w{"Handler": 1}))
				}
			}
		}
		if g.chance(0.1) {
			seg = g.alike(seg)
		}
		var u = seg
		if g.chance(0.3) && in.host == "" {
			u = "/" + strings.Join(append(append([]string{}, in.segs[:n]...), seg), "/")
		}
		if g.chance(g.p.pTS / 2) {
			u += "/"
		}
		if !g.got(g.do(M{"op": "MkRes", "u": u, "impl": M{"type": "", "label": ""}, "uc": g.chance(g.p.pCfg), "cfg": g.cfg()})) {
			return
		}
		var r = g.idx()
		g.keep(ginfo{segs: []string{seg}, loose: true, isRes: true})
		some(r)
		if g.chance(0.3) {
			some(r)
		}
		switch {
		case up != 0 && (g.chance(0.8) || in.loose || u[0] == '/'):
			if g.chance(0.9) {
				if !g.ok(g.do(M{"op": "Register", "i": up, "r": r})) {
					return
				}
				break
			}
			fallthrough
		default:
			var p = strings.Join(in.segs[:n], "/")
			if in.host != "" {
				p = "http://" + in.host + "/" + p
			}
			if !g.ok(g.do(M{"op": "RegisterUnder", "i": 0, "u": p, "r": r})) {
				return
			}
		}
		g.settle(r, join(ginfo{host: in.host, segs: in.segs[:n]}, []string{seg}))
	},
	"RegisterHost": func(g *gen) {
		var r = g.node(func(i ginfo) bool { return !i.isRes && (i.loose || g.chance(0.05)) })
		if g.chance(g.p.pArg / 2) {
			g.do(M{"op": "RegisterHost", "r": 0, "nil": true})
			return
		}
		if r == 0 {
			return
		}
		if g.ok(g.do(M{"op": "RegisterHost", "r": r})) {
			g.settle(r, ginfo{host: g.info[r].host})
		}
	},
	"Register": func(g *gen) {
		var r, i = g.node(func(i ginfo) bool { return i.isRes && (i.loose || g.chance(0.05)) }), 0
		if g.chance(0.5) {
			i = g.node(nil)
		}
		if g.chance(g.p.pArg / 2) {
			g.do(M{"op": "Register", "i": i, "r": 0, "nil": true})
			return
		}
		if r == 0 || r == i && g.chance(0.8) {
			return
		}
		if g.ok(g.do(M{"op": "Register", "i": i, "r": r})) {
			var in = g.info[r]
			if i != 0 {
				in = join(g.info[i], in.segs[len(in.segs)-min(1, len(in.segs)):])
			}
			g.settle(r, in)
		}
	},
	"RegisterUnder": func(g *gen) {
		var r, i = g.node(func(i ginfo) bool { return i.isRes && (i.loose || g.chance(0.05)) }), 0
		if g.chance(0.5) {
			i = g.node(nil)
		}
		var u, in = g.url(i)
		if g.chance(g.p.pArg / 2) {
			g.do(M{"op": "RegisterUnder", "i": i, "u": u, "r": 0, "nil": true})
			return
		}
		if r == 0 || r == i && g.chance(0.8) {
			return
		}
		if g.chance(0.4) && len(g.info[r].segs) > 1 {
			in = g.info[r]
			in.segs = in.segs[:len(in.segs)-1]
			u = "/" + strings.Join(in.segs, "/")
			if g.chance(0.25) {
				u += "/"
			}
			if in.host != "" && i == 0 {
				u = "http://" + in.host + u
			}
		}
		if g.chance(0.1) {
			u = g.pick([]string{"", "/"})
			in = ginfo{}
		}
		if g.ok(g.do(M{"op": "RegisterUnder", "i": i, "u": u, "r": r})) {
			var segs = g.info[r].segs
			in = join(in, segs[len(segs)-min(1, len(segs)):])
			if i != 0 {
				in = join(g.info[i], in.segs)
			}
			g.settle(r, in)
		}
	},
	"Registered": func(g *gen) {
		var i = 0
		if g.chance(0.4) {
			i = g.node(nil)
		}
		var u, in = g.url(i)
		if g.chance(0.3) {
			u = g.nameURL(i != 0)
		}
		if g.got(g.do(M{"op": "Registered", "i": i, "u": u})) {
			if i != 0 {
				in = join(g.info[i], in.segs)
			}
			in.isRes = true
			g.keep(in)
		}
	},
	"RegisteredHost": func(g *gen) {
		var h = g.pick(g.hosts)
		var t = h
		if g.chance(0.3) {
			t = g.pick([]string{"$hn", "$h1", "$sub"})
		}
		if g.chance(0.1) {
			t = g.pick(badHosts)
		}
		var u = g.pick([]string{"http://", "https://", ""}) + t
		if g.chance(g.p.pTS) {
			u += "/"
		}
		if g.got(g.do(M{"op": "RegisteredHost", "u": u})) {
			g.keep(ginfo{host: h})
		}
	},
	"HostNamed": func(g *gen) {
		if g.got(g.do(M{"op": "HostNamed", "n": g.pick([]string{"hn", "h1", "sub", "none", "", "dom"})})) {
			g.keep(ginfo{host: g.pick(g.hosts)})
		}
	},
	"ChildNamed": func(g *gen) {
		if i := g.node(nil); i != 0 {
			if g.got(g.do(M{"op": "ChildNamed", "i": i, "n": g.name()})) {
				var in = g.info[i]
				in.isRes = true
				g.keep(in)
			}
		}
	},
	"ParentOf": func(g *gen) {
		if i := g.anyRes(); i != 0 {
			if g.got(g.do(M{"op": "ParentOf", "i": i})) {
				var in = g.info[i]
				in.isRes = true
				in.segs = in.segs[:max(0, len(in.segs)-1)]
				g.keep(in)
			}
		}
	},
	"HostOf": func(g *gen) {
		if i := g.node(nil); i != 0 {
			if g.got(g.do(M{"op": "HostOf", "i": i})) {
				g.keep(ginfo{host: g.info[i].host, loose: g.info[i].loose})
			}
		}
	},
	"Has": func(g *gen) {
		if g.chance(0.2) {
			if h := g.node(func(i ginfo) bool { return !i.isRes }); h != 0 {
				g.do(M{"op": "Has", "i": 0, "r": h})
			}
			return
		}
		var i, r = g.node(nil), g.anyRes()
		if i != 0 && r != 0 {
			g.do(M{"op": "Has", "i": i, "r": r})
		}
	},
	"Root": func(g *gen) {
		var u = "/"
		if g.chance(g.p.pSec) {
			u = "https:///"
		}
		if g.got(g.do(M{"op": "Registered", "i": 0, "u": u})) {
			g.keep(ginfo{isRes: true})
		}
	},
	"Set": func(g *gen) {
		var i = g.node(nil)
		if len(g.lately) > 0 && g.chance(0.35) {
			// What has been set before is set further.
			i = g.lately[g.r.Intn(len(g.lately))]
		} else if g.chance(0.1) {
			if h := g.node(func(i ginfo) bool { return !i.isRes }); h != 0 {
				i = h
			}
		}
		if i != 0 {
			var o = g.setter(M{"op": "Set", "i": i}, g.setters())
			if o["set"] == "WrapHandlerOf" && len(g.handling) > 0 && g.chance(0.7) {
				i = g.handling[g.r.Intn(len(g.handling))]
				o["i"] = i
			}
			var x = g.do(o)
			g.rejected(x, i, g.info[i])
			if g.ok(x) {
				if s := o["set"]; s == "Handler" || s == "Implementation" {
					g.handling = append(g.handling, i)
				}
				g.lately = append(g.lately, i)
				if !g.info[i].loose {
					g.used = append(g.used, g.info[i])
				}
			}
		}
	},
	"SetAt": func(g *gen) {
		var i = 0
		if g.chance(0.4) {
			i = g.node(nil)
		}
		var u, in = g.url(i)
		if i != 0 {
			in = join(g.info[i], in.segs)
		}
		if n := len(g.setAts); n > 0 && g.chance(0.25) {
			var k = g.r.Intn(n)
			i, u, in = g.setAts[k]["i"].(int), g.setAts[k]["u"].(string), g.setIns[k]
		}
		var o = g.setter(M{"op": "SetAt", "i": i, "u": u}, g.setters())
		if n := len(g.handlingAt); o["set"] == "WrapHandlerOf" && n > 0 && g.chance(0.7) {
			var k = g.handlingAt[g.r.Intn(n)]
			i, u, in = g.setAts[k]["i"].(int), g.setAts[k]["u"].(string), g.setIns[k]
			o["i"], o["u"] = i, u
		}
		var x = g.do(o)
		g.rejected(x, 0, in)
		if g.ok(x) {
			if s := o["set"]; s == "Handler" || s == "Implementation" {
				g.handlingAt = append(g.handlingAt, len(g.setAts))
			}
			g.setAts, g.setIns = append(g.setAts, o), append(g.setIns, in)
			if !in.loose {
				g.used = append(g.used, in)
			}
		}
	},
	"SetSub": func(g *gen) {
		var i = 0
		if g.chance(0.6) {
			i = g.node(nil)
		}
		var w = g.p.subW
		if w == nil {
			w = map[string]int{"SharedData": 1, "Configuration": 2, "WrapPasser": 1, "WrapHandler": 1,
				"WrapHandlerOf": 1}
		}
		var o = g.setter(M{"op": "SetSub", "i": i}, w)
		g.do(o)
	},
	"GetAt": func(g *gen) {
		var i = 0
		if g.chance(0.4) {
			i = g.node(nil)
		}
		var u, _ = g.url(i)
		if g.chance(0.15) {
			u = g.nameURL(i != 0)
		}
		var get = g.getter()
		if len(g.setAts) > 0 && g.chance(0.5) {
			var o = g.setAts[g.r.Intn(len(g.setAts))]
			i, u = o["i"].(int), o["u"].(string)
			for _, s := range getters {
				if s == o["set"] && g.chance(0.7) {
					get = s
				}
			}
		}
		g.do(M{"op": "GetAt", "i": i, "u": u, "get": get, "methods": g.pick(append(g.methods, "!", "OPTIONS"))})
	},
	"Get": func(g *gen) {
		if i := g.node(nil); i != 0 {
			g.do(M{"op": "Get", "i": i, "get": g.getter(), "methods": g.pick(append(g.methods, "!", "OPTIONS"))})
		}
	},
	"RWrapPasser": func(g *gen) { g.do(M{"op": "RWrapPasser", "mws": g.mws()}) },
	"PRC":         func(g *gen) { g.do(M{"op": "PRC", "code": []int{301, 308, 307}[g.r.Intn(3)]}) },
	"SetCRH": func(g *gen) {
		var h = g.label("r", &g.rhs)
		if g.chance(0.05 + g.p.pArg) {
			h = ""
		}
		g.do(M{"op": "SetCRH", "h": h})
	},
	"WrapCRH": func(g *gen) { g.do(M{"op": "WrapCRH", "mws": g.rmws()}) },
	"Common":  func(g *gen) { g.do(M{"op": "Common"}) },
	"SetNF": func(g *gen) {
		var h = g.label("n", &g.hs)
		if g.chance(0.05 + g.p.pArg) {
			h = ""
		}
		g.do(M{"op": "SetNF", "h": h})
	},
	"WrapNF": func(g *gen) { g.do(M{"op": "WrapNF", "mws": g.mws()}) },
	"Req":    func(g *gen) { g.request() },
	"Conc":   func(g *gen) { g.concurrent() },
	"URL":    func(g *gen) { g.urlOf() },
	"Tmpl":   func(g *gen) { g.template() },
}

var getters = []string{"SharedData", "Implementation", "Configuration", "RedirectCode", "Handler", "Handler", "RedirectHandler"}

func (g *gen) getter() string { return g.pick(getters) }

func (g *gen) name() string {
	var ns = []string{"n1", "n2", "n3", "id", "nm", "none", ""}
	for _, s := range g.segs {
		ns = append(ns, valueNames(s)...)
	}
	return g.pick(ns)
}

// nameURL is a URL in which some segments are names only.
func (g *gen) nameURL(node bool) string {
	var u = ""
	if !node && len(g.used) > 0 && g.chance(0.6) {
		// The names of what is there.
		var in = g.used[g.r.Intn(len(g.used))]
		var named = func(s string) string {
			if t, err := nanomux.TryToParse(s); err == nil && t.Name() != "" && !strings.ContainsAny(t.Name(), ":/") && g.chance(0.8) {
				return "$" + t.Name()
			}
			return s
		}
		if in.host != "" {
			u = "http://" + named(in.host)
		}
		var segs = in.segs
		if len(segs) > 1 && g.chance(0.3) {
			segs = segs[:len(segs)-1]
		}
		for _, s := range segs {
			u += "/" + named(s)
		}
		if u != "" {
			return u
		}
	}
	if !node && g.chance(0.3) {
		u = "http://" + g.pick([]string{"$hn", "$h1", "$sub", g.hosts[0]})
	}
	for n := 1 + g.r.Intn(2); n > 0; n-- {
		if g.chance(0.6) {
			u += "/$" + g.pick([]string{"n1", "n2", "n3", "id", "nm", "none"})
		} else {
			u += "/" + g.seg()
		}
	}
	return u
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// settle records that a loose responder was registered.  A responder that was
// merged into another one and is not a part of the tree is forgotten.
func (g *gen) settle(r int, in ginfo) {
	in.isRes = g.info[r].isRes
	in.loose = false
	var old = g.info[r]
	var out bool
	switch x := g.wd.refs[r-1].(type) {
	case *nanomux.Host:
		out = x.Router() == nil
	case *nanomux.Resource:
		out = x.Parent() == nil && x.Host() == nil && x.Router() == nil
	}
	if !out {
		g.used = append(g.used, in)
	}
	for k := range g.info {
		if g.wd.refs[k-1] == g.wd.refs[r-1] {
			if out {
				delete(g.info, k)
			} else {
				g.info[k] = in
			}
		}
	}
	// Descendants of merged responders.
	var ks []int
	for k := range g.info {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		if !attached(g.wd.refs[k-1]) {
			delete(g.info, k)
		} else if x, ok := g.wd.refs[k-1].(responder); ok && x.Router() != nil {
			var x = g.info[k]
			if x.loose && len(x.segs) > len(old.segs) && x.host == old.host &&
				strings.Join(x.segs[:len(old.segs)], "/") == strings.Join(old.segs, "/") {
				// It's been below the registered responder.
				x = ginfo{host: in.host, segs: join(in, x.segs[len(old.segs):]).segs, isRes: x.isRes}
				g.used = append(g.used, x)
			}
			x.loose = false
			g.info[k] = x
		}
	}
}

// attached tells whether every responder above v has the one below as a child.
func attached(v interface{}) bool {
	var r, ok = v.(*nanomux.Resource)
	if !ok {
		return v != nil
	}
	for i := 0; i < 50; i++ {
		var p = r.Parent()
		if p == nil {
			var h = r.Host()
			return h == nil || h.HasChildResource(r)
		}
		if !p.HasChildResource(r) {
			return false
		}
		r = p
	}
	return true
}

// --------------------------------------------------
// Requests

var uncleanBits = []string{"//", "/./", "/../", "/x/../", "/.//", "/..//"}

func pctEncode(s string, r *rand.Rand, p float64) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c == '/':
			b.WriteString([]string{"%2F", "%2F", "%2F", "%2f"}[r.Intn(4)])
		case c < 128 && r.Float64() < p:
			fmt.Fprintf(&b, []string{"%%%02X", "%%%02X", "%%%02x"}[r.Intn(3)], c)
		case c == ' ' || c == '"' || c == '%' || c == '?' || c == '#' || c == '{' || c == '}' || c == '^' || c == '|' || c == '\\' || c > 127:
			b.WriteString(url.PathEscape(string(c)))
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func (g *gen) query() M {
	var in ginfo
	if len(g.used) > 0 && g.chance(0.85) {
		in = g.used[g.r.Intn(len(g.used))]
	} else {
		in.segs = g.path(3)
		if g.chance(0.4) {
			in.host = g.pick(g.hosts)
		}
	}
	if len(g.aim) > 0 && g.chance(0.6) {
		in = g.aim[g.r.Intn(len(g.aim))]
	}
	var segs = append([]string{}, in.segs...)
	if g.chance(0.3) {
		segs = append(segs, g.path(2)...)
	} else if len(segs) > 0 && g.chance(0.15) {
		segs[g.r.Intn(len(segs))] = g.seg()
	} else if len(segs) > 0 && g.chance(0.1) {
		segs = segs[:len(segs)-1]
	}
	var enc = 0.0
	if g.chance(g.p.pEnc) {
		enc = 0.2
	}
	var target = ""
	for _, s := range segs {
		s = strings.ReplaceAll(strings.ReplaceAll(s, "%2f", "/"), "%2F", "/")
		var x = instance(g.r, s)
		if g.chance(0.05) {
			x = g.pick(wildValues)
		}
		if g.chance(0.06) {
			x = strings.ToValidUTF8(perturb(g.r, x), "")
		}
		if x == "" || strings.Trim(x, "/") == "" {
			x = "e"
		}
		target += "/" + pctEncode(x, g.r, enc)
	}
	if g.chance(g.p.pReqTS) && target != "" {
		target += "/"
	}
	if g.chance(g.p.pUnclean) {
		var i = 0
		if idx := strings.LastIndexByte(target, '/'); idx >= 0 && g.chance(0.7) {
			i = idx
		}
		if i < len(target) {
			target = target[:i] + g.pick(uncleanBits) + target[i+1:]
		} else {
			target += g.pick(uncleanBits)
		}
	}
	if target == "" {
		target = "/"
	}
	var q = M{
		"host": "", "uhost": "", "uscheme": "", "path": "", "rawpath": "", "query": "",
		"tls": g.chance(g.p.pTLS), "method": g.pick(g.methods),
	}
	if u, err := url.ParseRequestURI(target); err == nil {
		q["path"], q["rawpath"] = u.Path, u.RawPath
	} else {
		q["path"] = "/a"
	}
	if g.chance(0.02) {
		q["path"] = g.pick([]string{"", "*", "a/b", "/"})
		q["rawpath"] = ""
	}
	if p := q["path"].(string); g.chance(0.01) && !strings.Contains(p, "%") {
		q["rawpath"] = p + "%z"
	}
	var h = "none.org"
	if in.host != "" && in.host != "{any}" && in.host != "{" && in.host != "h.com}" && in.host != "$hn:{any}" {
		h = instance(g.r, in.host)
	}
	if g.chance(0.1) {
		h = instance(g.r, g.pick(g.hosts))
	}
	if g.chance(0.06) {
		h = perturb(g.r, h)
	}
	if strings.ContainsAny(h, "/ é,%") || h == "" {
		h = "none.org"
	}
	if g.chance(0.02) {
		h = strings.TrimRight(h, ".") + "."
	}
	q["host"] = h
	if g.chance(0.15) {
		q["host"] = h + ":8080"
	}
	if g.chance(0.02) {
		q["host"] = h + ":"
	}
	if g.chance(0.05) {
		q["uhost"], q["uscheme"] = q["host"], "http"
		if yes(q, "tls") != g.chance(0.4) {
			q["uscheme"] = "https"
		}
		if g.chance(0.3) {
			q["host"] = ""
		}
	}
	if g.chance(0.04) {
		q["host"] = g.pick([]string{"[::1]:80", "::1", "[::1]"})
	}
	if g.chance(0.2) {
		q["query"] = g.pick([]string{"a=1", "x=%20y&z", "q"})
	}
	if g.chance(0.1) {
		q["method"] = g.pick(append(methodPool, "OPTIONS", "OPTIONS", "OPTIONS"))
	}
	if g.chance(0.02) {
		q["method"] = strings.ToLower(q["method"].(string))
	}
	g.observe(q)
	return q
}

func (g *gen) observe(q M) {
	var names = map[string]bool{"absent": true}
	for _, l := range [][]string{g.segs, g.hosts} {
		for _, s := range l {
			for _, n := range valueNames(s) {
				names[n] = true
			}
		}
	}
	for _, n := range g.extra {
		names[n] = true
	}
	var ns = []string{}
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var keys = []string{"k"}
	for n := 0; n < 3 && n < len(g.ms); n++ {
		keys = append(keys, g.pick(g.ms))
	}
	q["names"], q["keys"], q["beh"] = ns, keys, g.behaviours()
	q["nest"] = []M{}
}

func (g *gen) behaviours() M {
	var beh = M{}
	for _, l := range g.ms {
		if g.chance(g.p.pBeh) {
			beh[l] = g.pick([]string{"stopT", "stopF", "set", "set", "own", "own", "own", "forceT", "forceF", "forceF"})
		}
	}
	for _, l := range g.rms {
		if g.chance(g.p.pBeh) {
			beh[l] = g.pick([]string{"stopT", "stopF", "set", "own", "forceT", "forceF"})
		}
	}
	for _, l := range append(append([]string{"#nf", "#std"}, g.hs...), g.rhs...) {
		if g.chance(g.p.pF) {
			beh[l] = "F"
		}
	}
	for _, l := range append(append(append([]string{"#nf", "#std"}, g.ms...), g.rms...), g.rhs...) {
		if _, ok := beh[l]; !ok && g.chance(g.p.pNest) {
			beh[l] = "nest"
		}
	}
	for _, l := range g.hs {
		if g.chance(g.p.pPanic) && l[0] != 'n' {
			beh[l] = "panic"
		} else if g.chance(g.p.pNest) {
			beh[l] = "nest"
		}
	}
	return beh
}

func (g *gen) entry() int {
	if g.chance(g.p.pEntry) {
		if g.chance(0.3) {
			if i := g.node(func(i ginfo) bool { return !i.isRes }); i != 0 {
				return i
			}
		}
		return g.node(nil)
	}
	return 0
}

func (g *gen) nested(q M) M {
	if g.p.pNest > 0 {
		var n = g.query()
		for l, b := range n["beh"].(M) {
			if b == "nest" {
				delete(n["beh"].(M), l)
			}
		}
		n["inherit"] = g.chance(0.6)
		if g.chance(0.4) {
			// The same once more, perhaps for another method.
			for _, k := range []string{"host", "uhost", "uscheme", "path", "rawpath", "query", "tls"} {
				n[k] = q[k]
			}
			if g.chance(0.5) {
				n["method"] = q["method"]
			}
		}
		q["nest"] = []M{n}
	}
	return q
}

func (g *gen) request() {
	var i, aim = g.entry(), g.aim
	if i != 0 && g.chance(0.6) {
		// The request may well be for what is below.
		var n = g.info[i]
		g.aim = []ginfo{n}
		for _, in := range g.used {
			if in.host == n.host && len(in.segs) >= len(n.segs) && strings.Join(in.segs[:len(n.segs)], "/") == strings.Join(n.segs, "/") {
				g.aim = append(g.aim, in)
			}
		}
	}
	var q = g.nested(g.query())
	g.aim = aim
	if g.p.pNest == 0 {
		for l, b := range q["beh"].(M) {
			if b == "nest" {
				delete(q["beh"].(M), l)
			}
		}
	}
	var x = g.do(M{"op": "Req", "i": i, "q": q})
	if g.chance(0.1) {
		g.variants(i, q)
	}
	for hop := 0; g.p.follow && i == 0 && x != nil && hop < 3; hop++ {
		var w, _ = x["out"].(M)["w"].([]M)
		if len(w) != 1 || w[0]["loc"] == "" {
			break
		}
		var u, err = url.Parse(w[0]["loc"].(string))
		if err != nil || u.Host == "other.com" {
			break
		}
		var n = M{}
		for k, v := range q {
			n[k] = v
		}
		n["uhost"], n["uscheme"] = "", ""
		if u.Host != "" {
			n["host"], n["tls"] = u.Host, u.Scheme == "https"
		} else if q["host"] == "" {
			n["host"] = q["uhost"]
		}
		n["path"], n["rawpath"], n["query"] = u.Path, u.RawPath, u.RawQuery
		if u.Path == "" {
			n["path"] = "/"
		}
		x = g.do(M{"op": "Req", "i": 0, "q": n})
	}
}

// later makes more calls and requests that have been made before.
func (g *gen) later() {
	var asked []M
	for _, o := range g.steps {
		if x := o["o"].(M); x["op"] == "Req" {
			asked = append(asked, x)
		}
	}
	if len(asked) == 0 || len(g.p.weights) == 0 || g.p.weights["_"] > 0 {
		return
	}
	for n := 2 + g.r.Intn(3); n > 0 && !g.stop; n-- {
		var what = g.weighted(g.p.weights)
		if g.chance(0.3) {
			var x = g.pick([]string{"PRC", "SetCRH", "WrapCRH", "SetNF", "WrapNF", "RWrapPasser"})
			if g.p.weights[x] > 0 {
				what = x
			}
		}
		gens[what](g)
		for k := 2; k > 0; k-- {
			var x = asked[g.r.Intn(len(asked))]
			g.do(M{"op": "Req", "i": x["i"], "q": x["q"]})
		}
	}
}

// probe asks a responder, by requests for each method, whether it is what it has been.
func (g *gen) probe(i int, in ginfo) {
	var path = ""
	for _, s := range in.segs {
		s = strings.ReplaceAll(strings.ReplaceAll(s, "%2f", "/"), "%2F", "/")
		var x = instance(g.r, s)
		if x == "" || strings.Trim(x, "/") == "" {
			x = "e"
		}
		path += "/" + pctEncode(x, g.r, 0)
	}
	var q = M{
		"host": "none.org", "uhost": "", "uscheme": "", "path": "/", "rawpath": "", "query": "",
		"tls": g.chance(0.5), "method": "OPTIONS",
	}
	if u, err := url.ParseRequestURI(path); err == nil {
		q["path"], q["rawpath"] = u.Path, u.RawPath
	}
	if h := in.host; h != "" && h != "{any}" && h != "{" && h != "h.com}" && h != "$hn:{any}" {
		if h = instance(g.r, h); h != "" && !strings.ContainsAny(h, "/ é,%") {
			q["host"] = h
		}
	}
	g.observe(q)
	q["beh"] = M{}
	for _, m := range append([]string{"OPTIONS"}, g.methods[:min(3, len(g.methods))]...) {
		var n = M{}
		for k, v := range q {
			n[k] = v
		}
		n["method"] = m
		g.do(M{"op": "Req", "i": i, "q": n})
	}
}

// rejected probes what a rejected call was about.
func (g *gen) rejected(x M, i int, in ginfo) {
	if x != nil && !yes(x, "ok") && x["crash"] == "" && !in.loose && g.chance(g.p.pProbe) {
		if g.chance(0.5) {
			i = 0
		}
		g.probe(i, in)
	}
}

// variants sends the request again with one difference.
func (g *gen) variants(i int, q M) {
	var n = M{}
	var again = func() {
		g.do(M{"op": "Req", "i": i, "q": n})
		n = M{}
		for k, v := range q {
			n[k] = v
		}
	}
	for k, v := range q {
		n[k] = v
	}
	switch g.weighted(w{"method": 3 + g.p.methods/2, "tls": 3, "path": 2, "beh": 3, "same": 1}) {
	case "method":
		for _, m := range g.r.Perm(len(g.methods))[:min(5, len(g.methods))] {
			n["method"] = g.methods[m]
			again()
		}
		n["method"] = "OPTIONS"
	case "tls":
		n["tls"] = !yes(q, "tls")
		if s := q["uscheme"].(string); s != "" {
			n["uscheme"] = "http"
			if yes(n, "tls") {
				n["uscheme"] = "https"
			}
		}
	case "path":
		var p = q["path"].(string)
		if q["rawpath"] == "" && len(p) > 1 && p[0] == '/' {
			if p[len(p)-1] == '/' {
				n["path"] = p[:len(p)-1]
			} else {
				n["path"] = p + "/"
			}
		}
	case "beh":
		g.observe(n)
		n["nest"] = q["nest"]
		if g.p.pNest == 0 {
			for l, b := range n["beh"].(M) {
				if b == "nest" {
					delete(n["beh"].(M), l)
				}
			}
		}
	}
	again()
}

func (g *gen) concurrent() {
	var qs []M
	for n := 2 + g.r.Intn(3); n > 0; n-- {
		qs = append(qs, g.nested(g.query()))
	}
	var o = M{"op": "Conc", "qs": qs, "sched": []int{}, "times": 0}
	if g.chance(0.1) {
		o["times"] = 20
		for _, q := range qs {
			for l, b := range q["beh"].(M) {
				if b == "panic" {
					delete(q["beh"].(M), l)
				}
			}
		}
	} else {
		var s = []int{}
		for n := g.r.Intn(60); n > 0; n-- {
			s = append(s, g.r.Intn(len(qs)))
		}
		o["sched"] = s
	}
	g.do(o)
}

func (g *gen) valuesFor(ts []string) []M {
	var vals = []M{}
	var seen = map[string]bool{}
	for _, t := range ts {
		for _, p := range pieces(t) {
			if p.static != "" || seen[p.name] || g.chance(0.05) {
				continue
			}
			seen[p.name] = true
			var v = g.pick(wildValues)
			if p.pattern != "" && !g.chance(0.15) {
				v = sample(g.r, patterns[p.pattern])
			}
			if g.chance(0.05) {
				v += g.pick([]string{"1", "x", "-", "/b"})
			}
			vals = append(vals, M{"k": p.name, "v": v})
		}
	}
	g.r.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
	return vals
}

func (g *gen) urlOf() {
	var i = g.node(nil)
	if i == 0 {
		return
	}
	var ts = append([]string{}, g.segs...)
	g.r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	ts = append(append(append([]string{}, g.info[i].segs...), g.info[i].host), ts...)
	g.do(M{"op": "URL", "i": i, "vals": g.valuesFor(ts)})
}

// --------------------------------------------------
// Templates

func (g *gen) randomTemplate() string {
	switch g.r.Intn(10) {
	case 0:
		return g.pick(badSegs)
	case 1:
		return g.pick(segPool.odd)
	case 2:
		return g.pick(hostPool)
	case 3, 4:
		return g.pick(segPool.pat)
	case 5:
		if g.chance(0.3) {
			return g.longTemplate()
		}
	}
	var names = []string{"a", "b", "A", "id", `u\:v`, `u\:\:v\:w`}
	var t = ""
	if g.chance(0.2) {
		t = g.pick([]string{"$n:", `$n\:1:`, `\$`, "$id:", `$n\:1\:\:2:`, `$n\:1\:2:`})
	}
	for n := 1 + g.r.Intn(4); n > 0; n-- {
		switch g.r.Intn(5) {
		case 0, 1:
			t += g.pick([]string{"a", "-", "ab", "x", `\{`, `\}`, ".", "1", ":", "é", "$"})
		case 2:
			t += "{" + g.pick(names) + "}"
		default:
			t += "{" + g.pick(names) + ":" + g.pick(patternPool) + "}"
		}
	}
	return t
}

// longTemplate has many values, some of them more than once.
func (g *gen) longTemplate() string {
	var t = ""
	for i, n := 1, 5+g.r.Intn(6); i <= n; i++ {
		var name = fmt.Sprintf("v%d", i)
		if i > 2 && g.chance(0.15) {
			name = fmt.Sprintf("v%d", 1+g.r.Intn(i))
		}
		t += g.pick([]string{"{" + name + "}-", "{" + name + `:[0-9]{2}}`, "{" + name + ":[a-c]+}.", "{" + name + ":a|b}"})
	}
	return t
}

// sized gives a segment with the value name given, or a static one.
func (g *gen) sized(name string) string {
	switch g.r.Intn(6) {
	case 0:
		return "{" + name + "}"
	case 1:
		return "{" + name + `:\d+}`
	case 2:
		return "x{" + name + ":[a-c]+}"
	case 3:
		return "{" + name + "}.html"
	case 4:
		return strings.Repeat(g.pick([]string{"a", "long-name ", "b.c"}), 1+g.r.Intn(12)) + "z"
	}
	return g.pick([]string{"a", "b", "c"})
}

// big makes much of something: long paths with many values, many siblings, many
// hosts, many middlewares, long names.
func (g *gen) big() {
	var handle = func(i int) {
		g.do(M{"op": "Set", "i": i, "set": "Handler", "methods": g.pick(g.methods), "h": g.handler()})
	}
	var named = func(n string) string {
		g.extra = append(g.extra, n)
		return n
	}
	switch []int{0, 0, 1, 1, 1, 2, 2, 3}[g.r.Intn(8)] {
	case 0:
		// A long path.
		var segs []string
		for i, n := 1, 6+g.r.Intn(8); i <= n; i++ {
			segs = append(segs, g.sized(named(fmt.Sprintf("v%d", i))))
		}
		var host = ""
		if g.chance(0.3) {
			host = g.pick(g.hosts)
		}
		var at = func(segs []string) (i int) {
			var u = "/" + strings.Join(segs, "/")
			if host != "" {
				u = "http://" + host + u
			}
			if g.got(g.do(M{"op": "Resource", "i": 0, "u": u, "uc": false, "cfg": []string{}})) {
				i = g.idx()
				g.keep(ginfo{host: host, segs: append([]string{}, segs...), isRes: true})
			}
			return
		}
		if i := at(segs); i != 0 {
			handle(i)
			g.aim = append(g.aim, g.info[i])
		}
		for k := g.r.Intn(3); k > 0; k-- {
			if i := at(segs[:1+g.r.Intn(len(segs))]); i != 0 {
				handle(i)
				if g.chance(0.5) {
					g.do(M{"op": "Set", "i": i, "set": "Configuration", "cfg": []string{"sub"}})
				}
			}
		}
		if g.chance(0.4) {
			var k = g.r.Intn(len(segs))
			at(append(append([]string{}, segs[:k]...), g.sized(named("u1")), g.sized(named("u2"))))
		}
	case 1:
		// Many siblings.
		var up = g.seg()
		if !g.got(g.do(M{"op": "Resource", "i": 0, "u": "/" + up, "uc": false, "cfg": []string{}})) {
			return
		}
		var i = g.idx()
		g.keep(ginfo{segs: []string{up}, isRes: true})
		for k, n := 1, 8+g.r.Intn(9); k <= n; k++ {
			var l = []string{`\d+`, `\d{3}`, "[a-c]+", "a|b", "[0-9]{2}", "a|ab", "en|fr", "[a-z]{2,3}", "x*y", "b", `v\d`}
			var x = g.r.Intn(len(l))
			var name = named(fmt.Sprintf("p%d", x))
			if g.chance(0.05) {
				name = "p1"
			}
			var s = g.pick([]string{"", "", "k", "a"}) + "{" + name + ":" + l[x] + "}" + g.pick([]string{"", "", "-k", "1"})
			if g.chance(0.15) {
				s = g.pick([]string{"a1", "b2", "100", "k7", "en", "v3"})
			}
			if g.got(g.do(M{"op": "Resource", "i": i, "u": s, "uc": false, "cfg": []string{}})) {
				g.keep(join(g.info[i], []string{s}))
				g.info[g.idx()] = ginfo{segs: []string{up, s}, isRes: true}
				g.aim = append(g.aim, g.info[g.idx()])
				handle(g.idx())
			}
		}
	case 2:
		// Many hosts.
		for k, n := 1, 6+g.r.Intn(6); k <= n; k++ {
			var h = g.pick([]string{
				fmt.Sprintf("{v%d:[a-c]+}.h.com", k), fmt.Sprintf("{v%d}.h%d.com", k, 1+g.r.Intn(k)),
				fmt.Sprintf(`{v%d:\d+}.org`, k), fmt.Sprintf("{v%d:a|ab}{u}.com", k), fmt.Sprintf("h%d.com", k),
				fmt.Sprintf("{v%d:a|b}.h%d.com", k, 1+g.r.Intn(k)), "{v1}.{v2:en|fr}",
			})
			named(fmt.Sprintf("v%d", k))
			if g.got(g.do(M{"op": "Host", "u": h, "uc": false, "cfg": []string{}})) {
				g.keep(ginfo{host: h})
				g.aim = append(g.aim, ginfo{host: h})
				handle(g.idx())
			}
		}
	case 3:
		// Many middlewares.
		var segs = g.path(3)
		if !g.got(g.do(M{"op": "Resource", "i": 0, "u": "/" + strings.Join(segs, "/"), "uc": false, "cfg": []string{}})) {
			return
		}
		var i = g.idx()
		g.keep(ginfo{segs: segs, isRes: true})
		handle(i)
		for k := 2 + g.r.Intn(3); k > 0; k-- {
			var mws []string
			for n := 1 + g.r.Intn(7); n > 0; n-- {
				mws = append(mws, g.label("m", &g.ms))
			}
			g.do(M{"op": "Set", "i": i, "set": g.pick([]string{"WrapPasser", "WrapHandler"}), "mws": mws})
		}
	}
}

func (g *gen) goodTemplate() string {
	for i := 0; i < 60; i++ {
		var t = g.randomTemplate()
		if _, err := nanomux.TryToParse(t); err == nil && pieces(t) != nil {
			return t
		}
	}
	return "{id:\\d+}"
}

func (g *gen) template() {
	var t = g.randomTemplate()
	var w = g.p.tmplW
	if w == nil {
		w = map[string]int{"Parse": 2, "Sim": 1, "Match": 2, "Apply": 1}
	}
	switch g.weighted(w) {
	case "Parse":
		g.do(M{"op": "Parse", "t": t})
	case "Sim":
		var a, b = g.goodTemplate(), g.goodTemplate()
		if g.chance(0.6) {
			b = g.similar(a)
			if _, err := nanomux.TryToParse(b); err != nil {
				b = a
			}
		}
		g.do(M{"op": "Sim", "t": a, "t2": b})
	case "Vals":
		var vals = []M{}
		for n := g.r.Intn(6); n > 0; n-- {
			vals = append(vals, M{"k": g.pick([]string{"a", "b", "c"}), "v": g.pick([]string{"", "1", "2", "3"})})
		}
		g.do(M{"op": "Vals", "vals": vals, "names": []string{"a", "b", "c", "d"}})
	case "Match":
		t = g.goodTemplate()
		var s = instance(g.r, t)
		switch g.r.Intn(9) {
		case 0:
			s += g.pick([]string{"1", "a", "-", "x"})
		case 1:
			s = g.pick([]string{"1", "a", "-", "x"}) + s
		case 2:
			if len(s) > 1 && s[0] < 128 {
				s = s[1:]
			}
		case 3, 4:
			s = perturb(g.r, s)
		}
		var vals = []M{}
		if g.chance(0.3) {
			vals = g.valuesFor([]string{t})
		}
		g.do(M{"op": "Match", "t": t, "s": s, "vals": vals, "names": append(valueNames(t), "none")})
	case "Apply":
		t = g.goodTemplate()
		g.do(M{"op": "Apply", "t": t, "vals": g.valuesFor([]string{t}), "ign": g.chance(0.3)})
	}
}

func (g *gen) similar(t string) string {
	switch g.r.Intn(6) {
	case 0:
		return strings.Replace(t, "{a", "{b", -1)
	case 1:
		return strings.Replace(t, "{id", "{k", -1)
	case 2:
		return "$other:" + strings.TrimPrefix(t, "$n:")
	case 3:
		return strings.Replace(t, `:\d+}`, `:\d*}`, 1)
	case 4:
		return t + "z"
	}
	return t
}

// --------------------------------------------------

func (g *gen) run() {
	g.vocabulary()
	if len(g.p.weights) > 0 && g.p.weights["_"] == 0 && g.chance(g.p.pBig) {
		g.big()
		if n := len(g.aim); n > 3 {
			g.aim = g.aim[n/2:]
			g.p.reqs += n / 2
		}
		g.p.steps += len(g.steps) * 2 / 3
	}
	for len(g.steps) < g.p.steps && !g.stop && len(g.p.weights) > 0 {
		gens[g.weighted(g.p.weights)](g)
		if g.p.weights["_"] > 0 {
			break
		}
	}
	for i := 0; i < g.p.tmpl; i++ {
		g.template()
	}
	if len(g.p.weights) > 0 {
		gens["Root"](g)
		var d = g.p.pDump
		g.p.pDump = 1
		g.do(M{"op": "HostNamed", "n": "none"})
		g.p.pDump = d
	}
	for i := 0; i < g.p.urls; i++ {
		g.urlOf()
	}
	for i := 0; i < g.p.reqs; i++ {
		g.request()
		if i == g.p.reqs/2 && g.chance(0.3) {
			g.later()
		}
	}
	for i := 0; i < g.p.conc; i++ {
		g.concurrent()
	}
}

var _ = http.StatusOK
