package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
)

// AST is the syntax tree of a small regular expression in the form in which
// the specification (Regex.tla) takes it.
type AST map[string]interface{}

type reParser struct {
	s string
	i int
}

type reErr struct{ msg string }

func (p *reParser) fail(f string, a ...interface{}) { panic(reErr{fmt.Sprintf(f, a...)}) }
func (p *reParser) more() bool                      { return p.i < len(p.s) }
func (p *reParser) peek() byte                      { return p.s[p.i] }

const (
	digits = "0123456789"
	lower  = "abcdefghijklmnopqrstuvwxyz"
	upper  = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
)

func chars(s string) []string {
	var r []string
	for _, c := range s {
		r = append(r, string(c))
	}
	return r
}

func cls(cs string, neg bool) AST { return AST{"k": "cls", "cs": chars(cs), "neg": neg} }

func (p *reParser) alt() AST {
	var l []AST
	l = append(l, p.cat())
	for p.more() && p.peek() == '|' {
		p.i++
		l = append(l, p.cat())
	}
	if len(l) == 1 {
		return l[0]
	}
	return AST{"k": "alt", "l": l}
}

func (p *reParser) cat() AST {
	var l []AST
	for p.more() && p.peek() != '|' && p.peek() != ')' {
		l = append(l, p.rep())
	}
	if len(l) == 0 {
		return AST{"k": "lit", "s": ""}
	}
	if len(l) == 1 {
		return l[0]
	}
	return AST{"k": "cat", "l": l}
}

func (p *reParser) num() int {
	var n = 0
	var st = p.i
	for p.more() && p.peek() >= '0' && p.peek() <= '9' {
		n = n*10 + int(p.peek()-'0')
		p.i++
	}
	if st == p.i {
		p.fail("number expected")
	}
	return n
}

func (p *reParser) rep() AST {
	var a = p.atom()
	if !p.more() {
		return a
	}
	var min, max int
	switch p.peek() {
	case '*':
		min, max = 0, -1
		p.i++
	case '+':
		min, max = 1, -1
		p.i++
	case '?':
		min, max = 0, 1
		p.i++
	case '{':
		p.i++
		min = p.num()
		max = min
		if p.peek() == ',' {
			p.i++
			max = -1
			if p.peek() != '}' {
				max = p.num()
			}
		}
		if p.peek() != '}' {
			p.fail("bad repetition")
		}
		p.i++
	default:
		return a
	}
	var g = true
	if p.more() && p.peek() == '?' {
		g = false
		p.i++
	}
	return AST{"k": "rep", "min": min, "max": max, "g": g, "e": a}
}

func classOf(c byte) (string, bool) {
	switch c {
	case 'd':
		return digits, true
	case 'w':
		return digits + upper + "_" + lower, true
	}
	return string(c), false
}

func (p *reParser) atom() AST {
	var c = p.peek()
	p.i++
	switch c {
	case '(':
		if strings.HasPrefix(p.s[p.i:], "?:") {
			p.i += 2
		}
		var a = p.alt()
		if !p.more() || p.peek() != ')' {
			p.fail("missing )")
		}
		p.i++
		return AST{"k": "grp", "e": a}
	case '.':
		return AST{"k": "any"}
	case '\\':
		var d = p.peek()
		p.i++
		if cs, ok := classOf(d); ok {
			return cls(cs, false)
		}
		return AST{"k": "lit", "s": string(d)}
	case '[':
		var neg = false
		if p.peek() == '^' {
			neg = true
			p.i++
		}
		var cs = ""
		for first := true; first || p.peek() != ']'; first = false {
			var e = p.peek()
			if strings.HasPrefix(p.s[p.i:], "[:digit:]") {
				cs += digits
				p.i += 9
				continue
			}
			if strings.HasPrefix(p.s[p.i:], "[:lower:]") {
				cs += lower
				p.i += 9
				continue
			}
			p.i++
			if e == '\\' {
				var s, _ = classOf(p.peek())
				p.i++
				cs += s
				continue
			}
			if p.peek() == '-' && p.s[p.i+1] != ']' {
				var hi = p.s[p.i+1]
				p.i += 2
				for x := e; x <= hi; x++ {
					cs += string(x)
				}
				continue
			}
			cs += string(e)
		}
		p.i++
		return cls(cs, neg)
	case '*', '+', '?', ')', '{', '}':
		p.fail("unexpected %c", c)
	}
	return AST{"k": "lit", "s": string(c)}
}

// parseRe returns the syntax tree of the pattern, or a "bad" node if it isn't
// a regular expression.
func parseRe(s string) (a AST) {
	if _, err := regexp.Compile(s); err != nil {
		return AST{"k": "bad"}
	}
	var p = &reParser{s: s}
	a = p.alt()
	if p.more() {
		p.fail("trailing %q", s[p.i:])
	}
	return a
}

// sample returns a random string that the expression can match.
func sample(r *rand.Rand, a AST) string {
	switch a["k"] {
	case "lit":
		return a["s"].(string)
	case "any":
		return string("ab1-"[r.Intn(4)])
	case "cls":
		var cs = a["cs"].([]string)
		if !a["neg"].(bool) {
			return cs[r.Intn(len(cs))]
		}
		for {
			var c = string("abcxyz019-_~"[r.Intn(12)])
			if !strings.Contains(strings.Join(cs, ""), c) {
				return c
			}
		}
	case "grp":
		return sample(r, a["e"].(AST))
	case "cat":
		var s = ""
		for _, e := range a["l"].([]AST) {
			s += sample(r, e)
		}
		return s
	case "alt":
		var l = a["l"].([]AST)
		return sample(r, l[r.Intn(len(l))])
	case "rep":
		var min, max = a["min"].(int), a["max"].(int)
		if max < 0 {
			max = min + 2
		}
		var s = ""
		for n := min + r.Intn(max-min+1); n > 0; n-- {
			s += sample(r, a["e"].(AST))
		}
		return s
	}
	return ""
}
