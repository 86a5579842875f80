package main

type w = map[string]int

// base is a mixture of everything; the profiles emphasise their subjects.
func base() profile {
	return profile{
		steps: 14,
		weights: w{
			"Host": 3, "Resource": 10, "NResource": 6, "MkHost": 1, "MkRes": 4, "RegisterHost": 2,
			"Register": 4, "RegisterUnder": 2, "Registered": 2, "RegisteredHost": 1, "HostNamed": 1,
			"ChildNamed": 1, "ParentOf": 1, "HostOf": 1, "Has": 1, "Root": 1, "Set": 12, "SetAt": 8,
			"SetSub": 1, "GetAt": 1, "Get": 1, "Tree": 1, "UrlReg": 1, "Collide": 1,
		},
		pHost: 0.25, pSec: 0.1, pTS: 0.15, pBad: 0.05, pCfg: 0.3, pPat: 0.3, pWild: 0.2, pOdd: 0.05,
		cfg:  map[string]float64{"sub": 0.4, "sec": 0.05, "red": 0.1, "ts": 0.1, "strict": 0.15, "lts": 0.15, "lup": 0.15, "asis": 0.1},
		pTLS: 0.2, pUnclean: 0.1, pReqTS: 0.2, pEnc: 0.1, pBeh: 0.1, methods: 2, reqs: 10, pDump: 0.15,
		pImpl: 0.4, pHTTP: 0.15, segs: 5, pEntry: 0.1, pProbe: 0.1, pBig: 0.1,
	}
}

// blend adds a little of everything to a profile.
func blend(p *profile) {
	if len(p.weights) == 0 || p.tmpl > 0 {
		return
	}
	var mix = profiles["mix"]()
	for k := range mix.weights {
		if p.weights[k] == 0 && k != "Tmpl" {
			p.weights[k] = 1
		}
	}
	for k := range mix.setW {
		if p.setW != nil && p.setW[k] == 0 {
			p.setW[k] = 1
		}
	}
	p.cfg = merged(p.cfg, mix.cfg)
	p.steps += 6
	p.follow = true
	if p.reqs < 6 {
		p.reqs = 6
	}
	p.pPanic, p.pNest = most(p.pPanic, 0.02), most(p.pNest, 0.02)
	p.pF, p.pBeh = most(p.pF, 0.03), most(p.pBeh, 0.08)
	p.pHTTP, p.pTLS, p.pSec = most(p.pHTTP, 0.1), most(p.pTLS, 0.15), most(p.pSec, 0.08)
	p.pReqTS, p.pUnclean = most(p.pReqTS, 0.1), most(p.pUnclean, 0.06)
	p.pEntry, p.pEnc, p.pImpl = most(p.pEntry, 0.08), most(p.pEnc, 0.06), most(p.pImpl, 0.2)
}

// sparse leaves few middlewares where there are many, with more requests made
// from within.
func sparse(p *profile) {
	if p.setW["WrapPasser"] < 4 || p.pNest == 0 {
		return
	}
	for _, k := range []string{"WrapPasser", "WrapHandler", "WrapHandlerOf"} {
		p.setW[k] = 1
	}
	for _, k := range []string{"RWrapPasser", "WrapNF"} {
		delete(p.weights, k)
	}
	p.subW = nil
	p.pNest = most(p.pNest, 0.4)
}

func merged(a, b map[string]float64) map[string]float64 {
	var m = map[string]float64{}
	for k, v := range b {
		m[k] = v / 2
	}
	for k, v := range a {
		m[k] = v
	}
	return m
}

func with(f func(p *profile)) func() profile {
	return func() profile {
		var p = base()
		f(&p)
		return p
	}
}

var profiles = map[string]func() profile{
	"base": base,

	// Everything that can be set, with requests in between.
	"mix": with(func(p *profile) {
		p.steps = 24
		for k, n := range (w{"RWrapPasser": 1, "PRC": 1, "SetCRH": 1, "WrapCRH": 1, "SetNF": 1, "Common": 1,
			"WrapNF": 1, "Req": 12, "URL": 2, "Tmpl": 1, "Conc": 1, "SetSub": 2}) {
			p.weights[k] = n
		}
		p.setW = w{"Handler": 10, "SharedData": 1, "Configuration": 2, "Implementation": 1,
			"WrapPasser": 1, "WrapHandler": 1, "WrapHandlerOf": 1, "RedirectCode": 1,
			"RedirectHandler": 1, "WrapRedirectHandler": 1, "Redirect": 1, "RedirectAny": 1}
		p.pF, p.pPanic, p.pNest, p.follow = 0.03, 0.02, 0.03, true
	}),

	// Precedence of hosts and resources.
	"C01": with(func(p *profile) {
		p.weights = w{"Resource": 4, "NResource": 3, "SetAt": 10, "Set": 3, "Host": 1, "MkRes": 1, "Register": 1}
		p.setW = w{"Handler": 20, "Configuration": 1, "WrapPasser": 1}
		p.cfg = map[string]float64{"sub": 0.25}
		p.segs, p.pPat, p.pWild, p.pOdd = 7, 0.4, 0.2, 0.08
		p.pBad, p.pCfg, p.pTS, p.pReqTS, p.pUnclean, p.pBeh = 0.01, 0.1, 0.05, 0.05, 0.03, 0.02
		p.steps, p.reqs, p.pDump, p.pEnc, p.pHost, p.pEntry = 16, 24, 0.02, 0.15, 0.35, 0.12
	}),

	// Subtree handlers and the remaining path.
	"C02": with(func(p *profile) {
		p.weights = w{"Resource": 5, "NResource": 4, "SetAt": 8, "Set": 5, "Host": 2, "MkRes": 1, "Register": 1, "SetSub": 1}
		p.setW = w{"Handler": 12, "Configuration": 4, "WrapPasser": 2, "Redirect": 1, "RedirectAny": 1}
		p.subW = w{"Configuration": 3, "WrapPasser": 1}
		p.cfg = map[string]float64{"sub": 0.75, "lup": 0.25, "strict": 0.1, "lts": 0.2, "ts": 0.1}
		p.pCfg, p.pTS, p.pReqTS, p.pUnclean, p.pEnc = 0.6, 0.3, 0.4, 0.25, 0.3
		p.pBad, p.pHost, p.reqs, p.pDump, p.pBeh = 0.01, 0.4, 24, 0.02, 0.06
	}),

	// Matching of templates.
	"C03": with(func(p *profile) {
		p.weights = w{"Resource": 3, "SetAt": 10, "Host": 1}
		p.setW = w{"Handler": 20}
		p.cfg = map[string]float64{"sub": 0.2}
		p.tmpl, p.tmplW = 30, w{"Match": 1}
		p.steps, p.reqs, p.pDump, p.pPat, p.pBad, p.pOdd, p.pHost = 8, 12, 0, 0.6, 0.01, 0.1, 0.4
	}),

	// Parsing, text forms and similarity of templates.
	"C04": with(func(p *profile) {
		p.weights = w{"Resource": 6, "MkRes": 3, "Host": 2, "Registered": 1, "MkHost": 1}
		p.tmpl, p.tmplW = 45, w{"Parse": 20, "Sim": 20, "Vals": 1}
		p.steps, p.reqs, p.pDump, p.pPat, p.pBad, p.pOdd, p.segs = 8, 1, 0.2, 0.4, 0.3, 0.2, 12
	}),

	// Application of templates and URLs of responders.
	"C05": with(func(p *profile) {
		p.weights = w{"Resource": 6, "NResource": 5, "MkRes": 2, "Host": 3, "MkHost": 1, "Register": 2, "RegisterUnder": 1, "Root": 1, "Set": 1}
		p.setW = w{"Configuration": 1}
		p.tmpl, p.tmplW = 12, w{"Apply": 10, "Match": 2, "Vals": 1}
		p.pSec, p.pTS, p.pHost, p.pBad, p.pOdd, p.segs = 0.3, 0.3, 0.4, 0.01, 0.2, 8
		p.steps, p.reqs, p.urls, p.pDump = 12, 0, 22, 0.02
	}),

	// Isolation of requests.
	"C06": with(func(p *profile) {
		p.weights = w{"Resource": 4, "NResource": 3, "SetAt": 10, "Set": 5, "Host": 1, "RWrapPasser": 1, "SetSub": 1}
		p.setW = w{"Handler": 10, "Configuration": 1, "WrapPasser": 4, "WrapHandler": 4, "SharedData": 2}
		p.subW = w{"WrapPasser": 1, "WrapHandler": 1}
		p.cfg = map[string]float64{"sub": 0.4, "lup": 0.2}
		p.pBad, p.pHTTP, p.pBeh, p.pF, p.pPanic, p.pNest = 0, 0.4, 0.5, 0.05, 0.12, 0.15
		p.reqs, p.conc, p.pDump, p.pPat, p.pWild = 8, 6, 0, 0.3, 0.4
	}),

	// Secure responders.
	"C07": with(func(p *profile) {
		p.weights["SetSub"], p.weights["Host"], p.pUnclean = 3, 6, 0.2
		p.setW = w{"Handler": 10, "Configuration": 6, "Redirect": 1, "RedirectAny": 1, "Implementation": 1, "WrapPasser": 1}
		p.subW = w{"Configuration": 1}
		p.cfg = map[string]float64{"sub": 0.4, "sec": 0.2, "red": 0.4, "ts": 0.1, "strict": 0.1, "lts": 0.15, "lup": 0.25}
		p.pSec, p.pTLS, p.pHost, p.pCfg, p.pBad = 0.5, 0.35, 0.35, 0.5, 0.01
		p.reqs, p.pDump, p.pEntry, p.follow = 16, 0.05, 0.15, true
	}),

	// Trailing slashes and unclean paths.
	"C08": with(func(p *profile) {
		p.weights = w{"Resource": 6, "NResource": 4, "SetAt": 8, "Set": 5, "Host": 3, "MkRes": 1, "Register": 1, "SetSub": 1}
		p.setW = w{"Handler": 10, "Configuration": 4, "Redirect": 1, "WrapPasser": 1}
		p.subW = w{"Configuration": 1}
		p.cfg = map[string]float64{"sub": 0.35, "ts": 0.1, "strict": 0.25, "lts": 0.2, "lup": 0.25, "asis": 0.12}
		p.pTS, p.pReqTS, p.pUnclean, p.pEnc, p.pCfg, p.pHost, p.pBad = 0.45, 0.5, 0.45, 0.2, 0.5, 0.4, 0.01
		p.reqs, p.pDump, p.pPat = 22, 0.02, 0.15
	}),

	// Automatic redirects.
	"C09": with(func(p *profile) {
		p.weights = w{"Resource": 6, "NResource": 4, "SetAt": 8, "Set": 5, "Host": 2, "SetSub": 1, "PRC": 1}
		p.setW = w{"Handler": 10, "Configuration": 3, "RedirectCode": 6, "RedirectHandler": 2, "WrapRedirectHandler": 1}
		p.subW = w{"Configuration": 1}
		p.cfg = map[string]float64{"sub": 0.5, "red": 0.25, "strict": 0.05, "lts": 0.1, "lup": 0.1}
		p.pSec, p.pTLS, p.pTS, p.pReqTS, p.pUnclean, p.pEnc, p.pCfg, p.pHost = 0.25, 0.2, 0.4, 0.4, 0.4, 0.4, 0.4, 0.4
		p.pBad, p.pDump, p.reqs, p.follow, p.pBeh, p.pOdd = 0.01, 0.02, 14, true, 0, 0.15
	}),

	// Methods.
	"C10": with(func(p *profile) {
		p.weights = w{"Resource": 3, "NResource": 2, "SetAt": 8, "Set": 12, "Host": 1, "MkRes": 2, "Register": 1, "SetSub": 2, "Get": 2, "GetAt": 2}
		p.setW = w{"Handler": 20, "Implementation": 4, "WrapHandlerOf": 5}
		p.subW = w{"WrapHandlerOf": 1}
		p.methods, p.pImpl, p.segs, p.pPat, p.pWild = 20, 0.6, 3, 0.2, 0.2
		p.cfg = map[string]float64{"sub": 0.2}
		p.steps, p.reqs, p.pDump, p.pBeh, p.pUnclean, p.pReqTS, p.pTS = 22, 20, 0.1, 0.02, 0, 0.02, 0.02
	}),

	// Handled and not handled requests.
	"C11": with(func(p *profile) {
		p.weights = w{"Resource": 4, "NResource": 3, "SetAt": 8, "Set": 6, "Host": 3, "RWrapPasser": 2, "SetNF": 1, "WrapNF": 2, "SetSub": 1}
		p.setW = w{"Handler": 12, "WrapPasser": 3, "WrapHandler": 2, "Configuration": 2, "RedirectHandler": 1, "Redirect": 1, "Implementation": 1}
		p.cfg = map[string]float64{"sub": 0.45, "strict": 0.3, "red": 0.15, "lup": 0.1}
		p.pF, p.pBeh, p.pHTTP, p.pBad, p.reqs, p.pDump, p.pEntry, p.pReqTS, p.pCfg = 0.35, 0.35, 0.25, 0.01, 20, 0, 0.2, 0.3, 0.4
	}),

	// Middlewares.
	"C12": with(func(p *profile) {
		p.weights = w{"Resource": 4, "NResource": 4, "SetAt": 8, "Set": 10, "Host": 1, "RWrapPasser": 2, "WrapNF": 1, "Common": 1, "SetSub": 4, "MkRes": 2, "Register": 2, "Get": 1, "GetAt": 1}
		p.setW = w{"Handler": 8, "WrapPasser": 5, "WrapHandler": 5, "WrapHandlerOf": 5, "Implementation": 1, "Configuration": 1, "WrapRedirectHandler": 1}
		p.subW = w{"WrapPasser": 1, "WrapHandler": 1, "WrapHandlerOf": 1}
		p.cfg = map[string]float64{"sub": 0.4}
		p.steps, p.reqs, p.pDump, p.pBad, p.pBeh, p.methods, p.segs = 24, 16, 0.02, 0.01, 0.08, 4, 4
	}),

	// Uniqueness of names and templates.
	"C13": with(func(p *profile) {
		p.weights = w{"Resource": 10, "NResource": 8, "MkRes": 5, "Host": 3, "MkHost": 2, "RegisterHost": 2, "Register": 5, "RegisterUnder": 4, "SetAt": 2, "Registered": 2, "Tree": 7, "UrlReg": 3}
		p.setW = w{"SharedData": 1}
		p.pPat, p.pWild, p.pHost, p.pBad, p.segs, p.pOdd = 0.4, 0.35, 0.35, 0.05, 9, 0.08
		p.steps, p.reqs, p.pDump = 26, 1, 0.35
	}),

	// Registration of prebuilt trees.
	"C14": with(func(p *profile) {
		p.weights = w{"Through": 1, "Resource": 3, "NResource": 6, "MkRes": 8, "MkHost": 3, "RegisterHost": 4, "Register": 9, "RegisterUnder": 7, "Set": 5, "Host": 2, "ParentOf": 1, "HostOf": 1, "Tree": 4, "UrlReg": 4, "Collide": 7}
		p.setW = w{"Handler": 8, "WrapPasser": 2, "SharedData": 2, "Configuration": 1, "WrapHandler": 1}
		p.pHost, p.pBad, p.segs, p.pImpl, p.pCfg, p.pPat, p.pWild = 0.35, 0.01, 4, 0.25, 0.15, 0.3, 0.3
		p.cfg = map[string]float64{"sub": 0.3, "lup": 0.1, "lts": 0.2}
		p.pSec, p.pTS, p.steps, p.reqs, p.pDump = 0.05, 0.1, 24, 8, 0.4
	}),

	// Lookups.
	"C15": with(func(p *profile) {
		p.weights = w{"Through": 2, "Resource": 8, "NResource": 8, "Host": 4, "MkRes": 2, "Register": 2, "Registered": 9, "RegisteredHost": 3, "HostNamed": 3, "ChildNamed": 3, "ParentOf": 2, "HostOf": 2, "Has": 2, "Root": 1, "GetAt": 5, "Get": 1, "SetAt": 3, "RegisterHost": 1, "MkHost": 1, "UrlReg": 5, "Tree": 2}
		p.pHost, p.pBad, p.segs, p.pPat, p.pWild, p.pSec, p.pTS = 0.3, 0.03, 6, 0.3, 0.3, 0.08, 0.1
		p.steps, p.reqs, p.pDump, p.urls = 32, 1, 0.2, 2
	}),

	// Configurations.
	"C16": with(func(p *profile) {
		p.weights = w{"Through": 3, "Resource": 8, "NResource": 6, "Host": 5, "MkRes": 4, "MkHost": 2, "RegisterHost": 1, "Register": 2, "SetAt": 7, "Set": 7, "SetSub": 4, "GetAt": 4, "Get": 3, "Root": 1, "Collide": 2}
		p.setW = w{"Configuration": 12, "Handler": 3}
		p.subW = w{"Configuration": 1}
		p.cfg = map[string]float64{"sub": 0.4, "sec": 0.2, "red": 0.15, "ts": 0.2, "strict": 0.25, "lts": 0.25, "lup": 0.25, "asis": 0.15}
		p.pCfg, p.pSec, p.pTS, p.pHost, p.pBad, p.segs, p.pPat = 0.6, 0.25, 0.3, 0.35, 0.02, 3, 0.2
		p.steps, p.reqs, p.pDump, p.pReqTS, p.pUnclean = 24, 10, 0.3, 0.4, 0.2
	}),

	// Explicit redirects and redirect handlers.
	"C17": with(func(p *profile) {
		p.weights = w{"Resource": 5, "NResource": 3, "SetAt": 10, "Set": 10, "Host": 2, "PRC": 2, "SetCRH": 2, "WrapCRH": 2, "GetAt": 2, "Get": 2, "MkRes": 1, "Register": 1}
		p.setW = w{"Handler": 4, "RedirectCode": 3, "RedirectHandler": 4, "WrapRedirectHandler": 4, "Redirect": 6, "RedirectAny": 5, "Configuration": 2, "WrapHandler": 1}
		p.cfg = map[string]float64{"sub": 0.5, "red": 0.25, "strict": 0.05, "lts": 0.2, "lup": 0.2}
		p.pCfg, p.pTS, p.pReqTS, p.pUnclean, p.pSec, p.pHost, p.pBad = 0.4, 0.25, 0.35, 0.2, 0.2, 0.3, 0.01
		p.steps, p.reqs, p.pDump, p.segs, p.pF, p.pBeh = 24, 18, 0.05, 4, 0.03, 0.06
	}),

	// Shared data and implementations.
	"C18": with(func(p *profile) {
		p.weights = w{"Through": 2, "Resource": 4, "NResource": 3, "SetAt": 9, "Set": 9, "SetSub": 4, "Host": 2, "MkRes": 4, "MkHost": 2, "RegisterHost": 2, "Register": 3, "GetAt": 3, "Get": 3, "Collide": 1}
		p.setW = w{"Handler": 5, "SharedData": 6, "Implementation": 7, "WrapPasser": 2, "WrapHandlerOf": 1, "Configuration": 1, "WrapHandler": 1}
		p.subW = w{"SharedData": 4, "WrapPasser": 1}
		p.cfg = map[string]float64{"sub": 0.5}
		p.methods, p.pImpl, p.pBad, p.steps, p.reqs, p.pDump, p.pHost = 8, 0.7, 0.01, 22, 14, 0.2, 0.3
	}),

	// Adapters of the net/http handlers and middlewares.
	"C19": with(func(p *profile) {
		p.weights = w{"Resource": 4, "NResource": 3, "SetAt": 9, "Set": 8, "Host": 1, "RWrapPasser": 2, "WrapNF": 1, "SetSub": 2}
		p.setW = w{"Handler": 10, "WrapPasser": 5, "WrapHandler": 5, "WrapHandlerOf": 4}
		p.subW = w{"WrapPasser": 1, "WrapHandler": 1, "WrapHandlerOf": 1}
		p.cfg = map[string]float64{"sub": 0.4}
		p.pHTTP, p.pBeh, p.pF, p.pNest, p.pPanic, p.pBad = 0.75, 0.3, 0.15, 0.12, 0.03, 0
		p.steps, p.reqs, p.conc, p.pDump = 18, 14, 2, 0
	}),

	// Rejected calls.
	"C20": with(func(p *profile) {
		p.weights = w{"Through": 2, "Host": 5, "Resource": 10, "NResource": 8, "MkHost": 2, "MkRes": 5, "RegisterHost": 3,
			"Register": 6, "RegisterUnder": 5, "Registered": 3, "RegisteredHost": 1, "Set": 5, "SetAt": 8, "GetAt": 1, "PRC": 1,
			"RWrapPasser": 1, "WrapNF": 1, "SetNF": 1, "WrapCRH": 1, "SetCRH": 1, "SetSub": 2, "Get": 2, "Common": 1, "Tree": 2, "UrlReg": 3, "Collide": 2}
		p.setW = w{"Handler": 9, "SharedData": 1, "Configuration": 3, "Implementation": 2, "WrapPasser": 2,
			"WrapHandler": 2, "WrapHandlerOf": 5, "WrapRedirectHandler": 2, "RedirectCode": 2, "RedirectHandler": 1, "Redirect": 2, "RedirectAny": 2}
		p.cfg = map[string]float64{"sub": 0.4, "sec": 0.1, "red": 0.2, "ts": 0.2, "strict": 0.15, "lts": 0.15, "lup": 0.15, "asis": 0.1}
		p.pBad, p.pHost, p.pSec, p.pTS, p.pCfg, p.segs = 0.35, 0.35, 0.2, 0.25, 0.4, 5
		p.steps, p.reqs, p.pDump, p.pArg, p.methods, p.pProbe = 26, 9, 0.9, 0.1, 3, 0.4
	}),
}

func most(a, b float64) float64 {
	if a > b {
		return a
	}
	return b
}
