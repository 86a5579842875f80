From 754325cf2717b15ad89f35206efd6ea292275f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 01/29] fix: Template.Match returns the passed values as is
 when the template doesn't match

---
 template.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/template.go b/template.go
index 96d46fb..ab2d27f 100755
--- a/template.go
+++ b/template.go
@@ -433,6 +433,10 @@ func (t *Template) Match(
 	str string,
 	values TemplateValues,
 ) (bool, TemplateValues) {
+	// When the template doesn't match, the values that have been appended
+	// until the mismatch must not be returned.
+	var passedValues = values
+
 	var ltslices = len(t.slices)
 	var k = ltslices
 	if t.wildcardIdx >= 0 {
@@ -444,7 +448,7 @@ func (t *Template) Match(
 			if strings.HasPrefix(str, t.slices[i].staticStr) {
 				str = str[len(t.slices[i].staticStr):]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		} else {
 			var vp = t.slices[i].valuePattern
@@ -453,7 +457,7 @@ func (t *Template) Match(
 				var v = str[:idxs[1]]
 				if vi, vf := values.get(vp.name); vi >= 0 {
 					if v != vf {
-						return false, values
+						return false, passedValues
 					}
 				} else {
 					if values == nil {
@@ -465,7 +469,7 @@ func (t *Template) Match(
 
 				str = str[idxs[1]:]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		}
 	}
@@ -475,7 +479,7 @@ func (t *Template) Match(
 			if strings.HasSuffix(str, t.slices[i].staticStr) {
 				str = str[:len(str)-len(t.slices[i].staticStr)]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		} else {
 			var vp = t.slices[i].valuePattern
@@ -484,7 +488,7 @@ func (t *Template) Match(
 				var v = str[idxs[0][0]:]
 				if vi, vf := values.get(vp.name); vi >= 0 {
 					if v != vf {
-						return false, values
+						return false, passedValues
 					}
 				} else {
 					if values == nil {
@@ -496,7 +500,7 @@ func (t *Template) Match(
 
 				str = str[:idxs[0][0]]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		}
 	}
@@ -513,7 +517,7 @@ func (t *Template) Match(
 			)
 		} else {
 			// Unreachable.
-			return false, values
+			return false, passedValues
 		}
 	}
 
-- 
2.43.0


From e7a52565a3ce86e122ea5a55abb2a023cc32646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 02/29] fix: Template.TryToApply rejects values that only
 partially match the pattern

---
 template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template.go b/template.go
index ab2d27f..e82f54b 100755
--- a/template.go
+++ b/template.go
@@ -544,7 +544,7 @@ func (t *Template) TryToApply(
 		if vi, vf := values.get(slc.valuePattern.name); vi >= 0 {
 			if slc.valuePattern.re != nil {
 				var idxs = slc.valuePattern.re.FindStringIndex(vf)
-				if idxs == nil || (idxs[0] != 0 && idxs[1] != len(vf)) {
+				if idxs == nil || idxs[0] != 0 || idxs[1] != len(vf) {
 					return "", newErr(
 						"%w value for %q",
 						ErrInvalidValue,
-- 
2.43.0


From ab54c5487185ed666264c45c02d200d9e1853792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 03/29] fix: a repeated regexp segment at the end of a template
 can match again

---
 template.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/template.go b/template.go
index e82f54b..48fcb34 100755
--- a/template.go
+++ b/template.go
@@ -1015,12 +1015,16 @@ func parse(tmplStr string) (
 	if vp != nil && vp.re != nil && wildcardIdx < 0 {
 		// The last segment is a value-pattern segment. So, its regexp
 		// must be modified to match the end of the string.
-		var reStr = vp.re.String() + "$"
-		vp.re, err = regexp.Compile(reStr)
+		// If the segment is a repetition, the value-pattern is shared with the
+		// previous segments, which must be able to match before the end.
+		var re *regexp.Regexp
+		re, err = regexp.Compile(vp.re.String() + "$")
 		if err != nil {
 			// Unreachable.
 			return nil, -1, err
 		}
+
+		tmplSlcs[lastIdx].valuePattern = &_ValuePattern{vp.name, re}
 	}
 
 	return tmplSlcs, wildcardIdx, nil
-- 
2.43.0


From a4415a41be890330530d15065fb1f6fd92c8dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 04/29] fix: anchor all the alternatives of a template's regexp
 pattern

---
 template.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/template.go b/template.go
index 48fcb34..dd593fc 100755
--- a/template.go
+++ b/template.go
@@ -856,6 +856,48 @@ func dynamicSegment(tmplStrSlc string) (
 	return
 }
 
+// anchorable returns the pattern in the form that an anchor can be added to its
+// beginning or end. In regular expressions, an alternation has the lowest
+// precedence. So, if it's not enclosed in a group, the anchor would belong only
+// to its first or last alternative.
+func anchorable(pattern string) string {
+	if strings.IndexByte(pattern, '|') < 0 {
+		return pattern
+	}
+
+	var depth, chClsIdx = 0, -1
+	for i, lpattern := 0, len(pattern); i < lpattern; i++ {
+		switch ch := pattern[i]; {
+		case ch == '\\':
+			if strings.HasPrefix(pattern[i:], `\Q`) {
+				// The quoted text may contain any character.
+				return "(?:" + pattern + ")"
+			}
+
+			i++
+		case chClsIdx >= 0:
+			if strings.HasPrefix(pattern[i:], "[:") {
+				if idx := strings.Index(pattern[i:], ":]"); idx > 0 {
+					i += idx + 1
+				}
+			} else if d := i - chClsIdx; ch == ']' && d > 1 &&
+				!(d == 2 && pattern[i-1] == '^') {
+				chClsIdx = -1
+			}
+		case ch == '[':
+			chClsIdx = i
+		case ch == '(':
+			depth++
+		case ch == ')':
+			depth--
+		case ch == '|' && depth == 0:
+			return "(?:" + pattern + ")"
+		}
+	}
+
+	return pattern
+}
+
 // appendDynamicSegmentTo appends the value name and pattern to the list of
 // dynamic segments. The slice valuePatterns contains the previously created
 // _ValuePattern instances with value names as a key. If the value name is
@@ -871,6 +913,8 @@ func appendDynamicSegmentTo(
 	valuePatterns _ValuePatterns,
 	wildcardIdx int,
 ) ([]_TemplateSegment, _ValuePatterns, int, error) {
+	pattern = anchorable(pattern)
+
 	if vpi, vp := valuePatterns.get(vName); vpi >= 0 {
 		if pattern != "" {
 			if wildcardIdx >= 0 {
-- 
2.43.0


From a659fbf6531fd955bec1030c6c4444134d6bccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 05/29] fix: Mw must not carry the state of one request over to
 another

---
 middleware.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/middleware.go b/middleware.go
index cec1474..9e8149e 100755
--- a/middleware.go
+++ b/middleware.go
@@ -17,12 +17,10 @@ type Middleware func(next Handler) Handler
 // to the nanomux.Middleware.
 func Mw(mw func(http.Handler) http.Handler) Middleware {
 	return func(next Handler) Handler {
-		var nextHasBeenCalled = false
 		var h http.Handler = http.HandlerFunc(
 			func(w http.ResponseWriter, r *http.Request) {
 				var args = r.Context().Value(argsKey).(*Args)
 				args.handled = next(w, r, args)
-				nextHasBeenCalled = true
 			},
 		)
 
@@ -31,13 +29,12 @@ func Mw(mw func(http.Handler) http.Handler) Middleware {
 		return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
 			var c = context.WithValue(r.Context(), argsKey, args)
 			r = r.WithContext(c)
-			h.ServeHTTP(w, r)
-
-			if nextHasBeenCalled {
-				return args.handled
-			}
 
-			return true
+			// If the next handler isn't called, the request is considered
+			// handled by the middleware.
+			args.handled = true
+			h.ServeHTTP(w, r)
+			return args.handled
 		}
 	}
 }
-- 
2.43.0


From 9287cb4b86824b8f702415cf0357123f091ee6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 06/29] fix: automatic redirects keep the escaping of the
 request's path

---
 host.go     |  6 +++---
 resource.go |  6 +++---
 utils.go    | 25 +++++++++++++++++++++++++
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/host.go b/host.go
index 0de5b9e..72618c4 100755
--- a/host.go
+++ b/host.go
@@ -315,7 +315,7 @@ func (hb *Host) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		setURLPath(newURL, args.path, args.rawPath)
 	}
 
 	if hb.IsSubtreeHandler() {
@@ -331,7 +331,7 @@ func (hb *Host) handleOrPassRequest(
 					newURL = cloneRequestURL(r)
 				}
 
-				newURL.Path += "/"
+				addTrailingSlash(newURL)
 			} else if !hb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
@@ -341,7 +341,7 @@ func (hb *Host) handleOrPassRequest(
 					newURL = cloneRequestURL(r)
 				}
 
-				newURL.Path = newURL.Path[:len(newURL.Path)-1]
+				removeTrailingSlash(newURL)
 			}
 		}
 	}
diff --git a/resource.go b/resource.go
index 1e6c70d..86b60b9 100755
--- a/resource.go
+++ b/resource.go
@@ -454,7 +454,7 @@ func (rb *Resource) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		setURLPath(newURL, args.path, args.rawPath)
 	}
 
 	if lastSegment && !rb.IsLenientOnTrailingSlash() {
@@ -467,7 +467,7 @@ func (rb *Resource) handleOrPassRequest(
 				newURL = cloneRequestURL(r)
 			}
 
-			newURL.Path += "/"
+			addTrailingSlash(newURL)
 		} else if !rb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 			if rb.IsStrictOnTrailingSlash() {
 				return notFoundResourceHandler(w, r, args)
@@ -477,7 +477,7 @@ func (rb *Resource) handleOrPassRequest(
 				newURL = cloneRequestURL(r)
 			}
 
-			newURL.Path = newURL.Path[:len(newURL.Path)-1]
+			removeTrailingSlash(newURL)
 		}
 	}
 
diff --git a/utils.go b/utils.go
index 65ed7a6..159c737 100755
--- a/utils.go
+++ b/utils.go
@@ -99,6 +99,31 @@ func cloneRequestURL(r *http.Request) *url.URL {
 	return url
 }
 
+// setURLPath sets the path of the URL. If the path is escaped, the raw path of
+// the URL is also set so that the original encoding is preserved.
+func setURLPath(u *url.URL, path string, escaped bool) {
+	u.Path, u.RawPath = path, ""
+	if escaped {
+		if unescapedPath, err := url.PathUnescape(path); err == nil {
+			u.Path, u.RawPath = unescapedPath, path
+		}
+	}
+}
+
+// addTrailingSlash adds a trailing slash to the path of the URL.
+func addTrailingSlash(u *url.URL) {
+	u.Path += "/"
+	if u.RawPath != "" {
+		u.RawPath += "/"
+	}
+}
+
+// removeTrailingSlash removes the trailing slash from the path of the URL.
+func removeTrailingSlash(u *url.URL) {
+	u.Path = strings.TrimSuffix(u.Path, "/")
+	u.RawPath = strings.TrimSuffix(u.RawPath, "/")
+}
+
 func toUpperSplitByCommaSpace(str string) []string {
 	str = strings.TrimSpace(str)
 	var strs []string
-- 
2.43.0


From 5e72a3b68aa7cf379af844f2be616196d1332f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 07/29] fix: Args.RemainingPath returns the escaped remaining
 path

---
 utils.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils.go b/utils.go
index 159c737..6046c13 100755
--- a/utils.go
+++ b/utils.go
@@ -543,6 +543,17 @@ func (args *Args) HostPathValues() HostPathValues {
 // that's below the responder's segment that is currently passing or handling
 // the request.
 func (args *Args) RemainingPath() string {
+	var remainingPath = args.remainingPath()
+	if !args.rawPath {
+		// The decoded path of the URL is being used.
+		remainingPath = (&url.URL{Path: remainingPath}).EscapedPath()
+	}
+
+	return remainingPath
+}
+
+// remainingPath returns the remaining path in the form it's being kept.
+func (args *Args) remainingPath() string {
 	if args.reachedTheLastPathSegment() {
 		return ""
 	}
-- 
2.43.0


From ce11d4f31b28a49498c58c750fd0997964d1bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 08/29] fix: Router.Host and Router.RegisteredResource
 configure the existing dormant responder instead of rejecting it

---
 router.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index 568d8e5..0ffefe9 100755
--- a/router.go
+++ b/router.go
@@ -892,7 +892,11 @@ func (ro *Router) Host(hostTmplStr string) *Host {
 	} else {
 		err = h.checkForConfigCompatibility(secure, tslash, nil)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantHost) {
+				h.configure(secure, tslash, nil)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 	}
 
@@ -943,7 +947,11 @@ func (ro *Router) HostUsingConfig(
 	} else {
 		err = h.checkForConfigCompatibility(secure, tslash, &cfs)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantHost) {
+				h.configure(secure, tslash, &cfs)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 	}
 
@@ -1634,7 +1642,11 @@ func (ro *Router) RegisteredResource(urlTmplStr string) *Resource {
 	if r, ok := _r.(*Resource); ok && r != nil {
 		err = _r.checkForConfigCompatibility(secure, tslash, nil)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantResource) {
+				_r.configure(secure, tslash, nil)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 
 		return _r.(*Resource)
-- 
2.43.0


From 70c455e56fab306a65aa6d32137d7f1ec66394f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 09/29] fix: registered hosts can be retrieved by name as
 documented

---
 router.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index 0ffefe9..9116575 100755
--- a/router.go
+++ b/router.go
@@ -151,6 +151,20 @@ func (ro *Router) registeredHost(
 	return h, tmpl, nil
 }
 
+// registeredHostOrNamed returns an existing host. Unlike the registeredHost
+// method, the host template may contain only a name.
+func (ro *Router) registeredHostOrNamed(hTmplStr string) (*Host, error) {
+	if hTmplStr != "" {
+		var name, tmplStr, err = templateNameAndContent(hTmplStr)
+		if err == nil && name != "" && tmplStr == "" {
+			return ro.HostNamed(name), nil
+		}
+	}
+
+	var h, _, err = ro.registeredHost(hTmplStr)
+	return h, err
+}
+
 // registered_Responder returns an existing host or resource. The return value
 // host is set to true when the URL template contains only a host template,
 // even if that host doesn't exist.
@@ -172,7 +186,7 @@ func (ro *Router) registered_Responder(urlTmplStr string) (
 	}
 
 	if hTmplStr != "" {
-		_r, _, err = ro.registeredHost(hTmplStr)
+		_r, err = ro.registeredHostOrNamed(hTmplStr)
 		if err != nil {
 			return nil, false, newErr("%w", err)
 		}
@@ -1033,7 +1047,7 @@ func (ro *Router) RegisteredHost(hostTmplStr string) *Host {
 	}
 
 	var h *Host
-	h, _, err = ro.registeredHost(hostTmplStr)
+	h, err = ro.registeredHostOrNamed(hostTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
 	}
@@ -1611,7 +1625,7 @@ func (ro *Router) RegisteredResource(urlTmplStr string) *Resource {
 
 	var _r _Responder
 	if hTmplStr != "" {
-		_r, _, err = ro.registeredHost(hTmplStr)
+		_r, err = ro.registeredHostOrNamed(hTmplStr)
 		if err != nil {
 			panicWithErr("%w", err)
 		}
-- 
2.43.0


From 851d561ab5af0aacdaf1c2d8c0c50127bd017306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 10/29] fix: the root resource has no segment in the path
 templates of the registered resources

---
 responder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/responder.go b/responder.go
index 9e12017..25c63bc 100755
--- a/responder.go
+++ b/responder.go
@@ -529,6 +529,10 @@ func (rb *_ResponderBase) validateURL(hostTmplStr string, pathTmplStr string) (
 			}
 		}
 
+		resources = resources[1:]
+		lresources = len(resources)
+	} else if r, ok := resources[0].(*Resource); ok && r.isRoot() {
+		// The root resource has no segment in the path.
 		resources = resources[1:]
 		lresources = len(resources)
 	}
-- 
2.43.0


From b76d4ccaf30f5813df7926c30a2d13d4ea855653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 11/29] fix: RegisterResourceUnder accepts a resource whose
 path template has no leading slash

---
 responder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/responder.go b/responder.go
index 25c63bc..4a1af16 100755
--- a/responder.go
+++ b/responder.go
@@ -1253,6 +1253,10 @@ func (rb *_ResponderBase) RegisterResourceUnder(
 	}
 
 	if urlt := r.urlTmpl(); urlt != nil {
+		if urlt.PrefixPath != "" && urlt.PrefixPath[0] != '/' {
+			urlt.PrefixPath = "/" + urlt.PrefixPath
+		}
+
 		var lpp, lurltPp = len(prefixPath), len(urlt.PrefixPath)
 		if lpp > 0 {
 			if lastIdx := lpp - 1; prefixPath[lastIdx] == '/' {
-- 
2.43.0


From 1a3c7f050f34d8bd460005a77dd2e99df52929ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 12/29] fix: the root resource created by the router has the
 router as its parent

---
 router.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/router.go b/router.go
index 9116575..b292f9d 100755
--- a/router.go
+++ b/router.go
@@ -1136,6 +1136,7 @@ func (ro *Router) HasAnyHost() bool {
 
 func (ro *Router) initializeRootResource() {
 	ro.r = newRootResource()
+	ro.r.setParent(ro)
 }
 
 // Resource returns an existing or newly created resource.
-- 
2.43.0


From 4a7d3876102d474b2a84648fbfb06aeafa9edd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 13/29] fix: a replaced root resource is no longer a part of
 the router's tree

---
 router.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/router.go b/router.go
index b292f9d..3a52fb5 100755
--- a/router.go
+++ b/router.go
@@ -1352,6 +1352,7 @@ func (ro *Router) registerNewRoot(r *Resource) error {
 			return newErr("%w", err)
 		}
 
+		ro.r.setParent(nil)
 		ro.r = r
 		r.setParent(ro)
 		return nil
-- 
2.43.0


From c7c9e168dddfb67c924eaa6ae287ec7f5893d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 14/29] fix: trailing slash properties in the root resource's
 config are ignored by Router.ResourceUsingConfig

---
 router.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/router.go b/router.go
index 3a52fb5..3325672 100755
--- a/router.go
+++ b/router.go
@@ -1279,6 +1279,18 @@ func (ro *Router) ResourceUsingConfig(
 		}
 
 		_r = ro.r
+
+		if pTmplStr == "/" {
+			// Trailing slash related properties of the root are ignored.
+			config.HasTrailingSlash = false
+			config.LenientOnTrailingSlash = false
+			config.StrictOnTrailingSlash = false
+
+			if config.HandlesThePathAsIs {
+				config.LenientOnUncleanPath = true
+				config.HandlesThePathAsIs = false
+			}
+		}
 	}
 
 	if pTmplStr != "/" { // Always true when newHost is true.
-- 
2.43.0


From cb4e100959edaafbc4ed060fbac4d417b95ea1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 15/29] fix: names of the hosts created for a resource must
 also be unique

---
 router.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/router.go b/router.go
index 3325672..a7fe77c 100755
--- a/router.go
+++ b/router.go
@@ -63,6 +63,10 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 		if err != nil {
 			return nil, newErr("%w", err)
 		}
+
+		if newHost && ro.HostNamed(_r.Name()) != nil {
+			return nil, newErr("%w", errDuplicateNameAmongSiblings)
+		}
 	}
 
 	if pTmplStr != "" {
@@ -105,10 +109,6 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 	if newHost {
 		_r.configure(secure, tslash, nil)
 
-		if h := ro.HostNamed(_r.Name()); h != nil {
-			return nil, newErr("%w", errDuplicateNameAmongSiblings)
-		}
-
 		err = ro.registerHost(_r.(*Host))
 		if err != nil {
 			// Unreachable.
@@ -1411,6 +1411,10 @@ func (ro *Router) RegisterResource(r *Resource) {
 				panicWithErr("%w", err)
 			}
 
+			if newHost && ro.HostNamed(_r.Name()) != nil {
+				panicWithErr("%w", errDuplicateNameAmongSiblings)
+			}
+
 			// The following if statement should never be true.
 			if urlt.PrefixPath == "/" {
 				// Unreachable.
@@ -1558,6 +1562,10 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 		if err != nil {
 			panicWithErr("%w", err)
 		}
+
+		if newHost && ro.HostNamed(_r.Name()) != nil {
+			panicWithErr("%w", errDuplicateNameAmongSiblings)
+		}
 	}
 
 	// Here, _r is either nil or has a valid pointer to a host.
-- 
2.43.0


From 4b44d458fe3cdb7d00335e1942dd9744d93d7a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 16/29] fix: URLs of the responders contain the unescaped
 static templates

---
 utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 6046c13..302503a 100755
--- a/utils.go
+++ b/utils.go
@@ -350,7 +350,7 @@ loop:
 
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				pss = append(pss, tmpl.Content())
+				pss = append(pss, tmpl.UnescapedContent())
 				continue
 			}
 
@@ -363,7 +363,7 @@ loop:
 		case *Host:
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				host = tmpl.Content()
+				host = tmpl.UnescapedContent()
 			} else {
 				var err error
 				host, err = tmpl.TryToApply(hpVs, false)
-- 
2.43.0


From 58184bce227d61d10672cc568bfe3aab9da6374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 17/29] fix: a slash inside a path segment is escaped in the
 responder's URL

---
 utils.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 302503a..2668278 100755
--- a/utils.go
+++ b/utils.go
@@ -377,9 +377,15 @@ loop:
 	}
 
 	var strb = strings.Builder{}
+	var rawStrb = strings.Builder{}
+	var hasSlash bool
 	for i := len(pss) - 1; i > -1; i-- {
 		strb.WriteByte('/')
 		strb.WriteString(pss[i])
+
+		rawStrb.WriteByte('/')
+		rawStrb.WriteString(url.PathEscape(pss[i]))
+		hasSlash = hasSlash || strings.IndexByte(pss[i], '/') >= 0
 	}
 
 	switch rr := _r.(type) {
@@ -387,10 +393,12 @@ loop:
 		if (rr.HasTrailingSlash() && !rr.isRoot()) ||
 			(strb.Len() == 0 && rr.isRoot()) {
 			strb.WriteByte('/')
+			rawStrb.WriteByte('/')
 		}
 	case *Host:
 		if rr.HasTrailingSlash() {
 			strb.WriteByte('/')
+			rawStrb.WriteByte('/')
 		}
 	}
 
@@ -399,7 +407,13 @@ loop:
 		scheme = "https"
 	}
 
-	return &url.URL{Scheme: scheme, Host: host, Path: strb.String()}, nil
+	var u = &url.URL{Scheme: scheme, Host: host, Path: strb.String()}
+	if hasSlash {
+		// The slash in a path segment must be escaped.
+		u.RawPath = rawStrb.String()
+	}
+
+	return u, nil
 }
 
 // --------------------------------------------------
-- 
2.43.0


From f715d2f751e66b738edd2c373f15eaacabbf9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 18/29] fix: a value pattern must be a valid regular expression
 by itself

---
 template.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/template.go b/template.go
index dd593fc..4069282 100755
--- a/template.go
+++ b/template.go
@@ -913,6 +913,12 @@ func appendDynamicSegmentTo(
 	valuePatterns _ValuePatterns,
 	wildcardIdx int,
 ) ([]_TemplateSegment, _ValuePatterns, int, error) {
+	// The pattern itself must be valid. With an anchor, an invalid pattern, for
+	// example "*", may be accepted by the regexp package.
+	if _, err := regexp.Compile(pattern); err != nil {
+		return tss, valuePatterns, wildcardIdx, err
+	}
+
 	pattern = anchorable(pattern)
 
 	if vpi, vp := valuePatterns.get(vName); vpi >= 0 {
-- 
2.43.0


From eded6907fe7a5c1d02d43a8accced0b452ea8e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 19/29] fix: a resource can't be registered below itself

---
 responder.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/responder.go b/responder.go
index 4a1af16..a8b7464 100755
--- a/responder.go
+++ b/responder.go
@@ -1170,6 +1170,13 @@ func (rb *_ResponderBase) RegisterResource(r *Resource) {
 		panicWithErr("%w", errRegisteredResource)
 	}
 
+	// A resource can't be registered under itself or below its own tree.
+	for _, rp := range rb.respondersInThePath() {
+		if rp == _Responder(r) {
+			panicWithErr("%w", errInvalidArgument)
+		}
+	}
+
 	if err := rb.validate(r.Template()); err != nil {
 		panicWithErr("%w", err)
 	}
@@ -1232,6 +1239,13 @@ func (rb *_ResponderBase) RegisterResourceUnder(
 		panicWithErr("%w", errRegisteredResource)
 	}
 
+	// A resource can't be registered under itself or below its own tree.
+	for _, rp := range rb.respondersInThePath() {
+		if rp == _Responder(r) {
+			panicWithErr("%w", errInvalidArgument)
+		}
+	}
+
 	if err := rb.validate(r.Template()); err != nil {
 		panicWithErr("%w", err)
 	}
-- 
2.43.0


From 823fd9bb74a0d9aab639113ca11cc353ac6bd5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 20/29] fix: a root resource rejected by a host or resource
 isn't kept among the children

---
 responder.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/responder.go b/responder.go
index a8b7464..943f536 100755
--- a/responder.go
+++ b/responder.go
@@ -743,6 +743,11 @@ func (rb *_ResponderBase) replaceResource(oldR, newR *Resource) error {
 // as its parent. The method doesn't check if an existing resource with the
 // same template exists or not.
 func (rb *_ResponderBase) registerResource(r *Resource) error {
+	var err = r.setParent(rb.derived)
+	if err != nil {
+		return newErr("%w", err)
+	}
+
 	switch tmpl := r.Template(); {
 	case tmpl.IsStatic():
 		if rb.staticResources == nil {
@@ -756,11 +761,6 @@ func (rb *_ResponderBase) registerResource(r *Resource) error {
 		rb.patternResources = append(rb.patternResources, r)
 	}
 
-	var err = r.setParent(rb.derived)
-	if err != nil {
-		return newErr("%w", err)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 8af0e8c896892eb54390e61d70c27c0217992d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 21/29] fix: the trailing slash policy of a subtree handler
 host applies to one-character paths too

---
 host.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/host.go b/host.go
index 72618c4..9889025 100755
--- a/host.go
+++ b/host.go
@@ -319,9 +319,8 @@ func (hb *Host) handleOrPassRequest(
 	}
 
 	if hb.IsSubtreeHandler() {
-		// The path must have at least three characters for it to have
-		// a trailing slash.
-		if len(args.path) > 2 && !hb.IsLenientOnTrailingSlash() {
+		// The root has no trailing slash policy.
+		if len(args.path) > 1 && !hb.IsLenientOnTrailingSlash() {
 			if hb.HasTrailingSlash() && !args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
-- 
2.43.0


From 8c71531f4aa211f463b8ae8106a55461afbc0b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 22/29] fix: a rejected wrapping doesn't wrap anything

---
 requesthandler.go | 41 +++++++++++++++++++++--------------------
 responder.go      | 22 ++++++++++++++--------
 router.go         |  2 ++
 3 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/requesthandler.go b/requesthandler.go
index 63159e8..a326f37 100755
--- a/requesthandler.go
+++ b/requesthandler.go
@@ -345,14 +345,16 @@ func (rhb *_RequestHandlerBase) wrapHandlerOf(
 		return newErr("%w", errNoHTTPMethod)
 	}
 
+	for i, mw := range mws {
+		if mw == nil {
+			return newErr("%w at index %d", errNoMiddleware, i)
+		}
+	}
+
 	if lms == 1 {
 		if ms[0] == "!" {
 			rhb.notAllowedHTTPMethodHandler = rhb.handlerOf("!")
-			for i, mw := range mws {
-				if mw == nil {
-					return newErr("%w at index %d", errNoMiddleware, i)
-				}
-
+			for _, mw := range mws {
 				rhb.notAllowedHTTPMethodHandler = mw(
 					rhb.notAllowedHTTPMethodHandler,
 				)
@@ -361,11 +363,7 @@ func (rhb *_RequestHandlerBase) wrapHandlerOf(
 			return nil
 		} else if ms[0] == "*" {
 			for _, mhp := range rhb.mhPairs {
-				for i, mw := range mws {
-					if mw == nil {
-						return newErr("%w at index %d", errNoMiddleware, i)
-					}
-
+				for _, mw := range mws {
 					mhp.handler = mw(mhp.handler)
 					rhb.mhPairs.set(mhp.method, mhp.handler)
 				}
@@ -376,20 +374,19 @@ func (rhb *_RequestHandlerBase) wrapHandlerOf(
 	}
 
 	for _, m := range ms {
-		if _, h := rhb.mhPairs.get(m); h != nil {
-			for i, mw := range mws {
-				if mw == nil {
-					return newErr("%w at index %d", errNoMiddleware, i)
-				}
-
-				h = mw(h)
-				rhb.mhPairs.set(m, h)
-			}
-		} else {
+		if _, h := rhb.mhPairs.get(m); h == nil {
 			return newErr("%w for the method %q", errNoHandlerExists, m)
 		}
 	}
 
+	for _, m := range ms {
+		var _, h = rhb.mhPairs.get(m)
+		for _, mw := range mws {
+			h = mw(h)
+			rhb.mhPairs.set(m, h)
+		}
+	}
+
 	return nil
 }
 
@@ -591,7 +588,9 @@ func WrapCommonRedirectHandler(
 		if mw == nil {
 			panicWithErr("%w at index %d", errNilArgument, i)
 		}
+	}
 
+	for _, mw := range mws {
 		commonRedirectHandler = mw(commonRedirectHandler)
 	}
 }
@@ -693,7 +692,9 @@ func WrapHandlerOfNotFound(mws ...Middleware) {
 		if mw == nil {
 			panicWithErr("%w at index %d", errNilArgument, i)
 		}
+	}
 
+	for _, mw := range mws {
 		notFoundResourceHandler = mw(notFoundResourceHandler)
 	}
 }
diff --git a/responder.go b/responder.go
index 943f536..e429090 100755
--- a/responder.go
+++ b/responder.go
@@ -1601,7 +1601,9 @@ func (rb *_ResponderBase) WrapRequestPasser(mws ...Middleware) {
 		if mw == nil {
 			panicWithErr("%w at index %d", errNoMiddleware, i)
 		}
+	}
 
+	for _, mw := range mws {
 		rb.requestPasser = mw(rb.requestPasser)
 	}
 }
@@ -1618,15 +1620,17 @@ func (rb *_ResponderBase) WrapRequestHandler(mws ...Middleware) {
 		panicWithErr("%w", errNoMiddleware)
 	}
 
-	if rb._RequestHandlerBase == nil {
-		rb.setRequestHandlerBase(&_RequestHandlerBase{})
-	}
-
 	for i, mw := range mws {
 		if mw == nil {
 			panicWithErr("%w at index %d", errNoMiddleware, i)
 		}
+	}
+
+	if rb._RequestHandlerBase == nil {
+		rb.setRequestHandlerBase(&_RequestHandlerBase{})
+	}
 
+	for _, mw := range mws {
 		rb.requestHandler = mw(rb.requestHandler)
 	}
 }
@@ -1738,15 +1742,17 @@ func (rb *_ResponderBase) WrapRedirectHandler(
 		panicWithErr("%w", errNoMiddleware)
 	}
 
-	if rb.redirectHandler == nil {
-		rb.redirectHandler = commonRedirectHandler
-	}
-
 	for i, mw := range mws {
 		if mw == nil {
 			panicWithErr("%w at index %d", errNoMiddleware, i)
 		}
+	}
+
+	if rb.redirectHandler == nil {
+		rb.redirectHandler = commonRedirectHandler
+	}
 
+	for _, mw := range mws {
 		rb.redirectHandler = mw(rb.redirectHandler)
 	}
 }
diff --git a/router.go b/router.go
index a7fe77c..8cc7068 100755
--- a/router.go
+++ b/router.go
@@ -1705,7 +1705,9 @@ func (ro *Router) WrapRequestPasser(mws ...Middleware) {
 		if mw == nil {
 			panicWithErr("%w at index %d", errNoMiddleware, i)
 		}
+	}
 
+	for _, mw := range mws {
 		ro.requestPasser = mw(ro.requestPasser)
 	}
 }
-- 
2.43.0


From db36c60d2ba77072aaca0a246d9a478972af8e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 23/29] fix: a rejected handler doesn't give the responder a
 request handler

---
 responder.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/responder.go b/responder.go
index e429090..6f487de 100755
--- a/responder.go
+++ b/responder.go
@@ -1560,14 +1560,19 @@ func (rb *_ResponderBase) Implementation() Impl {
 // handler must happen in a separate call. Examples of methods: "GET", "PUT,
 // POST", "SHARE, LOCK" or "!".
 func (rb *_ResponderBase) SetHandlerFor(methods string, handler Handler) {
-	if rb._RequestHandlerBase == nil {
-		rb.setRequestHandlerBase(&_RequestHandlerBase{})
+	var rhb = rb._RequestHandlerBase
+	if rhb == nil {
+		rhb = &_RequestHandlerBase{}
 	}
 
-	var err = rb.setHandlerFor(methods, handler)
+	var err = rhb.setHandlerFor(methods, handler)
 	if err != nil {
 		panicWithErr("%w", err)
 	}
+
+	if rb._RequestHandlerBase == nil {
+		rb.setRequestHandlerBase(rhb)
+	}
 }
 
 // HandlerOf returns the HTTP method handler of the responder. If the handler
-- 
2.43.0


From 32f03c6eb5eb297635c7a9f37d0a4a94acd1b510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 24/29] fix: a resource that is rejected below a secure URL
 isn't made secure

---
 router.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/router.go b/router.go
index 8cc7068..22cba1c 100755
--- a/router.go
+++ b/router.go
@@ -1597,6 +1597,7 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 		panicWithErr("%w", err)
 	}
 
+	var cfs = r.configFlags()
 	if secure {
 		r.setConfigFlags(flagSecure)
 	}
@@ -1604,11 +1605,13 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 	if pTmplStr != "" && pTmplStr != "/" {
 		err = _r.registerResourceUnder(pTmplStr, r)
 		if err != nil {
+			r.resetConfigFlags(cfs)
 			panicWithErr("%w", err)
 		}
 	} else {
 		var err = _r.keepResourceOrItsChildResources(r)
 		if err != nil {
+			r.resetConfigFlags(cfs)
 			panicWithErr("%w", err)
 		}
 	}
-- 
2.43.0


From e68828894cb6a10f9cd86b21128391a8f5ae0147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:40 +0000
Subject: [PATCH 25/29] fix: a rejected call doesn't leave an implicit root
 resource behind

---
 router.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/router.go b/router.go
index 22cba1c..a6c7d0d 100755
--- a/router.go
+++ b/router.go
@@ -73,6 +73,7 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 		if _r == nil {
 			if ro.r == nil {
 				ro.initializeRootResource()
+				defer ro.discardUnusedRoot()
 			}
 
 			_r = ro.r
@@ -1139,6 +1140,14 @@ func (ro *Router) initializeRootResource() {
 	ro.r.setParent(ro)
 }
 
+// discardUnusedRoot removes the root resource that has been initialized for a
+// resource which then was rejected.
+func (ro *Router) discardUnusedRoot() {
+	if !ro.r.configFlags().has(flagActive) && !ro.r.HasAnyChildResources() {
+		ro.r = nil
+	}
+}
+
 // Resource returns an existing or newly created resource.
 //
 // When the URL template contains a host template, its path template cannot be
@@ -1180,6 +1189,7 @@ func (ro *Router) Resource(urlTmplStr string) *Resource {
 	} else {
 		if ro.r == nil {
 			ro.initializeRootResource()
+			defer ro.discardUnusedRoot()
 		}
 
 		_r = ro.r
@@ -1276,6 +1286,7 @@ func (ro *Router) ResourceUsingConfig(
 	} else {
 		if ro.r == nil {
 			ro.initializeRootResource()
+			defer ro.discardUnusedRoot()
 		}
 
 		_r = ro.r
@@ -1441,6 +1452,7 @@ func (ro *Router) RegisterResource(r *Resource) {
 
 		if ro.r == nil {
 			ro.initializeRootResource()
+			defer ro.discardUnusedRoot()
 		}
 
 		_r = ro.r
@@ -1584,6 +1596,7 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 
 		if ro.r == nil {
 			ro.initializeRootResource()
+			defer ro.discardUnusedRoot()
 		}
 
 		_r = ro.r
-- 
2.43.0


From f0c91dd39b9b695cb19cce38c32ed07229478b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 26/29] fix: the redirect to the path without a trailing slash
 removes all of the slashes of an unclean path

---
 utils.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index 2668278..a42c6ab 100755
--- a/utils.go
+++ b/utils.go
@@ -118,10 +118,18 @@ func addTrailingSlash(u *url.URL) {
 	}
 }
 
-// removeTrailingSlash removes the trailing slash from the path of the URL.
+// removeTrailingSlash removes the trailing slash from the path of the URL. An
+// unclean path may end with several of them.
 func removeTrailingSlash(u *url.URL) {
-	u.Path = strings.TrimSuffix(u.Path, "/")
-	u.RawPath = strings.TrimSuffix(u.RawPath, "/")
+	if u.RawPath == "" {
+		u.Path = strings.TrimRight(u.Path, "/")
+		return
+	}
+
+	for strings.HasSuffix(u.RawPath, "/") {
+		u.Path = strings.TrimSuffix(u.Path, "/")
+		u.RawPath = u.RawPath[:len(u.RawPath)-1]
+	}
 }
 
 func toUpperSplitByCommaSpace(str string) []string {
-- 
2.43.0


From 316effd1789647cde4587475f2f7d140499cd702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:06 +0000
Subject: [PATCH 27/29] fix: a wildcard that matches an empty string has an
 empty value

---
 template.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/template.go b/template.go
index 4069282..0770d7e 100755
--- a/template.go
+++ b/template.go
@@ -505,20 +505,18 @@ func (t *Template) Match(
 		}
 	}
 
-	if len(str) > 0 {
-		if t.wildcardIdx >= 0 {
-			if values == nil {
-				values = make(TemplateValues, 0, 5)
-			}
-
-			values = append(
-				values,
-				_StringPair{t.slices[t.wildcardIdx].valuePattern.name, str},
-			)
-		} else {
-			// Unreachable.
-			return false, passedValues
+	if t.wildcardIdx >= 0 {
+		if values == nil {
+			values = make(TemplateValues, 0, 5)
 		}
+
+		values = append(
+			values,
+			_StringPair{t.slices[t.wildcardIdx].valuePattern.name, str},
+		)
+	} else if len(str) > 0 {
+		// Unreachable.
+		return false, passedValues
 	}
 
 	return true, values
-- 
2.43.0


From 8869dfe6e1d8a78a71958e19520142f6b6f57ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:06 +0000
Subject: [PATCH 28/29] fix: the name of the wildcard cannot be repeated with a
 pattern

---
 template.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/template.go b/template.go
index 0770d7e..21a2483 100755
--- a/template.go
+++ b/template.go
@@ -985,6 +985,14 @@ func appendDynamicSegmentTo(
 	}
 
 	if wildcardIdx >= 0 {
+		if vName == tss[wildcardIdx].valuePattern.name {
+			return tss, valuePatterns, wildcardIdx, newErr(
+				"%w %q",
+				ErrRepeatedWildcardName,
+				vName,
+			)
+		}
+
 		pattern += "$"
 	} else {
 		pattern = "^" + pattern
-- 
2.43.0


From bac6ce25bb0bd27e569395e7b31b56dfaf388f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 29/29] fix: SetImplementation dropped the middlewares of the
 request handler

WrapRequestHandler's middlewares were lost when the implementation was set
after them, although only the HTTP method handlers are to be replaced.
---
 responder.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/responder.go b/responder.go
index 6f487de..1c51e63 100755
--- a/responder.go
+++ b/responder.go
@@ -2322,7 +2322,18 @@ func (rb *_ResponderBase) _Responders() []_Responder {
 
 func (rb *_ResponderBase) setRequestHandlerBase(rhb *_RequestHandlerBase) {
 	rb._RequestHandlerBase = rhb
-	rb.requestHandler = rhb.handleRequest
+	if rb.requestHandler != nil {
+		// The request handler may have been wrapped.
+		return
+	}
+
+	rb.requestHandler = func(
+		w http.ResponseWriter,
+		r *http.Request,
+		args *Args,
+	) bool {
+		return rb.handleRequest(w, r, args)
+	}
 }
 
 func (rb *_ResponderBase) requestHandlerBase() *_RequestHandlerBase {
-- 
2.43.0

