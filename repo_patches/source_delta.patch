From 9bcac426f5864e1a1a70833b965d87715511a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 01/24] fix: return the passed values as is from Match when the
 template doesn't match

---
 template.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/template.go b/template.go
index 96d46fb..65e767f 100755
--- a/template.go
+++ b/template.go
@@ -433,6 +433,9 @@ func (t *Template) Match(
 	str string,
 	values TemplateValues,
 ) (bool, TemplateValues) {
+	// The passed values are returned as is when the template doesn't match.
+	var passedValues = values
+
 	var ltslices = len(t.slices)
 	var k = ltslices
 	if t.wildcardIdx >= 0 {
@@ -444,7 +447,7 @@ func (t *Template) Match(
 			if strings.HasPrefix(str, t.slices[i].staticStr) {
 				str = str[len(t.slices[i].staticStr):]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		} else {
 			var vp = t.slices[i].valuePattern
@@ -453,7 +456,7 @@ func (t *Template) Match(
 				var v = str[:idxs[1]]
 				if vi, vf := values.get(vp.name); vi >= 0 {
 					if v != vf {
-						return false, values
+						return false, passedValues
 					}
 				} else {
 					if values == nil {
@@ -465,7 +468,7 @@ func (t *Template) Match(
 
 				str = str[idxs[1]:]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		}
 	}
@@ -475,7 +478,7 @@ func (t *Template) Match(
 			if strings.HasSuffix(str, t.slices[i].staticStr) {
 				str = str[:len(str)-len(t.slices[i].staticStr)]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		} else {
 			var vp = t.slices[i].valuePattern
@@ -484,7 +487,7 @@ func (t *Template) Match(
 				var v = str[idxs[0][0]:]
 				if vi, vf := values.get(vp.name); vi >= 0 {
 					if v != vf {
-						return false, values
+						return false, passedValues
 					}
 				} else {
 					if values == nil {
@@ -496,7 +499,7 @@ func (t *Template) Match(
 
 				str = str[:idxs[0][0]]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		}
 	}
@@ -513,7 +516,7 @@ func (t *Template) Match(
 			)
 		} else {
 			// Unreachable.
-			return false, values
+			return false, passedValues
 		}
 	}
 
-- 
2.43.0


From ccdb76e3b3080d42f7c996c1fbc0555d60ab08b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 02/24] fix: reject values that only partially match the
 pattern in TryToApply

---
 template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 65e767f..140d154 100755
--- a/template.go
+++ b/template.go
@@ -543,7 +543,7 @@ func (t *Template) TryToApply(
 		if vi, vf := values.get(slc.valuePattern.name); vi >= 0 {
 			if slc.valuePattern.re != nil {
 				var idxs = slc.valuePattern.re.FindStringIndex(vf)
-				if idxs == nil || (idxs[0] != 0 && idxs[1] != len(vf)) {
+				if idxs == nil || idxs[0] != 0 || idxs[1] != len(vf) {
 					return "", newErr(
 						"%w value for %q",
 						ErrInvalidValue,
-- 
2.43.0


From 57ecd8e68f2414ec7207a67946917e04a6164cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 03/24] fix: don't modify the value pattern shared by the
 repeated segments

---
 template.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 140d154..321d710 100755
--- a/template.go
+++ b/template.go
@@ -1015,11 +1015,16 @@ func parse(tmplStr string) (
 		// The last segment is a value-pattern segment. So, its regexp
 		// must be modified to match the end of the string.
 		var reStr = vp.re.String() + "$"
-		vp.re, err = regexp.Compile(reStr)
+		var re *regexp.Regexp
+		re, err = regexp.Compile(reStr)
 		if err != nil {
 			// Unreachable.
 			return nil, -1, err
 		}
+
+		// The value pattern may be shared with the other segments of the
+		// template, so it must not be modified.
+		tmplSlcs[lastIdx].valuePattern = &_ValuePattern{vp.name, re}
 	}
 
 	return tmplSlcs, wildcardIdx, nil
-- 
2.43.0


From 91c2b646b7794a98699af9dcea4911543fc07584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 04/24] fix: anchor all the alternatives of the value pattern

---
 template.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/template.go b/template.go
index 321d710..92ade7a 100755
--- a/template.go
+++ b/template.go
@@ -6,6 +6,7 @@ package nanomux
 import (
 	"fmt"
 	"regexp"
+	"regexp/syntax"
 	"strings"
 )
 
@@ -855,6 +856,25 @@ func dynamicSegment(tmplStrSlc string) (
 	return
 }
 
+// groupedPattern returns the pattern in a group if it cannot be anchored
+// without the group. For example, in the "^red|green$" each of the anchors
+// binds only to one of the alternatives.
+func groupedPattern(pattern string) string {
+	var re, err = syntax.Parse("^"+pattern+"$", syntax.Perl)
+	if err != nil {
+		// The error is going to be returned on compilation.
+		return pattern
+	}
+
+	var groupedRe *syntax.Regexp
+	groupedRe, err = syntax.Parse("^(?:"+pattern+")$", syntax.Perl)
+	if err != nil || groupedRe.Equal(re) {
+		return pattern
+	}
+
+	return "(?:" + pattern + ")"
+}
+
 // appendDynamicSegmentTo appends the value name and pattern to the list of
 // dynamic segments. The slice valuePatterns contains the previously created
 // _ValuePattern instances with value names as a key. If the value name is
@@ -870,6 +890,10 @@ func appendDynamicSegmentTo(
 	valuePatterns _ValuePatterns,
 	wildcardIdx int,
 ) ([]_TemplateSegment, _ValuePatterns, int, error) {
+	if pattern != "" {
+		pattern = groupedPattern(pattern)
+	}
+
 	if vpi, vp := valuePatterns.get(vName); vpi >= 0 {
 		if pattern != "" {
 			if wildcardIdx >= 0 {
-- 
2.43.0


From f42ac8f4873b303eeab9cd0bd15379c3ccc36aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 05/24] fix: don't escape static templates in the responder's
 URL

---
 utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 65ed7a6..119a3ae 100755
--- a/utils.go
+++ b/utils.go
@@ -325,7 +325,7 @@ loop:
 
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				pss = append(pss, tmpl.Content())
+				pss = append(pss, tmpl.UnescapedContent())
 				continue
 			}
 
@@ -338,7 +338,7 @@ loop:
 		case *Host:
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				host = tmpl.Content()
+				host = tmpl.UnescapedContent()
 			} else {
 				var err error
 				host, err = tmpl.TryToApply(hpVs, false)
-- 
2.43.0


From 657354454c0e35fcac195935ec72bf7908877730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 06/24] fix: keep the static hosts under their unescaped
 templates

---
 router.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index 568d8e5..c35aac6 100755
--- a/router.go
+++ b/router.go
@@ -732,7 +732,7 @@ func (ro *Router) RedirectAnyRequestAt(
 // different names or value names, the method returns an error.
 func (ro *Router) hostWithTemplate(tmpl *Template) (*Host, error) {
 	if tmpl.IsStatic() && ro.staticHosts != nil {
-		var h = ro.staticHosts[tmpl.Content()]
+		var h = ro.staticHosts[tmpl.UnescapedContent()]
 		if h != nil {
 			var stmpl = h.Template()
 			if stmpl == tmpl {
@@ -771,7 +771,7 @@ func (ro *Router) hostWithTemplate(tmpl *Template) (*Host, error) {
 func (ro *Router) replaceHost(oldH, newH *Host) error {
 	var tmpl = oldH.Template()
 	if tmpl.IsStatic() {
-		ro.staticHosts[tmpl.Content()] = newH
+		ro.staticHosts[tmpl.UnescapedContent()] = newH
 	} else {
 		var idx = -1
 		for i, h := range ro.patternHosts {
@@ -807,7 +807,7 @@ func (ro *Router) registerHost(h *Host) error {
 			ro.staticHosts = make(map[string]*Host)
 		}
 
-		ro.staticHosts[tmpl.Content()] = h
+		ro.staticHosts[tmpl.UnescapedContent()] = h
 	} else {
 		ro.patternHosts = append(ro.patternHosts, h)
 	}
-- 
2.43.0


From 16f7c8d94851c68ed0de85112f855506c67745a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 07/24] fix: set the router as the parent of the implicitly
 created root resource

---
 router.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/router.go b/router.go
index c35aac6..93e3431 100755
--- a/router.go
+++ b/router.go
@@ -1114,6 +1114,7 @@ func (ro *Router) HasAnyHost() bool {
 
 func (ro *Router) initializeRootResource() {
 	ro.r = newRootResource()
+	ro.r.setParent(ro)
 }
 
 // Resource returns an existing or newly created resource.
-- 
2.43.0


From f88566360e60cbb095fdccb6fa431d4bb44af1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 08/24] fix: detach the root resource replaced by a new one

---
 router.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/router.go b/router.go
index 93e3431..cbf708e 100755
--- a/router.go
+++ b/router.go
@@ -1330,6 +1330,7 @@ func (ro *Router) registerNewRoot(r *Resource) error {
 			return newErr("%w", err)
 		}
 
+		ro.r.setParent(nil)
 		ro.r = r
 		r.setParent(ro)
 		return nil
-- 
2.43.0


From 9a43efa034fef8a019e9286078895757c1bbc29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 09/24] fix: configure the existing dormant host instead of
 panicking

---
 router.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/router.go b/router.go
index cbf708e..53569c5 100755
--- a/router.go
+++ b/router.go
@@ -892,7 +892,11 @@ func (ro *Router) Host(hostTmplStr string) *Host {
 	} else {
 		err = h.checkForConfigCompatibility(secure, tslash, nil)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantHost) {
+				h.configure(secure, tslash, nil)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 	}
 
@@ -943,7 +947,11 @@ func (ro *Router) HostUsingConfig(
 	} else {
 		err = h.checkForConfigCompatibility(secure, tslash, &cfs)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantHost) {
+				h.configure(secure, tslash, &cfs)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 	}
 
-- 
2.43.0


From e1550384624040ddd744a6446cb58ce4f24fa82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 10/24] fix: check the uniqueness of the host's name when it's
 created for a resource

---
 router.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/router.go b/router.go
index 53569c5..fcccdba 100755
--- a/router.go
+++ b/router.go
@@ -63,6 +63,10 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 		if err != nil {
 			return nil, newErr("%w", err)
 		}
+
+		if newHost && ro.HostNamed(_r.Name()) != nil {
+			return nil, newErr("%w", errDuplicateNameAmongSiblings)
+		}
 	}
 
 	if pTmplStr != "" {
@@ -1385,6 +1389,10 @@ func (ro *Router) RegisterResource(r *Resource) {
 				panicWithErr("%w", err)
 			}
 
+			if newHost && ro.HostNamed(_r.Name()) != nil {
+				panicWithErr("%w", errDuplicateNameAmongSiblings)
+			}
+
 			// The following if statement should never be true.
 			if urlt.PrefixPath == "/" {
 				// Unreachable.
@@ -1532,6 +1540,10 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 		if err != nil {
 			panicWithErr("%w", err)
 		}
+
+		if newHost && ro.HostNamed(_r.Name()) != nil {
+			panicWithErr("%w", errDuplicateNameAmongSiblings)
+		}
 	}
 
 	// Here, _r is either nil or has a valid pointer to a host.
-- 
2.43.0


From c126bbe8bb476b5fea8cdc475423f7f31d474f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 11/24] fix: don't drop the errors of the failed registrations

---
 router.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/router.go b/router.go
index fcccdba..497fa0f 100755
--- a/router.go
+++ b/router.go
@@ -88,7 +88,10 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 			if newFirst != nil {
 				newLast.configure(secure, tslash, nil)
 
-				_r.registerResource(newFirst)
+				if err = _r.registerResource(newFirst); err != nil {
+					return nil, newErr("%w", err)
+				}
+
 				if newHost {
 					// When newHost is true _r would still be holding
 					// a pointer to a newly created host.
@@ -1010,7 +1013,11 @@ func (ro *Router) RegisterHost(h *Host) {
 			panicWithErr("%w", err)
 		}
 
-		ro.replaceHost(hwt, h)
+		if err = ro.replaceHost(hwt, h); err != nil {
+			// Unreachable.
+			panicWithErr("%w", err)
+		}
+
 		return
 	}
 
@@ -1184,7 +1191,9 @@ func (ro *Router) Resource(urlTmplStr string) *Resource {
 
 		if newFirst != nil {
 			newLast.configure(secure, tslash, nil)
-			_r.registerResource(newFirst)
+			if err = _r.registerResource(newFirst); err != nil {
+				panicWithErr("%w", err)
+			}
 
 			if newHost {
 				if ro.HostNamed(_r.Name()) != nil {
@@ -1282,7 +1291,10 @@ func (ro *Router) ResourceUsingConfig(
 			var cfs = config.asFlags()
 			newLast.configure(secure, tslash, &cfs)
 
-			_r.registerResource(newFirst)
+			if err = _r.registerResource(newFirst); err != nil {
+				panicWithErr("%w", err)
+			}
+
 			if newHost {
 				err = ro.registerHost(_r.(*Host))
 				if err != nil {
-- 
2.43.0


From 8bb0512a806d7ab6b83dcb814617226b9162a77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 12/24] fix: keep the escaped path of the redirect URL in sync
 with its path

---
 host.go     |  8 +++++++-
 resource.go |  8 +++++++-
 utils.go    | 11 +++++++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/host.go b/host.go
index 0de5b9e..8c25e6a 100755
--- a/host.go
+++ b/host.go
@@ -315,7 +315,7 @@ func (hb *Host) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		args.setPathOf(newURL)
 	}
 
 	if hb.IsSubtreeHandler() {
@@ -332,6 +332,9 @@ func (hb *Host) handleOrPassRequest(
 				}
 
 				newURL.Path += "/"
+				if newURL.RawPath != "" {
+					newURL.RawPath += "/"
+				}
 			} else if !hb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
@@ -342,6 +345,9 @@ func (hb *Host) handleOrPassRequest(
 				}
 
 				newURL.Path = newURL.Path[:len(newURL.Path)-1]
+				if newURL.RawPath != "" {
+					newURL.RawPath = newURL.RawPath[:len(newURL.RawPath)-1]
+				}
 			}
 		}
 	}
diff --git a/resource.go b/resource.go
index 1e6c70d..16a1d35 100755
--- a/resource.go
+++ b/resource.go
@@ -454,7 +454,7 @@ func (rb *Resource) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		args.setPathOf(newURL)
 	}
 
 	if lastSegment && !rb.IsLenientOnTrailingSlash() {
@@ -468,6 +468,9 @@ func (rb *Resource) handleOrPassRequest(
 			}
 
 			newURL.Path += "/"
+			if newURL.RawPath != "" {
+				newURL.RawPath += "/"
+			}
 		} else if !rb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 			if rb.IsStrictOnTrailingSlash() {
 				return notFoundResourceHandler(w, r, args)
@@ -478,6 +481,9 @@ func (rb *Resource) handleOrPassRequest(
 			}
 
 			newURL.Path = newURL.Path[:len(newURL.Path)-1]
+			if newURL.RawPath != "" {
+				newURL.RawPath = newURL.RawPath[:len(newURL.RawPath)-1]
+			}
 		}
 	}
 
diff --git a/utils.go b/utils.go
index 119a3ae..0c1f23b 100755
--- a/utils.go
+++ b/utils.go
@@ -495,6 +495,17 @@ func (args *Args) nextPathSegment() (string, error) {
 	return args.path[cIdx:idx], nil
 }
 
+// setPathOf sets the path of the URL to the path used for routing. If the
+// escaped path was used for routing, the URL's escaped path is set too.
+func (args *Args) setPathOf(u *url.URL) {
+	u.Path, u.RawPath = args.path, ""
+	if args.rawPath {
+		if path, err := url.PathUnescape(args.path); err == nil {
+			u.Path, u.RawPath = path, args.path
+		}
+	}
+}
+
 // reachedTheLastPathSegment returns true when the responder that is using the
 // routing data is the last responder in the request's URL.
 func (args *Args) reachedTheLastPathSegment() bool {
-- 
2.43.0


From f45c7df5d0803252a57ef58657c4ea3b3ecb9c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 13/24] fix: don't share the state of the Mw's handler between
 requests

---
 middleware.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/middleware.go b/middleware.go
index cec1474..dbde5c1 100755
--- a/middleware.go
+++ b/middleware.go
@@ -13,23 +13,32 @@ import (
 
 type Middleware func(next Handler) Handler
 
+// _MwCallKey is the context key of the flag that is set when the middleware
+// converted with the Mw calls the next handler.
+type _MwCallKey struct{}
+
+var mwCallKey any = _MwCallKey{}
+
 // Mw converts the middleware with the signature func(http.Handler) http.Handler
 // to the nanomux.Middleware.
 func Mw(mw func(http.Handler) http.Handler) Middleware {
 	return func(next Handler) Handler {
-		var nextHasBeenCalled = false
 		var h http.Handler = http.HandlerFunc(
 			func(w http.ResponseWriter, r *http.Request) {
 				var args = r.Context().Value(argsKey).(*Args)
 				args.handled = next(w, r, args)
-				nextHasBeenCalled = true
+				*r.Context().Value(mwCallKey).(*bool) = true
 			},
 		)
 
 		h = mw(h)
 
 		return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
+			// The flag belongs to the request, so it cannot be shared by the
+			// calls of the handler.
+			var nextHasBeenCalled bool
 			var c = context.WithValue(r.Context(), argsKey, args)
+			c = context.WithValue(c, mwCallKey, &nextHasBeenCalled)
 			r = r.WithContext(c)
 			h.ServeHTTP(w, r)
 
-- 
2.43.0


From f212b1d4254121ba5dbc279112aa0e3016c3626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 14/24] fix: restore the host and path values when the child
 resource doesn't handle the request

---
 responder.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/responder.go b/responder.go
index 9e12017..ecd7535 100755
--- a/responder.go
+++ b/responder.go
@@ -2308,6 +2308,7 @@ func (rb *_ResponderBase) passRequest(
 	args *Args,
 ) bool {
 	var currentPathSegmentIdx = args.currentPathSegmentIdx
+	var hostPathValues = args.hostPathValues
 	var ps, err = args.nextPathSegment()
 	if err != nil {
 		http.Error(
@@ -2340,6 +2341,10 @@ func (rb *_ResponderBase) passRequest(
 				args._r = pr.derived
 				args.handled = pr.requestReceiver(w, r, args)
 				args.currentPathSegmentIdx = currentPathSegmentIdx
+				if !args.handled {
+					args.hostPathValues = hostPathValues
+				}
+
 				return args.handled
 			}
 		}
@@ -2353,6 +2358,10 @@ func (rb *_ResponderBase) passRequest(
 			args._r = rb.wildcardResource.derived
 			args.handled = rb.wildcardResource.requestReceiver(w, r, args)
 			args.currentPathSegmentIdx = currentPathSegmentIdx
+			if !args.handled {
+				args.hostPathValues = hostPathValues
+			}
+
 			return args.handled
 		}
 	}
-- 
2.43.0


From 9f12a0baecdc2d3db3fa30391ac685b06af90718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 15/24] fix: apply the host's trailing slash policy to single
 character path segments

---
 host.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/host.go b/host.go
index 8c25e6a..f522312 100755
--- a/host.go
+++ b/host.go
@@ -319,9 +319,9 @@ func (hb *Host) handleOrPassRequest(
 	}
 
 	if hb.IsSubtreeHandler() {
-		// The path must have at least three characters for it to have
-		// a trailing slash.
-		if len(args.path) > 2 && !hb.IsLenientOnTrailingSlash() {
+		// The root path "/" has no last path segment and therefore has no
+		// trailing slash.
+		if len(args.path) > 1 && !hb.IsLenientOnTrailingSlash() {
 			if hb.HasTrailingSlash() && !args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
-- 
2.43.0


From c5f9d29175e7004a59277f8876aae98100793f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 16/24] fix: RegisterResourceUnder of responders rejects a
 prefix path that conflicts with the resource's URL

---
 responder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/responder.go b/responder.go
index ecd7535..d54d124 100755
--- a/responder.go
+++ b/responder.go
@@ -1261,11 +1261,11 @@ func (rb *_ResponderBase) RegisterResourceUnder(
 			panicWithErr("%w", errConflictingPath)
 		}
 
-		var pp = urlt.PrefixPath
-		if strings.HasSuffix(urlt.PrefixPath, prefixPath) {
-			pp = urlt.PrefixPath[:lurltPp-lpp]
+		if !strings.HasSuffix(urlt.PrefixPath, prefixPath) {
+			panicWithErr("%w", errConflictingPath)
 		}
 
+		var pp = urlt.PrefixPath[:lurltPp-lpp]
 		var rppss, err = rb.validateURL(urlt.Host, pp)
 		if err != nil {
 			panicWithErr("%w", err)
-- 
2.43.0


From 30818d129b41550234bc748eb99ab99ebeef7e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 17/24] fix: Router.RegisterResourceUnder rejects a path that
 conflicts with the resource's URL

---
 router.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/router.go b/router.go
index 497fa0f..2adbe10 100755
--- a/router.go
+++ b/router.go
@@ -1522,26 +1522,22 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 			}
 		}
 
-		if urlt.PrefixPath != "" && pTmplStr != "/" {
-			var lpTmplStr = len(pTmplStr)
-			if lpTmplStr > 0 {
-				if lastIdx := lpTmplStr - 1; pTmplStr[lastIdx] == '/' {
-					pTmplStr = pTmplStr[:lastIdx]
-					lpTmplStr--
-				}
+		if lpTmplStr := len(pTmplStr); lpTmplStr > 0 {
+			if lastIdx := lpTmplStr - 1; pTmplStr[lastIdx] == '/' {
+				pTmplStr = pTmplStr[:lastIdx]
 			}
+		}
 
-			if urlt.PrefixPath[0] != '/' {
-				urlt.PrefixPath = "/" + urlt.PrefixPath
-			}
+		if urlt.PrefixPath == "/" {
+			urlt.PrefixPath = ""
+		}
 
-			if lpTmplStr != len(urlt.PrefixPath) {
-				panicWithErr("%w", errConflictingPath)
-			}
+		if urlt.PrefixPath != "" && urlt.PrefixPath[0] != '/' {
+			urlt.PrefixPath = "/" + urlt.PrefixPath
+		}
 
-			if pTmplStr != urlt.PrefixPath {
-				panicWithErr("%w", errConflictingPath)
-			}
+		if pTmplStr != urlt.PrefixPath {
+			panicWithErr("%w", errConflictingPath)
 		}
 	}
 
-- 
2.43.0


From 3cfbdd127d2aaf157e11cb5b9a78a0d79a506743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 18/24] fix: escape the remaining path that redirects add to
 the URL

---
 requesthandler.go |  2 +-
 utils.go          | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/requesthandler.go b/requesthandler.go
index 63159e8..b8987f3 100755
--- a/requesthandler.go
+++ b/requesthandler.go
@@ -628,7 +628,7 @@ func redirector(
 		// changes to it will be permanent.
 		var urlStr = url
 
-		var rPath = args.RemainingPath()
+		var rPath = args.escapedRemainingPath()
 		var lrPath = len(rPath)
 		if lrPath > 0 {
 			if rPath[0] == '/' {
diff --git a/utils.go b/utils.go
index 0c1f23b..2a36751 100755
--- a/utils.go
+++ b/utils.go
@@ -553,6 +553,17 @@ func (args *Args) RemainingPath() string {
 	return args.path[args.currentPathSegmentIdx:]
 }
 
+// escapedRemainingPath returns the remaining path in its escaped form, so that
+// it can be added to a URL.
+func (args *Args) escapedRemainingPath() string {
+	var rPath = args.RemainingPath()
+	if args.rawPath {
+		return rPath
+	}
+
+	return (&url.URL{Path: rPath}).EscapedPath()
+}
+
 // ResponderSharedData returns the shared data of the host or resource that
 // is currently handling the request. If the shared data wasn't set, nil is
 // returned.
-- 
2.43.0


From a8a69f78e316fe37e16ce180508328aa4aab3b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 19/24] fix: a redirect URL that only begins with http isn't
 absolute

---
 requesthandler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/requesthandler.go b/requesthandler.go
index b8987f3..7f61b5c 100755
--- a/requesthandler.go
+++ b/requesthandler.go
@@ -616,7 +616,8 @@ func redirector(
 		)
 	}
 
-	if tUrl := strings.TrimPrefix(url, "http"); len(tUrl) == lUrl {
+	if !strings.HasPrefix(url, "http://") &&
+		!strings.HasPrefix(url, "https://") {
 		if url[0] != '/' {
 			url = "/" + url
 			lUrl = len(url)
-- 
2.43.0


From 6bc4d325d4b0948a64d22bca78ccf4be14eef09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 20/24] fix: a resource can't be registered under itself or its
 own descendants

---
 responder.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/responder.go b/responder.go
index d54d124..28d434f 100755
--- a/responder.go
+++ b/responder.go
@@ -258,6 +258,18 @@ func (rb *_ResponderBase) parent() _Parent {
 	return rb.papa
 }
 
+// isBelow returns true if the argument resource is the responder itself or one
+// of the responders above it in the tree.
+func (rb *_ResponderBase) isBelow(r *Resource) bool {
+	for p := _Parent(rb.derived); p != nil; p = p.parent() {
+		if p == _Parent(r) {
+			return true
+		}
+	}
+
+	return false
+}
+
 // respondersInThePath returns all the responders above in the tree
 // (including the host and the resource itself).
 func (rb *_ResponderBase) respondersInThePath() []_Responder {
@@ -1162,7 +1174,7 @@ func (rb *_ResponderBase) RegisterResource(r *Resource) {
 		panicWithErr("%w", errNonRouterParent)
 	}
 
-	if r.parent() != nil {
+	if r.parent() != nil || rb.isBelow(r) {
 		panicWithErr("%w", errRegisteredResource)
 	}
 
@@ -1224,7 +1236,7 @@ func (rb *_ResponderBase) RegisterResourceUnder(
 		panicWithErr("%w", errNonRouterParent)
 	}
 
-	if r.parent() != nil {
+	if r.parent() != nil || rb.isBelow(r) {
 		panicWithErr("%w", errRegisteredResource)
 	}
 
-- 
2.43.0


From 39778c228a4a3913e4d1e29e950da39b0813d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 21/24] fix: Router.RegisterResourceUnder rejects a root
 resource before changing the host

---
 router.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/router.go b/router.go
index 2adbe10..f9c5631 100755
--- a/router.go
+++ b/router.go
@@ -1544,6 +1544,10 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 	var _r _Responder
 	var newHost bool
 	if hTmplStr != "" {
+		if r.isRoot() {
+			panicWithErr("%w", errNonRouterParent)
+		}
+
 		_r, newHost, _, _, err = ro.host(hTmplStr)
 		if err != nil {
 			panicWithErr("%w", err)
-- 
2.43.0


From 4d0faf184950c750c91a295688422ce82c3e91dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 22/24] fix: a failed registration doesn't drop the resource's
 URL template

---
 resource.go  | 6 +++---
 responder.go | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/resource.go b/resource.go
index 16a1d35..30dde29 100755
--- a/resource.go
+++ b/resource.go
@@ -309,10 +309,10 @@ func newRootResource() *Resource {
 // 	rb.urlt = urlt
 // }
 
+// urlTmpl returns the URL template that the resource must be registered under.
+// It's nil when the resource doesn't have one or it has been registered.
 func (rb *Resource) urlTmpl() *_URLTmpl {
-	var urlt = rb.urlt
-	rb.urlt = nil
-	return urlt
+	return rb.urlt
 }
 
 // -------------------------
diff --git a/responder.go b/responder.go
index 28d434f..95168cd 100755
--- a/responder.go
+++ b/responder.go
@@ -738,6 +738,8 @@ func (rb *_ResponderBase) replaceResource(oldR, newR *Resource) error {
 		return newErr("%w", err)
 	}
 
+	newR.urlt = nil
+
 	err = oldR.setParent(nil)
 	if err != nil {
 		// Unreachable.
@@ -769,6 +771,7 @@ func (rb *_ResponderBase) registerResource(r *Resource) error {
 		return newErr("%w", err)
 	}
 
+	r.urlt = nil
 	return nil
 }
 
-- 
2.43.0


From 547309ed41bfd28cd8ddff042d69a3126dd765a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 23/24] fix: register resources with relative URL templates
 under their prefix path

---
 responder.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/responder.go b/responder.go
index 95168cd..8c625b9 100755
--- a/responder.go
+++ b/responder.go
@@ -1264,7 +1264,12 @@ func (rb *_ResponderBase) RegisterResourceUnder(
 	}
 
 	if urlt := r.urlTmpl(); urlt != nil {
-		var lpp, lurltPp = len(prefixPath), len(urlt.PrefixPath)
+		var urltPp = urlt.PrefixPath
+		if urltPp != "" && urltPp[0] != '/' {
+			urltPp = "/" + urltPp
+		}
+
+		var lpp, lurltPp = len(prefixPath), len(urltPp)
 		if lpp > 0 {
 			if lastIdx := lpp - 1; prefixPath[lastIdx] == '/' {
 				prefixPath = prefixPath[:lastIdx]
@@ -1276,11 +1281,11 @@ func (rb *_ResponderBase) RegisterResourceUnder(
 			panicWithErr("%w", errConflictingPath)
 		}
 
-		if !strings.HasSuffix(urlt.PrefixPath, prefixPath) {
+		if !strings.HasSuffix(urltPp, prefixPath) {
 			panicWithErr("%w", errConflictingPath)
 		}
 
-		var pp = urlt.PrefixPath[:lurltPp-lpp]
+		var pp = urltPp[:lurltPp-lpp]
 		var rppss, err = rb.validateURL(urlt.Host, pp)
 		if err != nil {
 			panicWithErr("%w", err)
-- 
2.43.0


From be60d9a2a82d127ff27d71f443c43a735437e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:48 +0000
Subject: [PATCH 24/24] fix: don't count curly braces in a character class of a
 regexp segment

A pattern like {n:[{]} was rejected as an incomplete dynamic segment, although
a closing brace in a character class was ignored already.
---
 template.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 92ade7a..e4c26f7 100755
--- a/template.go
+++ b/template.go
@@ -737,7 +737,8 @@ func dynamicSegment(tmplStrSlc string) (
 
 	for i, idx, chClsIdx := 1, 1, -1; i < ltmplStrSlc; i++ {
 		var ch = tmplStrSlc[i]
-		if ch == '{' {
+		// In a character class, a curly brace doesn't have to be closed.
+		if ch == '{' && chClsIdx < 0 {
 			depth++
 			continue
 		}
-- 
2.43.0

