From 1e56a5badb5f9abe80995bd9c0b873e6e0d8c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:34 +0000
Subject: [PATCH 01/44] fix: backtrack out of greedy segments when matching a
 path

A branch under ** that could not match the rest of the path ended the
search (or lost the leaf pattern of the ** node), so a path matched by a
less specific pattern was answered with 404.
---
 router/path/matcher.go | 142 ++++++++++++++---------------------------
 1 file changed, 48 insertions(+), 94 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 2c963d5..b6125ac 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -6,11 +6,6 @@ import (
 	"strings"
 )
 
-type stackSegment struct {
-	currentNodeChildren uint16
-	urlSegmentIndex     uint8
-}
-
 type node struct {
 	maxMatchableSegments uint8
 	priority             uint64
@@ -152,101 +147,60 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	if len(mc.PathSegments) == 0 && m.rootPathMatcher != nil {
 		return m.rootPathMatcher
 	}
-	var treeDepth int
-	urlLen := uint8(len(mc.PathSegments))
-	nodeStack := make([]stackSegment, MaxPathSegments)
-	urlSegmentMatchTypeStack := make([]MatchType, MaxPathSegments)
-	currentNode := m.trieRoot
-	var urlSegmentIndex uint8
-	for urlSegmentIndex < urlLen {
-		var matched bool
-		urlSegment := &mc.PathSegments[urlSegmentIndex]
-		//urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
-		if urlSegmentMatchTypeStack[urlSegmentIndex] != 0 {
-			urlSegment.matchType = urlSegmentMatchTypeStack[urlSegmentIndex]
-		}
+	pattern := m.matchChildren(m.trieRoot, urlPath, mc.PathSegments, 0)
+	if pattern != nil {
+		mc.matchedPattern = pattern
+	}
+	return pattern
+}
 
-		children := currentNode.children
-		childrenLen := uint16(len(children))
-		for ci := nodeStack[treeDepth].currentNodeChildren; ci < childrenLen; ci++ {
-			childNode := children[ci]
-			if !childNode.canMatchPathWithLength(urlLen - urlSegmentIndex) {
-				continue
-			}
-			urlSegmentMatchType := childNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive)
-			if urlSegmentMatchType == MatchTypeMultipleSegments {
-				greedyChildren := childNode.children
-				greedyChildrenLen := len(greedyChildren)
-				if greedyChildrenLen == 0 && childNode.isLeaf() {
-					//fill until the end the remained URL segments with MatchTypeMultipleSegments match type
-					for i := urlSegmentIndex; i < urlLen; i++ {
-						urlSegment := &mc.PathSegments[i]
-						urlSegment.matchType = MatchTypeMultipleSegments
-					}
-					mc.matchedPattern = childNode.pattern
-					return childNode.pattern
-				}
-				for urlSegmentIndex < urlLen {
-					urlSegment := &mc.PathSegments[urlSegmentIndex]
-					urlSegment.matchType = MatchTypeMultipleSegments
-					for gci := 0; gci < greedyChildrenLen; gci++ {
-						greedyChildNode := greedyChildren[gci]
-						if greedyChildNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive) != MatchTypeUnknown {
-							nodeStack[treeDepth] = stackSegment{
-								currentNodeChildren: ci,
-								urlSegmentIndex:     urlSegmentIndex + 1,
-							}
-							urlSegmentMatchTypeStack[urlSegmentIndex] = MatchTypeMultipleSegments
-							matched = true
-							treeDepth++
-							urlSegmentIndex-- //the urlSegmentIndex should not be increased. We have to decrease it here because will be increased at the end of the main loop
-							currentNode = childNode
-							goto END
-						}
-					}
-					urlSegmentIndex++
-				}
-				return nil
-			} else if urlSegmentMatchType != MatchTypeUnknown {
-				urlSegment.matchType = urlSegmentMatchType
-				if urlSegmentIndex == urlLen-1 {
-					if childNode.isLeaf() {
-						mc.matchedPattern = childNode.pattern
-						return childNode.pattern
+// matchChildren matches the URL segments, starting with urlSegmentIndex, against the patterns that continue under the parent node.
+// The children are tried from the most specific to the most generic one, a child that can not match all the remained URL segments being abandoned.
+// The match types are saved in the URL segments only for the pattern that matches
+func (m *Matcher) matchChildren(parent *node, urlPath string, urlSegments []UrlSegment, urlSegmentIndex int) *Pattern {
+	urlLen := len(urlSegments)
+	if urlSegmentIndex == urlLen {
+		return parent.pattern
+	}
+
+	for _, childNode := range parent.children {
+		if !childNode.canMatchPathWithLength(uint8(urlLen - urlSegmentIndex)) {
+			continue
+		}
+		if childNode.segment.matchType == MatchTypeMultipleSegments {
+			greedyEndIndex := urlLen
+			pattern := childNode.pattern
+		GREEDY:
+			for _, greedyChildNode := range childNode.children {
+				for i := urlSegmentIndex; i < urlLen; i++ {
+					if p := m.matchNode(greedyChildNode, urlPath, urlSegments, i); p != nil {
+						pattern = p
+						greedyEndIndex = i
+						break GREEDY
 					}
-					goto END
 				}
-				matched = true
-				urlSegment.matchType = urlSegmentMatchType
-				nodeStack[treeDepth] = stackSegment{
-					currentNodeChildren: ci + 1,
-					urlSegmentIndex:     urlSegmentIndex,
-				}
-				treeDepth++
-				currentNode = childNode
-				goto END
 			}
-		}
-
-	END:
-		if matched {
-			if urlSegmentIndex == urlLen-1 && currentNode.isLeaf() {
-				mc.matchedPattern = currentNode.pattern
-				return currentNode.pattern
-			}
-			urlSegmentIndex++
-		} else {
-			if currentNode.parent != nil {
-				//stack cleanup
-				urlSegmentMatchTypeStack[urlSegmentIndex] = 0
-				nodeStack[treeDepth] = stackSegment{}
-				treeDepth--
-				urlSegmentIndex = nodeStack[treeDepth].urlSegmentIndex
-				currentNode = currentNode.parent
-			} else {
-				break
+			if pattern != nil {
+				for i := urlSegmentIndex; i < greedyEndIndex; i++ {
+					urlSegments[i].matchType = MatchTypeMultipleSegments
+				}
+				return pattern
 			}
+		} else if pattern := m.matchNode(childNode, urlPath, urlSegments, urlSegmentIndex); pattern != nil {
+			return pattern
 		}
 	}
 	return nil
 }
+
+func (m *Matcher) matchNode(n *node, urlPath string, urlSegments []UrlSegment, urlSegmentIndex int) *Pattern {
+	matchType := n.segment.matchUrlPathSegment(urlPath, &urlSegments[urlSegmentIndex], m.caseInsensitive)
+	if matchType == MatchTypeUnknown {
+		return nil
+	}
+	pattern := m.matchChildren(n, urlPath, urlSegments, urlSegmentIndex+1)
+	if pattern != nil {
+		urlSegments[urlSegmentIndex].matchType = matchType
+	}
+	return pattern
+}
-- 
2.43.0


From dc128bcb3cc2512277957c6f5ed10ffb2a8034c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:35 +0000
Subject: [PATCH 02/44] fix: detect duplicated constrained path variables

The regular expression was compared with the whole segment text, so the
same constrained variable never shared a node and duplicates were
accepted.
---
 router/path/matcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index b6125ac..da1b1d7 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -76,7 +76,7 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 					child.segment.matchType == MatchTypeMultipleSegments {
 					hasSameVal = true
 				} else if child.segment.matchType == MatchTypeConstraintCaptureVar {
-					hasSameVal = segment.captureVarPattern.String() == child.segment.val
+					hasSameVal = segment.captureVarPattern.String() == child.segment.captureVarPattern.String()
 				} else {
 					if m.caseInsensitive {
 						hasSameVal = strings.EqualFold(segment.val, child.segment.val)
-- 
2.43.0


From fd11084ee4b7c506e44db0abf6b2cb41bfd0f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:07 +0000
Subject: [PATCH 03/44] fix: make the path matching independent of the
 registration order

A node kept the priority of the pattern that created it, so the order in
which sibling patterns were tried depended on the registration order.
---
 router/path/matcher.go | 44 ++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index da1b1d7..2fee7dc 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -19,6 +19,17 @@ func (n *node) canMatchPathWithLength(urlPathLen uint8) bool {
 	return urlPathLen <= n.maxMatchableSegments
 }
 
+// sortKey returns the text used to order the nodes with the same priority. It depends only on what the node matches
+func (n *node) sortKey(caseInsensitive bool) string {
+	if n.segment.matchType == MatchTypeConstraintCaptureVar {
+		return n.segment.captureVarPattern.String()
+	}
+	if caseInsensitive {
+		return strings.ToLower(n.segment.val)
+	}
+	return n.segment.val
+}
+
 func (n *node) isLeaf() bool {
 	return n.pattern != nil
 }
@@ -89,6 +100,11 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 					if child.maxMatchableSegments < maxMatchableSegments {
 						child.maxMatchableSegments = maxMatchableSegments
 					}
+					// the priority of a node is the one of the most specific pattern that pass through it
+					if pattern.priority < child.priority {
+						child.priority = pattern.priority
+						m.sortChildren(currentNode)
+					}
 					currentNode = child
 					found = true
 					if currentNode.parent != nil {
@@ -110,16 +126,8 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 			if segmentIndex == segmentsLength-1 {
 				newNode.pattern = pattern
 			}
-			children = append(children, newNode)
-			sort.SliceStable(children, func(i, j int) bool {
-				iChild := children[i]
-				jChild := children[j]
-				if iChild.priority == jChild.priority {
-					return strings.Compare(iChild.segment.val, jChild.segment.val) <= 0
-				}
-				return iChild.priority < jChild.priority
-			})
-			currentNode.children = children
+			currentNode.children = append(children, newNode)
+			m.sortChildren(currentNode)
 			currentNode = newNode
 			newNode.maxMatchableSegments = maxMatchableSegments
 			inserted = true
@@ -140,6 +148,22 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 	return nil
 }
 
+// sortChildren sorts the children of a node from the most specific to the most generic one, regardless of the registration order
+func (m *Matcher) sortChildren(parent *node) {
+	children := parent.children
+	sort.SliceStable(children, func(i, j int) bool {
+		iChild := children[i]
+		jChild := children[j]
+		if iChild.segment.matchType != jChild.segment.matchType {
+			return iChild.segment.matchType < jChild.segment.matchType
+		}
+		if iChild.priority != jChild.priority {
+			return iChild.priority < jChild.priority
+		}
+		return iChild.sortKey(m.caseInsensitive) < jChild.sortKey(m.caseInsensitive)
+	})
+}
+
 func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	if len(mc.PathSegments) > MaxPathSegments {
 		return nil
-- 
2.43.0


From 5e9df1899ee1ea878a3058159c12165b392ad04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:09 +0000
Subject: [PATCH 04/44] fix: answer 404 to the paths with too many segments

They were dispatched to the handler registered for the root path.
---
 router/path/matching_context.go | 10 ++++++----
 router/router.go                |  5 ++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 065baea..f02536a 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -88,11 +88,12 @@ func (mc *MatchingContext) PathVar(name string) string {
 	return ""
 }
 
-func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
+// ParseURLPath splits the request path in segments. It returns false if the path has more than MaxPathSegments segments
+func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) bool {
 	requestPath := requestUrl.Path
 	if len(requestPath) == 0 || requestPath == "/" {
 		mc.PathSegments = nil
-		return
+		return true
 	}
 
 	pathLen := len(requestPath)
@@ -127,7 +128,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 			if segmentStartPos != -1 {
 				if !addSegment(segmentStartPos, pos) {
 					mc.PathSegments = nil
-					return
+					return false
 				}
 			}
 			segmentStartPos = pos + 1
@@ -137,11 +138,12 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 	if segmentStartPos != -1 && segmentStartPos < pathLen {
 		if !addSegment(segmentStartPos, pathLen) {
 			mc.PathSegments = nil
-			return
+			return false
 		}
 	}
 	if segmentsIndex == 0 {
 		mc.PathSegments = nil
 	}
 	mc.PathSegments = mc.PathSegments[0:segmentsIndex]
+	return true
 }
diff --git a/router/router.go b/router/router.go
index 8fa6a69..16e6912 100644
--- a/router/router.go
+++ b/router/router.go
@@ -76,7 +76,10 @@ func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 		urlPathSegmentsPool.Put(urlSegmentsPtr)
 	}()
 	mc := path.MatchingContext{R: req, PathSegments: *urlSegmentsPtr}
-	path.ParseURLPath(req.URL, &mc)
+	if !path.ParseURLPath(req.URL, &mc) {
+		w.WriteHeader(http.StatusNotFound)
+		return
+	}
 	httpMethod = strings.ToUpper(httpMethod)
 	matcher := r.endpointMatchers[httpMethod]
 	if matcher == nil {
-- 
2.43.0


From 74806d9ac8ff21a6cba869bd7eb7d148d5544fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:11 +0000
Subject: [PATCH 05/44] fix: support request paths longer than 64KB

The 16 bits segment indexes overflowed, so the router panicked or matched
the wrong text.
---
 router/path/matching_context.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index f02536a..2b0bb2d 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -15,8 +15,8 @@ func (cv *CaptureVar) String() string {
 }
 
 type UrlSegment struct {
-	startIndex uint16
-	endIndex   uint16
+	startIndex uint32
+	endIndex   uint32
 	matchType  MatchType
 }
 
@@ -113,8 +113,8 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) bool {
 				}
 
 				mc.PathSegments[segmentsIndex] = UrlSegment{
-					startIndex: uint16(startIndex),
-					endIndex:   uint16(endIndex),
+					startIndex: uint32(startIndex),
+					endIndex:   uint32(endIndex),
 				}
 				segmentsIndex++
 			}
-- 
2.43.0


From 6969b0dba076dbe7e560beab5497695a4f687593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:21 +0000
Subject: [PATCH 06/44] fix: match the glob segments without panics

The matching loop read past the end of the segment for patterns like
/a*b? or /a*d?, a trailing * did not match the empty text, and ? matched
a byte instead of a character.
---
 router/path/pattern.go | 101 +++++++++++------------------------------
 1 file changed, 26 insertions(+), 75 deletions(-)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index a8ac019..a8485cb 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -6,7 +6,6 @@ import (
 	"math"
 	"regexp"
 	"strings"
-	"unicode"
 )
 
 const greedyPatternMaxMatchableSegments = math.MaxUint8
@@ -178,95 +177,47 @@ func ParsePattern(pathPattern string, caseInsensitive bool) (*Pattern, error) {
 }
 
 func regexSegmentMatch(urlPathSegment string, patternSegment string, caseInsensitive bool) bool {
-	var hasStar bool
-	patternSegmentLen := len(patternSegment)
-	urlPathSegmentLen := len(urlPathSegment)
-	for i := 0; i < patternSegmentLen; i++ {
-		if patternSegment[i] == '*' {
-			hasStar = true
-			break
-		}
-	}
-	if !hasStar && urlPathSegmentLen != patternSegmentLen {
-		return false
-	}
+	uRunes := []rune(urlPathSegment)
+	pRunes := []rune(patternSegment)
+	uLen := len(uRunes)
+	pLen := len(pRunes)
 
-	runesMatches := func(uc uint8, pc uint8) bool {
-		if pc == '?' {
+	runesMatches := func(uc rune, pc rune) bool {
+		if pc == '?' || uc == pc {
 			return true
 		}
-		if caseInsensitive {
-			return unicode.ToUpper(rune(uc)) == unicode.ToUpper(rune(pc))
-		} else {
-			return uc == pc
-		}
+		return caseInsensitive && strings.EqualFold(string(uc), string(pc))
 	}
 
 	var pIndex int
 	var uIndex int
-	var checkPointRestore bool
 	pIndexCheckPoint := -1
 	uIndexCheckPoint := -1
-	for {
-		if pIndex == patternSegmentLen && uIndex == urlPathSegmentLen {
-			return true
-		}
-		if pIndex == patternSegmentLen || uIndex == urlPathSegmentLen {
-			checkPointRestore = true
-		}
-
-		if checkPointRestore {
-			// no checkpoint, meaning that no greedy character found
-			if pIndexCheckPoint == -1 || uIndexCheckPoint == -1 {
-				return false
-			}
-			pIndex = pIndexCheckPoint
-			uIndex = uIndexCheckPoint + 1
-		}
-
-		checkPointRestore = false
-		uc := urlPathSegment[uIndex]
-		pc := patternSegment[pIndex]
-		if pc == '?' {
+	for uIndex < uLen {
+		if pIndex < pLen && pRunes[pIndex] == '*' {
+			// we save the checkpoint: first, the * will try to match nothing
+			pIndexCheckPoint = pIndex
+			uIndexCheckPoint = uIndex
+			pIndex++
+		} else if pIndex < pLen && runesMatches(uRunes[uIndex], pRunes[pIndex]) {
 			pIndex++
 			uIndex++
-		} else if pc == '*' {
-			//skip the next * if exists (example ab****)
-			for i := pIndex + 1; i < patternSegmentLen; i++ {
-				if patternSegment[i] != '*' {
-					pIndex = i - 1
-					break
-				}
-			}
-
-			if pIndex == patternSegmentLen-1 {
-				//the * is the last character in the pattern and matches the rest of the text
-				return true
-			}
-
-			pIndexCheckPoint = -1
-			uIndexCheckPoint = -1
-			pc = patternSegment[pIndex+1]
-			for ; uIndex < urlPathSegmentLen; uIndex++ {
-				uc = urlPathSegment[uIndex]
-				if runesMatches(uc, pc) {
-					// we save the checkpoint and we continue with the next matching
-					pIndexCheckPoint = pIndex
-					uIndexCheckPoint = uIndex
-					pIndex++
-					break
-				}
-			}
+		} else if pIndexCheckPoint != -1 {
+			// restore the checkpoint: the last * should match one more character
+			uIndexCheckPoint++
+			pIndex = pIndexCheckPoint + 1
+			uIndex = uIndexCheckPoint
 		} else {
-			if runesMatches(uc, pc) {
-				pIndex++
-				uIndex++
-			} else {
-				checkPointRestore = true
-			}
+			// no checkpoint, meaning that no greedy character found
+			return false
 		}
 	}
 
+	// the remained * match the empty text
+	for pIndex < pLen && pRunes[pIndex] == '*' {
+		pIndex++
+	}
+	return pIndex == pLen
 }
 
 func determineMatchTypeForSegment(pathSegment string) MatchType {
-- 
2.43.0


From 4004a599f8b10a8e0f79853e14bbe2063f6ea3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:23 +0000
Subject: [PATCH 07/44] fix: ignore the letter case of literals also when it
 changes their length in bytes

---
 router/path/pattern.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index a8485cb..7340208 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -20,16 +20,14 @@ type segment struct {
 func (s *segment) matchUrlPathSegment(urlPath string, urlSegment *UrlSegment, caseInsensitive bool) MatchType {
 	matchType := s.matchType
 	if matchType == MatchTypeLiteral {
-		if int(urlSegment.endIndex-urlSegment.startIndex) == len(s.val) {
-			urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
-			if caseInsensitive {
-				if strings.EqualFold(urlSegmentVal, s.val) {
-					return MatchTypeLiteral
-				}
-			} else {
-				if urlSegmentVal == s.val {
-					return MatchTypeLiteral
-				}
+		urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
+		if caseInsensitive {
+			if strings.EqualFold(urlSegmentVal, s.val) {
+				return MatchTypeLiteral
+			}
+		} else {
+			if urlSegmentVal == s.val {
+				return MatchTypeLiteral
 			}
 		}
 		return MatchTypeUnknown
-- 
2.43.0


From 86c94ca5da13061744db1c1dae43c00532dcf3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:25 +0000
Subject: [PATCH 08/44] fix: nest a path prefix that is equal with the parent's
 one

RouteUsingPathPrefix returned the parent mux itself, so the second prefix
was lost and the common middlewares were shared.
---
 gofre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gofre.go b/gofre.go
index a971934..1198e2c 100644
--- a/gofre.go
+++ b/gofre.go
@@ -164,7 +164,7 @@ func (m *MuxHandler) Clone() *MuxHandler {
 // RouteUsingPathPrefix creates a new MuxHandler that will inherit all the settings from the parent, excepting the path prefix which will be concatenated to the parent path prefix.
 // One important aspect to the new MuxHandler is that, the new added common middlewares will not be shared with the parent.
 func (m *MuxHandler) RouteUsingPathPrefix(pathPrefix string) *MuxHandler {
-	if len(pathPrefix) == 0 || pathPrefix == m.pathPrefix {
+	if len(pathPrefix) == 0 {
 		return m
 	}
 	return &MuxHandler{
-- 
2.43.0


From 07cac52ca18539583fed6d3170fb4cf2a4b838a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:15 +0000
Subject: [PATCH 09/44] fix: reject the path patterns with more segments than
 can be counted

The 8 bits counter overflowed, so such a pattern was registered as a
short one.
---
 router/path/pattern.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index 7340208..14e91a6 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -100,6 +100,10 @@ func ParsePattern(pathPattern string, caseInsensitive bool) (*Pattern, error) {
 		}
 	}
 
+	if maxSegmentsSize >= greedyPatternMaxMatchableSegments {
+		return nil, fmt.Errorf("invalid path pattern: [%s], too many path segments", pathPattern)
+	}
+
 	var pathSegmentStart int
 	var pathSegmentsCount uint8
 	var captureVarsLen uint8
-- 
2.43.0


From 8492e3d26fdf3197c87701a4d9821cf7e67b9882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:15 +0000
Subject: [PATCH 10/44] fix: accept slashes around the context path and the
 assets mapping path

NewMuxHandler panicked when the context path had a trailing slash.
---
 gofre.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gofre.go b/gofre.go
index 1198e2c..8a0efc4 100644
--- a/gofre.go
+++ b/gofre.go
@@ -18,6 +18,7 @@ import (
 	"math/rand"
 	"net/http"
 	"net/http/pprof"
+	"strings"
 	"unsafe"
 )
 
@@ -123,11 +124,8 @@ func NewMuxHandler(config *Config) (*MuxHandler, error) {
 	}
 	r := router.NewRouter(config.CaseInsensitivePathMatch, config.ErrLogFunc)
 	if config.ResourcesConfig != nil {
-		contextPath := config.ContextPath
-		if contextPath == "/" {
-			contextPath = ""
-		}
-		assetsPath := config.ResourcesConfig.AssetsMappingPath
+		contextPath := strings.TrimRight(config.ContextPath, "/")
+		assetsPath := strings.Trim(config.ResourcesConfig.AssetsMappingPath, "/")
 		assetsDirPath := config.ResourcesConfig.AssetsDirPath
 		r.Handle(http.MethodGet, contextPath+"/"+assetsPath+"/**", handler.Handler2Handler(http.StripPrefix(contextPath+"/"+assetsPath+"/", http.FileServer(http.Dir(assetsDirPath)))))
 	}
-- 
2.43.0


From a29e5d506c637de19a7bf27ce87dac719d0af1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:15 +0000
Subject: [PATCH 11/44] fix: do not repeat the last level of a scope

A permission on admin implied the ones on admin/admin.
---
 auth/auth.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/auth/auth.go b/auth/auth.go
index 44a5e4a..ac362e3 100644
--- a/auth/auth.go
+++ b/auth/auth.go
@@ -106,16 +106,13 @@ func (p Permission) Implies(anotherPermission Permission) bool {
 		return false
 	}
 
-	var s string
-	var j int
-	for i := 0; i < len(ipScopeParts); i++ {
-		si := ipScopeParts[i]
-		if j < len(pScopeParts) {
-			s = pScopeParts[j]
-			j++
-		}
-
-		if s != "*" && s != si {
+	lastPart := pScopeParts[len(pScopeParts)-1]
+	if len(ipScopeParts) > len(pScopeParts) && lastPart != "*" {
+		// only the wildcard covers more levels
+		return false
+	}
+	for i := 0; i < len(pScopeParts); i++ {
+		if pScopeParts[i] != "*" && pScopeParts[i] != ipScopeParts[i] {
 			return false
 		}
 	}
-- 
2.43.0


From ea23bff9d6f9b6aaa511cf3f771adb957b09fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 12/44] fix: a denied permission wins for any of the requested
 accesses

A role that allows everything and denies delete had the permission
read|delete, because the deny was checked for all accesses together.
---
 auth/auth.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/auth/auth.go b/auth/auth.go
index ac362e3..03d5026 100644
--- a/auth/auth.go
+++ b/auth/auth.go
@@ -95,6 +95,10 @@ func NewPermission(scope string, access Access) (Permission, error) {
 // Implies returns true if the current Permission implies anotherPermission
 // This function assumes that the scope of the Permission from the argument, does not contain the wildcard (*)
 func (p Permission) Implies(anotherPermission Permission) bool {
+	return p.Access&anotherPermission.Access == anotherPermission.Access && p.coversScope(anotherPermission)
+}
+
+func (p Permission) coversScope(anotherPermission Permission) bool {
 	sep := string(ScopeSeparator)
 	pScopeParts := strings.Split(p.Scope, sep)
 	ipScopeParts := strings.Split(anotherPermission.Scope, sep)
@@ -102,10 +106,6 @@ func (p Permission) Implies(anotherPermission Permission) bool {
 		return false
 	}
 
-	if p.Access&anotherPermission.Access != anotherPermission.Access {
-		return false
-	}
-
 	lastPart := pScopeParts[len(pScopeParts)-1]
 	if len(ipScopeParts) > len(pScopeParts) && lastPart != "*" {
 		// only the wildcard covers more levels
@@ -119,6 +119,11 @@ func (p Permission) Implies(anotherPermission Permission) bool {
 	return true
 }
 
+// denies returns true if at least one access of anotherPermission is covered by the current Permission
+func (p Permission) denies(anotherPermission Permission) bool {
+	return p.Implies(anotherPermission) || p.Access&anotherPermission.Access != 0 && p.coversScope(anotherPermission)
+}
+
 func (p Permission) String() string {
 	return p.Scope + ":" + strconv.Itoa(int(p.Access))
 }
@@ -135,7 +140,7 @@ type Role struct {
 // HasPermission returns true if the current Role has the Permission
 func (r Role) HasPermission(permission Permission) bool {
 	for i := 0; i < len(r.DeniedPermissions); i++ {
-		if r.DeniedPermissions[i].Implies(permission) {
+		if r.DeniedPermissions[i].denies(permission) {
 			return false
 		}
 	}
-- 
2.43.0


From 5356c0145af218f6c86f389b215ae3e977a5689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:48 +0000
Subject: [PATCH 13/44] fix: make the in-memory cache safe for concurrent use

Concurrent requests that used it (CSRF, OAUTH2) crashed the process with
concurrent map accesses.
---
 cache/cache.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 75c262b..5606f98 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -1,6 +1,9 @@
 package cache
 
-import "time"
+import (
+	"sync"
+	"time"
+)
 
 // The Cache interface defines the methods that a cache implementation should have
 type Cache interface {
@@ -14,6 +17,7 @@ type Cache interface {
 
 // InMemory is a simple Cache implementation used for testing and examples
 type InMemory struct {
+	mu    sync.RWMutex
 	cache map[string]time.Time
 }
 
@@ -22,15 +26,21 @@ func NewInMemory() *InMemory {
 }
 
 func (i *InMemory) Add(key string, expiresIn time.Duration) error {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	i.cache[key] = time.Now().Add(expiresIn)
 	return nil
 }
 
 func (i *InMemory) Remove(key string) {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	delete(i.cache, key)
 }
 
 func (i *InMemory) Contains(key string) bool {
+	i.mu.RLock()
+	defer i.mu.RUnlock()
 	t, found := i.cache[key]
 	return found && time.Now().Before(t)
 }
-- 
2.43.0


From f9356001458c428a64e42aecd1dc5d3451a080b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:48 +0000
Subject: [PATCH 14/44] fix: accept a CSRF nonce only once when it is presented
 concurrently

---
 middleware/csrf.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/middleware/csrf.go b/middleware/csrf.go
index 8e9dc85..0aa4705 100644
--- a/middleware/csrf.go
+++ b/middleware/csrf.go
@@ -12,6 +12,7 @@ import (
 	"github.com/ixtendio/gofre/response"
 	"net/http"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -49,10 +50,9 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 				if previousNonce == "" {
 					previousNonce = mc.R.Form.Get(csrfNonceRequestParamName)
 				}
-				if previousNonce == "" || !nonceCache.Contains(previousNonce) {
+				if previousNonce == "" || !useNonce(nonceCache, previousNonce) {
 					return nil, errors.ErrAccessDenied
 				}
-				nonceCache.Remove(previousNonce)
 			}
 
 			newNonce, err := generateNonce()
@@ -68,6 +68,19 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 	}
 }
 
+var nonceMutex sync.Mutex
+
+// useNonce checks and removes a nonce in a single step, so that a nonce can not be used by many concurrent requests
+func useNonce(nonceCache cache.Cache, nonce string) bool {
+	nonceMutex.Lock()
+	defer nonceMutex.Unlock()
+	if !nonceCache.Contains(nonce) {
+		return false
+	}
+	nonceCache.Remove(nonce)
+	return true
+}
+
 func generateNonce() (string, error) {
 	var sb strings.Builder
 
-- 
2.43.0


From 612c4e59c8753db10481d164e3cbb42ca6d5aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 15/44] fix: parse the form before looking for the CSRF nonce

Nothing parsed the request form, so a nonce sent as form parameter was
never found.
---
 middleware/csrf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/csrf.go b/middleware/csrf.go
index 0aa4705..f4add23 100644
--- a/middleware/csrf.go
+++ b/middleware/csrf.go
@@ -48,7 +48,7 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 			if !skipNonceCheck {
 				previousNonce := mc.R.Header.Get(csrfRestNonceHeaderName)
 				if previousNonce == "" {
-					previousNonce = mc.R.Form.Get(csrfNonceRequestParamName)
+					previousNonce = mc.R.FormValue(csrfNonceRequestParamName)
 				}
 				if previousNonce == "" || !useNonce(nonceCache, previousNonce) {
 					return nil, errors.ErrAccessDenied
-- 
2.43.0


From ce78197dd35883d7617353946746d5177f49a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:56 +0000
Subject: [PATCH 16/44] fix: do not execute the handler of the requests
 rejected by CORS

The origin and the method were checked only after the handler ran.
---
 middleware/cors.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index f59d445..4a101c6 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -90,27 +90,27 @@ const (
 func Cors(config CorsConfig) Middleware {
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
-			httpResponse, err := handler(ctx, mc)
-			if err != nil {
-				return nil, err
-			}
+			// the request is checked before, because a rejected request should not reach the handler
+			corsHeaders := response.HttpHeaders{}
 			switch getRequestType(mc.R) {
 			case simpleCorsRequestType, actualCorsRequestType:
-				if err := addSimpleCorsHeaders(mc.R, httpResponse.Headers(), config); err != nil {
+				if err := addSimpleCorsHeaders(mc.R, corsHeaders, config); err != nil {
 					return nil, err
 				}
-				return httpResponse, nil
 			case preFlightCorsRequestType:
-				if err := addPreFlightCorsHeaders(mc.R, httpResponse.Headers(), config); err != nil {
+				if err := addPreFlightCorsHeaders(mc.R, corsHeaders, config); err != nil {
 					return nil, err
 				}
-				return httpResponse, nil
 			case notCorsRequestType:
-				addStandardCorsHeaders(mc.R, httpResponse.Headers(), config)
-				return httpResponse, nil
 			default:
 				return nil, errors.ErrAccessDenied
 			}
+			httpResponse, err := handler(ctx, mc)
+			if err != nil {
+				return nil, err
+			}
+			addStandardCorsHeaders(mc.R, httpResponse.Headers(), config)
+			return httpResponse, nil
 		}
 	}
 }
-- 
2.43.0


From 4b4a4d77d23e7c82ef3fa535e785229cbf0619ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:57 +0000
Subject: [PATCH 17/44] fix: compute the security headers values only once

They were lazily written by the first requests, which is a data race if
these are concurrent.
---
 middleware/security.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/middleware/security.go b/middleware/security.go
index 968f0ce..370537d 100644
--- a/middleware/security.go
+++ b/middleware/security.go
@@ -80,6 +80,9 @@ type SecurityHeadersConfig struct {
 
 // SecurityHeaders provides some security HTTP headers to the response
 func SecurityHeaders(config SecurityHeadersConfig) Middleware {
+	// the header values are computed now and not by the first requests, that might be concurrent
+	config.STS.getHeaderValue()
+	config.ClickJacking.getAntiClickJackingHeaderValue()
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
 			httpResponse, err := handler(ctx, mc)
-- 
2.43.0


From b6c4b038eead4b772bb6f092c293605ac0199426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:57 +0000
Subject: [PATCH 18/44] fix: do not panic when a header is set to a response
 without headers

The headers of a hijacked connection response are nil, so the middlewares
that set headers panicked.
---
 response/response.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/response/response.go b/response/response.go
index 14c92b4..5766d2f 100644
--- a/response/response.go
+++ b/response/response.go
@@ -25,6 +25,10 @@ var httpHeadersPool = sync.Pool{
 type HttpHeaders map[string]string
 
 func (h HttpHeaders) Set(key string, val string) {
+	if h == nil {
+		// the response (a hijacked connection, for example) doesn't support headers
+		return
+	}
 	h[key] = val
 }
 
@@ -58,7 +62,7 @@ type HttpCookies map[string]*http.Cookie
 func (c HttpCookies) Add(cookies ...*http.Cookie) {
 	for i := 0; i < len(cookies); i++ {
 		cookie := cookies[i]
-		if cookie != nil {
+		if c != nil && cookie != nil {
 			id := cookie.Name + ":" + cookie.Path + ":" + cookie.Domain
 			c[id] = cookie
 		}
-- 
2.43.0


From f51b4aeac55626d09269d3156295d64aa61eef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:26 +0000
Subject: [PATCH 19/44] fix: keep the compressed responses consistent with
 their headers

A Content-Length of the response was sent with the compressed body, an
already encoded body was compressed under its own Content-Encoding, the
flushes did not reach the client and a connection could not be hijacked.
---
 response/compress.go | 64 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 9 deletions(-)

diff --git a/response/compress.go b/response/compress.go
index 9e3c587..20eb42f 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -1,11 +1,13 @@
 package response
 
 import (
+	"bufio"
 	"compress/flate"
 	"compress/gzip"
 	"errors"
 	"github.com/ixtendio/gofre/router/path"
 
+	"net"
 	"net/http"
 	"strings"
 )
@@ -50,24 +52,24 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 	if compressAlg == "gzip" {
 		cw, err := gzip.NewWriterLevel(w, r.compressionLevel)
 		if err == nil {
-			delete(r.Headers(), acceptEncodingHeaderName)
-			w.Header().Set(contentEncodingHeaderName, compressAlg)
-			w = &compressResponseWriter{
+			crw := &compressResponseWriter{
 				origResponseWriter: w,
 				compressWriter:     cw,
+				compressAlg:        compressAlg,
 			}
-			defer cw.Close()
+			defer crw.Close()
+			w = crw
 		}
 	} else if compressAlg == "deflate" {
 		cw, err := flate.NewWriter(w, r.compressionLevel)
 		if err == nil {
-			delete(r.Headers(), acceptEncodingHeaderName)
-			w.Header().Set(contentEncodingHeaderName, compressAlg)
-			w = &compressResponseWriter{
+			crw := &compressResponseWriter{
 				origResponseWriter: w,
 				compressWriter:     cw,
+				compressAlg:        compressAlg,
 			}
-			defer cw.Close()
+			defer crw.Close()
+			w = crw
 		}
 	}
 	return r.httpResponse.Write(w, mc)
@@ -93,11 +95,16 @@ func getCompressionAlgorithmFromHeaderValue(acceptEncodingHeaderNameVal string)
 type compressWriter interface {
 	Write(bytes []byte) (int, error)
 	Flush() error
+	Close() error
 }
 
+// compressResponseWriter compresses the response body, excepting the responses without body and the ones already encoded
 type compressResponseWriter struct {
 	origResponseWriter http.ResponseWriter
 	compressWriter     compressWriter
+	compressAlg        string
+	headerWritten      bool
+	compress           bool
 }
 
 func (c *compressResponseWriter) Header() http.Header {
@@ -105,13 +112,52 @@ func (c *compressResponseWriter) Header() http.Header {
 }
 
 func (c *compressResponseWriter) Write(bytes []byte) (int, error) {
+	if !c.headerWritten {
+		c.WriteHeader(http.StatusOK)
+	}
+	if !c.compress {
+		return c.origResponseWriter.Write(bytes)
+	}
 	return c.compressWriter.Write(bytes)
 }
 
 func (c *compressResponseWriter) WriteHeader(statusCode int) {
+	if !c.headerWritten && (statusCode >= 200 || statusCode == http.StatusSwitchingProtocols) {
+		c.headerWritten = true
+		header := c.Header()
+		if statusCode >= 200 && statusCode != http.StatusNoContent && statusCode != http.StatusNotModified &&
+			header.Get(contentEncodingHeaderName) == "" && header.Get("Content-Range") == "" {
+			c.compress = true
+			header.Set(contentEncodingHeaderName, c.compressAlg)
+			// the length of the compressed body is not known
+			header.Del("Content-Length")
+		}
+	}
 	c.origResponseWriter.WriteHeader(statusCode)
 }
 
 func (c *compressResponseWriter) Flush() {
-	c.compressWriter.Flush()
+	if !c.headerWritten {
+		c.WriteHeader(http.StatusOK)
+	}
+	if c.compress {
+		c.compressWriter.Flush()
+	}
+	if flusher, ok := c.origResponseWriter.(http.Flusher); ok {
+		flusher.Flush()
+	}
+}
+
+func (c *compressResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
+	if hj, ok := c.origResponseWriter.(http.Hijacker); ok {
+		return hj.Hijack()
+	}
+	return nil, nil, errors.New("the current http.ResponseWriter doesn't support hijack functionality")
+}
+
+func (c *compressResponseWriter) Close() error {
+	if !c.compress {
+		return nil
+	}
+	return c.compressWriter.Close()
 }
-- 
2.43.0


From 38d9ff3d67bb60110a8c466d6c19cf15bfccff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 20/44] fix: forget the headers and cookies once they are
 recycled

A response kept using the maps it already returned to the pools, so a
second use of it wrote or recycled the headers of another response.
---
 response/headers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/response/headers.go b/response/headers.go
index 37cfb76..1f0d717 100644
--- a/response/headers.go
+++ b/response/headers.go
@@ -39,9 +39,11 @@ func (r *HttpHeadersResponse) Write(w http.ResponseWriter, mc path.MatchingConte
 	defer func() {
 		if r.HttpHeaders != nil {
 			r.HttpHeaders.Release()
+			r.HttpHeaders = nil
 		}
 		if r.HttpCookies != nil {
 			r.HttpCookies.Release()
+			r.HttpCookies = nil
 		}
 	}()
 
-- 
2.43.0


From 4e1413d0a97d47124322dfd8571f29ecd7259045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:20 +0000
Subject: [PATCH 21/44] fix: write the headers and cookies of the redirect
 responses

The ones set by the handler or by the middlewares were dropped.
---
 response/redirect.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/response/redirect.go b/response/redirect.go
index 634adf3..8037bd5 100644
--- a/response/redirect.go
+++ b/response/redirect.go
@@ -12,6 +12,22 @@ type HttpRedirectResponse struct {
 }
 
 func (r *HttpRedirectResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
+	// Write the cookies
+	if r.HttpCookies != nil {
+		for _, cookie := range r.HttpCookies {
+			http.SetCookie(w, cookie)
+		}
+		r.HttpCookies.Release()
+		r.HttpCookies = nil
+	}
+	// Write the headers
+	if r.HttpHeaders != nil {
+		for k, v := range r.HttpHeaders {
+			w.Header().Set(k, v)
+		}
+		r.HttpHeaders.Release()
+		r.HttpHeaders = nil
+	}
 	http.Redirect(w, mc.R, r.Url, r.HttpStatusCode)
 	return nil
 }
-- 
2.43.0


From d5a3039e6efdd9fb83f354ee95a7776e6136966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:43 +0000
Subject: [PATCH 22/44] fix: send the Cache-Control and Connection headers of
 the event streams

They were set after the headers had been written to the client.
---
 response/sse.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index f679c02..26dc037 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -74,14 +74,15 @@ func (r *HttpSSEResponse) Write(w http.ResponseWriter, mc path.MatchingContext)
 	}
 
 	// write the headers
-	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {
-		return err
-	}
-
+	// the headers should be set before the status code is written, otherwise they are not sent
 	header := w.Header()
 	header.Set("Cache-Control", "no-cache")
 	header.Set("Connection", "keep-alive")
 
+	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {
+		return err
+	}
+
 	defer r.flushResponse(w)
 	// get the last event id that was sent
 	lastEventId := mc.R.Header.Get(headerLastEventId)
-- 
2.43.0


From 22d49bfd50b654e8110a8071f73febe463773171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:12 +0000
Subject: [PATCH 23/44] fix: end the event stream of a cancelled request when
 the generator is idle

The cancellation was noticed only when the next event was generated.
---
 response/sse.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index 26dc037..4e6dc24 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -89,19 +89,22 @@ func (r *HttpSSEResponse) Write(w http.ResponseWriter, mc path.MatchingContext)
 	reqCtx := mc.R.Context()
 
 	// read and write the events
-	for evt := range r.EventGenerator(reqCtx, lastEventId) {
+	events := r.EventGenerator(reqCtx, lastEventId)
+	for {
+		// an idle generator should not keep alive a cancelled request
 		select {
 		case <-reqCtx.Done():
 			return nil
-		default:
+		case evt, ok := <-events:
+			if !ok || reqCtx.Err() != nil {
+				return nil
+			}
 			if err := writeTextResponse(w, evt.String()); err != nil {
 				return nil
 			}
 			r.flushResponse(w)
 		}
 	}
-
-	return nil
 }
 
 func (r *HttpSSEResponse) flushResponse(w http.ResponseWriter) {
-- 
2.43.0


From 066a2fa4eaf67ec888bc03ffa6b2fae32b0280f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:13 +0000
Subject: [PATCH 24/44] fix: write every line of an event data as a data field

The text after a new line was taken by the clients as another field.
---
 response/sse.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index 4e6dc24..e77f7b1 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -15,6 +15,8 @@ const eventStreamContentType = "text/event-stream"
 
 var ErrNotHttp2Request = errors.New("rejected, not a HTTP/2 request")
 
+var newLineReplacer = strings.NewReplacer("\r\n", "\n", "\r", "\n")
+
 // ServerSentEvent defines the server-sent event fields. More about server-sent events can be found here: https://developer.mozilla.org/en-US/docs/Web/API/Server-sent_events/Using_server-sent_events
 type ServerSentEvent struct {
 	// A string identifying the type of event described
@@ -36,13 +38,16 @@ func (evt ServerSentEvent) String() string {
 		startDataWithNewLine = true
 	}
 	for _, data := range evt.Data {
-		if !startDataWithNewLine {
-			sb.WriteString("data: ")
-			startDataWithNewLine = true
-		} else {
-			sb.WriteString("\ndata: ")
+		// a new line ends a field, so every line should be a data field
+		for _, line := range strings.Split(newLineReplacer.Replace(data), "\n") {
+			if !startDataWithNewLine {
+				sb.WriteString("data: ")
+				startDataWithNewLine = true
+			} else {
+				sb.WriteString("\ndata: ")
+			}
+			sb.WriteString(line)
 		}
-		sb.WriteString(data)
 	}
 	if evt.Id != "" {
 		sb.WriteString("\nid: ")
-- 
2.43.0


From 396492f1e3d53812985dc8d8d9e7a362aa1e9624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:15 +0000
Subject: [PATCH 25/44] fix: do not panic for incomplete OAUTH2 provider
 replies

GitHub reports the errors with the status 200 and without access token.
---
 auth/oauth/github.go | 16 ++++++++++++----
 auth/oauth/google.go | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 9eaac47..b4b120d 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -83,9 +83,14 @@ func (p GitHubProvider) FetchAccessToken(ctx context.Context, redirectUri string
 	}
 
 	if resp.StatusCode/100 == 2 {
+		token, _ := result["access_token"].(string)
+		if token == "" {
+			return AccessToken{}, fmt.Errorf("the OAUTH2 response from: %s doesn't contain an access token, err: %v", p.Name(), result["error"])
+		}
+		tokenType, _ := result["token_type"].(string)
 		accessToken := AccessToken{
-			AccessToken: result["access_token"].(string),
-			TokenType:   result["token_type"].(string),
+			AccessToken: token,
+			TokenType:   tokenType,
 		}
 
 		if scope, ok := result["scope"].(string); ok {
@@ -124,10 +129,13 @@ func (p GitHubProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 	if resp.StatusCode/100 == 2 {
 		var id string
 		var name string
-		if email, ok := result["email"].(string); ok {
+		if email, ok := result["email"].(string); ok && email != "" {
 			id = email
 		} else {
-			id = result["login"].(string)
+			id, _ = result["login"].(string)
+		}
+		if id == "" {
+			return auth.User{}, fmt.Errorf("the user details response from: %s doesn't contain the user identity", p.Name())
 		}
 		if n, ok := result["name"].(string); ok {
 			name = n
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index aadd90f..622d68e 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -104,9 +104,14 @@ func (p GoogleProvider) FetchAccessToken(ctx context.Context, redirectUri string
 	}
 
 	if resp.StatusCode/100 == 2 {
+		token, _ := result["access_token"].(string)
+		if token == "" {
+			return AccessToken{}, fmt.Errorf("the OAUTH2 response from: %s doesn't contain an access token, err: %v", p.Name(), result["error"])
+		}
+		tokenType, _ := result["token_type"].(string)
 		accessToken := AccessToken{
-			AccessToken: result["access_token"].(string),
-			TokenType:   result["token_type"].(string),
+			AccessToken: token,
+			TokenType:   tokenType,
 		}
 
 		if refreshToken, ok := result["refresh_token"].(string); ok {
@@ -153,10 +158,13 @@ func (p GoogleProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 	if resp.StatusCode/100 == 2 {
 		var id string
 		var name string
-		if email, ok := result["email"].(string); ok {
+		if email, ok := result["email"].(string); ok && email != "" {
 			id = email
 		} else {
-			id = result["id"].(string)
+			id, _ = result["id"].(string)
+		}
+		if id == "" {
+			return auth.User{}, fmt.Errorf("the user details response from: %s doesn't contain the user identity", p.Name())
 		}
 		if n, ok := result["name"].(string); ok {
 			name = n
-- 
2.43.0


From 1215c08733fd7ed78ef470072d235ce36686352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:36 +0000
Subject: [PATCH 26/44] fix: request the GitHub user scopes when no other scope
 is configured

---
 auth/oauth/github.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index b4b120d..3f186fa 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -53,7 +53,7 @@ func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUse
 	if p.Login != "" {
 		urlValues.Add("login", p.Login)
 	}
-	if len(p.Scopes) > 0 {
+	if len(scopes) > 0 {
 		urlValues.Add("scope", strings.Join(scopes, " "))
 	}
 	return GitHubAuthorizeEndpoint + "?" + urlValues.Encode()
-- 
2.43.0


From e597d56094098c123b64dc4c40cf811bbc3f03b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:37 +0000
Subject: [PATCH 27/44] fix: do not write in the configured OAUTH2 scopes

append used the spare capacity of the shared slice, which is a data race.
---
 auth/oauth/github.go | 2 +-
 auth/oauth/google.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 3f186fa..4490c21 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -40,7 +40,7 @@ func (p GitHubProvider) Name() string {
 }
 
 func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUserInfoProfileScope bool) string {
-	scopes := p.Scopes
+	scopes := p.Scopes[:len(p.Scopes):len(p.Scopes)]
 	if includeUserInfoProfileScope {
 		scopes = append(scopes, GitHubUserInfoProfileScopes...)
 	}
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index 622d68e..096c578 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -46,7 +46,7 @@ func (p GoogleProvider) Name() string {
 }
 
 func (p GoogleProvider) InitiateUrl(redirectUri string, state string, includeUserInfoProfileScope bool) string {
-	scopes := p.Scopes
+	scopes := p.Scopes[:len(p.Scopes):len(p.Scopes)]
 	if includeUserInfoProfileScope {
 		//openid email profile
 		scopes = append(scopes, GoogleUserInfoScopes...)
-- 
2.43.0


From 483d9cd998c482f05f3d1f8bef03d3895fa9e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 28/44] fix: declare the form content type of the GitHub access
 token request

---
 auth/oauth/github.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 4490c21..fccf172 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -69,6 +69,7 @@ func (p GitHubProvider) FetchAccessToken(ctx context.Context, redirectUri string
 		return AccessToken{}, fmt.Errorf("failed to create the request to get the OAUTH2 access token from: %s, err: %w", p.Name(), err)
 	}
 
+	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
 	req.Header.Set("Accept", "application/json")
 	resp, err := HttpClient.Do(req)
 
-- 
2.43.0


From ef49d9ca7fc7004fa2a1a566151d461ca9299c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:39 +0000
Subject: [PATCH 29/44] fix: choose the most specific pattern whatever its
 greedy segments match

---
 router/path/matcher.go | 71 ++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 2fee7dc..c2f6ceb 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -2,6 +2,7 @@ package path
 
 import (
 	"errors"
+	"math/bits"
 	"sort"
 	"strings"
 )
@@ -171,60 +172,56 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	if len(mc.PathSegments) == 0 && m.rootPathMatcher != nil {
 		return m.rootPathMatcher
 	}
-	pattern := m.matchChildren(m.trieRoot, urlPath, mc.PathSegments, 0)
+	pattern, _ := m.matchChildren(m.trieRoot, urlPath, mc.PathSegments, 1)
 	if pattern != nil {
 		mc.matchedPattern = pattern
 	}
 	return pattern
 }
 
-// matchChildren matches the URL segments, starting with urlSegmentIndex, against the patterns that continue under the parent node.
-// The children are tried from the most specific to the most generic one, a child that can not match all the remained URL segments being abandoned.
-// The match types are saved in the URL segments only for the pattern that matches
-func (m *Matcher) matchChildren(parent *node, urlPath string, urlSegments []UrlSegment, urlSegmentIndex int) *Pattern {
+// matchChildren searches, in the tree under the parent node, the most specific pattern that matches the URL.
+// The counts argument is a bitmask with the numbers of URL segments that the path from the root to the parent node can match
+// (there are many only after a greedy segment). If a pattern matches, then its match types are saved in the URL segments, and
+// the number of URL segments matched by the parent path is returned too
+func (m *Matcher) matchChildren(parent *node, urlPath string, urlSegments []UrlSegment, counts uint32) (*Pattern, int) {
 	urlLen := len(urlSegments)
-	if urlSegmentIndex == urlLen {
-		return parent.pattern
-	}
-
 	for _, childNode := range parent.children {
-		if !childNode.canMatchPathWithLength(uint8(urlLen - urlSegmentIndex)) {
+		if !childNode.canMatchPathWithLength(uint8(urlLen - (bits.Len32(counts) - 1))) {
 			continue
 		}
 		if childNode.segment.matchType == MatchTypeMultipleSegments {
-			greedyEndIndex := urlLen
-			pattern := childNode.pattern
-		GREEDY:
-			for _, greedyChildNode := range childNode.children {
-				for i := urlSegmentIndex; i < urlLen; i++ {
-					if p := m.matchNode(greedyChildNode, urlPath, urlSegments, i); p != nil {
-						pattern = p
-						greedyEndIndex = i
-						break GREEDY
-					}
-				}
+			matched := bits.TrailingZeros32(counts)
+			// the greedy segment matches any number of segments
+			pattern, end := m.matchChildren(childNode, urlPath, urlSegments, (1<<(urlLen+1)-1)&^(1<<matched-1))
+			if pattern == nil && childNode.isLeaf() && matched < urlLen {
+				pattern, end = childNode.pattern, urlLen
 			}
 			if pattern != nil {
-				for i := urlSegmentIndex; i < greedyEndIndex; i++ {
+				for i := matched; i < end; i++ {
 					urlSegments[i].matchType = MatchTypeMultipleSegments
 				}
-				return pattern
+				return pattern, matched
 			}
-		} else if pattern := m.matchNode(childNode, urlPath, urlSegments, urlSegmentIndex); pattern != nil {
-			return pattern
+			continue
 		}
-	}
-	return nil
-}
 
-func (m *Matcher) matchNode(n *node, urlPath string, urlSegments []UrlSegment, urlSegmentIndex int) *Pattern {
-	matchType := n.segment.matchUrlPathSegment(urlPath, &urlSegments[urlSegmentIndex], m.caseInsensitive)
-	if matchType == MatchTypeUnknown {
-		return nil
-	}
-	pattern := m.matchChildren(n, urlPath, urlSegments, urlSegmentIndex+1)
-	if pattern != nil {
-		urlSegments[urlSegmentIndex].matchType = matchType
+		var childCounts uint32
+		for i := 0; i < urlLen; i++ {
+			if counts&(1<<i) != 0 && childNode.segment.matchUrlPathSegment(urlPath, &urlSegments[i], m.caseInsensitive) != MatchTypeUnknown {
+				childCounts |= 1 << (i + 1)
+			}
+		}
+		if childCounts == 0 {
+			continue
+		}
+		pattern, end := m.matchChildren(childNode, urlPath, urlSegments, childCounts)
+		if pattern == nil && childNode.isLeaf() && childCounts&(1<<urlLen) != 0 {
+			pattern, end = childNode.pattern, urlLen
+		}
+		if pattern != nil {
+			urlSegments[end-1].matchType = childNode.segment.matchType
+			return pattern, end - 1
+		}
 	}
-	return pattern
+	return nil, 0
 }
-- 
2.43.0


From b55c68e8e77099145e99f3b9426122293d768274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:42 +0000
Subject: [PATCH 30/44] fix: count only the segments that remain after the path
 is normalised

---
 router/path/matching_context.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 2b0bb2d..ff168d9 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -99,7 +99,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) bool {
 	pathLen := len(requestPath)
 	var segmentsIndex int
 	segmentStartPos := -1
-	addSegment := func(startIndex int, endIndex int) bool {
+	addSegment := func(startIndex int, endIndex int) {
 		seg := requestPath[segmentStartPos:endIndex]
 		if len(seg) > 0 {
 			if seg == ".." {
@@ -108,38 +108,34 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) bool {
 					segmentsIndex = 0
 				}
 			} else {
-				if segmentsIndex >= MaxPathSegments {
-					return false
-				}
-
-				mc.PathSegments[segmentsIndex] = UrlSegment{
-					startIndex: uint32(startIndex),
-					endIndex:   uint32(endIndex),
+				// the segments over the limit are only counted, because they might be cancelled by '..'
+				if segmentsIndex < MaxPathSegments {
+					mc.PathSegments[segmentsIndex] = UrlSegment{
+						startIndex: uint32(startIndex),
+						endIndex:   uint32(endIndex),
+					}
 				}
 				segmentsIndex++
 			}
 		}
-		return true
 	}
 
 	for pos := 0; pos < pathLen; pos++ {
 		ch := requestPath[pos]
 		if ch == '/' {
 			if segmentStartPos != -1 {
-				if !addSegment(segmentStartPos, pos) {
-					mc.PathSegments = nil
-					return false
-				}
+				addSegment(segmentStartPos, pos)
 			}
 			segmentStartPos = pos + 1
 		}
 	}
 
 	if segmentStartPos != -1 && segmentStartPos < pathLen {
-		if !addSegment(segmentStartPos, pathLen) {
-			mc.PathSegments = nil
-			return false
-		}
+		addSegment(segmentStartPos, pathLen)
+	}
+	if segmentsIndex > MaxPathSegments {
+		mc.PathSegments = nil
+		return false
 	}
 	if segmentsIndex == 0 {
 		mc.PathSegments = nil
-- 
2.43.0


From 861bb64626cbfd4e2840827b985757263b33314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 31/44] fix: do not hang when a pattern has greedy segments and
 more segments than a path can have

---
 router/path/encode.go | 66 +++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 40 deletions(-)

diff --git a/router/path/encode.go b/router/path/encode.go
index 2f58c9d..e458de8 100644
--- a/router/path/encode.go
+++ b/router/path/encode.go
@@ -13,56 +13,42 @@ const (
 	MatchTypeMultipleSegments     = MatchType(6)
 )
 
+// computePriority encodes the match types of the segments as a decimal number with MaxPathSegments digits.
+// The missing digits are filled by repeating the greedy segments (the first one takes the remainder) or, if there are no such
+// segments, with zeros. Only the first MaxPathSegments segments are encoded
 func computePriority(segments []*segment) uint64 {
 	var priority uint64
-	var multiplePathsMatcherSegmentsCount int
-	digitsCount := len(segments)
-	for i := 0; i < digitsCount; i++ {
-		mt := segments[i].matchType
-		if mt == MatchTypeMultipleSegments {
-			multiplePathsMatcherSegmentsCount++
+	var digitsCount int
+	addDigits := func(mt MatchType, count int) {
+		for i := 0; i < count && digitsCount < MaxPathSegments; i++ {
+			priority = priority*10 + uint64(mt)
+			digitsCount++
 		}
-		priority = priority*10 + uint64(mt)
 	}
 
-	if multiplePathsMatcherSegmentsCount == 0 {
-		return priority * getDecimalDivider(MaxPathSegments-digitsCount)
-	} else {
-		digitsPerSegmentToAdd := (MaxPathSegments - digitsCount) / multiplePathsMatcherSegmentsCount
-		digitsPerSegmentReminderToAdd := (MaxPathSegments - digitsCount) % multiplePathsMatcherSegmentsCount
-
-		var getSplitIndex = func(nr uint64, dividerDigits int) int {
-			var splitIndex int
-			m := getDecimalDivider(dividerDigits)
-			for n := nr; n > 0; n = n / m {
-				if MatchType(n%10) == MatchTypeMultipleSegments {
-					break
-				}
-				splitIndex++
-			}
-			return splitIndex + dividerDigits
+	var greedySegmentsCount int
+	for i := 0; i < len(segments); i++ {
+		if segments[i].matchType == MatchTypeMultipleSegments {
+			greedySegmentsCount++
 		}
+	}
 
-		dividerDigits := 1
-		for i := 0; i < multiplePathsMatcherSegmentsCount; i++ {
-			splitIndex := getSplitIndex(priority, dividerDigits)
-			m := getDecimalDivider(splitIndex)
-			n := priority / m
-			r := priority % m
-			digitsToAdd := digitsPerSegmentToAdd
-			if i == multiplePathsMatcherSegmentsCount-1 {
-				digitsToAdd += digitsPerSegmentReminderToAdd
-			}
+	var digitsPerGreedySegment int
+	var digitsReminder int
+	if greedySegmentsCount > 0 && len(segments) < MaxPathSegments {
+		digitsPerGreedySegment = (MaxPathSegments - len(segments)) / greedySegmentsCount
+		digitsReminder = (MaxPathSegments - len(segments)) % greedySegmentsCount
+	}
 
-			for j := 0; j < digitsToAdd; j++ {
-				n = n*10 + uint64(MatchTypeMultipleSegments)
-			}
-			priority = n*m + r
-			dividerDigits = splitIndex + digitsToAdd
+	for i := 0; i < len(segments); i++ {
+		mt := segments[i].matchType
+		addDigits(mt, 1)
+		if mt == MatchTypeMultipleSegments {
+			addDigits(mt, digitsPerGreedySegment+digitsReminder)
+			digitsReminder = 0
 		}
-
-		return priority
 	}
+	return priority * getDecimalDivider(MaxPathSegments-digitsCount)
 }
 
 func getDecimalDivider(zeroCount int) uint64 {
-- 
2.43.0


From 90adcffcdb81796fc761aa34cc22dad89577472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:45 +0000
Subject: [PATCH 32/44] fix: recover also from the panics with a nil value

---
 middleware/panic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/middleware/panic.go b/middleware/panic.go
index 64c7325..25cbcdd 100644
--- a/middleware/panic.go
+++ b/middleware/panic.go
@@ -14,12 +14,15 @@ import (
 func PanicRecover() Middleware {
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (resp response.HttpResponse, err error) {
+			panicking := true
 			defer func() {
-				if r := recover(); r != nil {
+				// when the panic value is nil, recover returns nil as well
+				if r := recover(); r != nil || panicking {
 					err = fmt.Errorf("recover from panic, stack: [%s]", string(debug.Stack()))
 				}
 			}()
 			resp, err = handler(ctx, mc)
+			panicking = false
 			return resp, err
 		}
 	}
-- 
2.43.0


From 972c538e90075849a42c4c2aa72644afbd1dcd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:22 +0000
Subject: [PATCH 33/44] fix: generate the OAUTH2 states from a cryptographic
 source

---
 gofre.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gofre.go b/gofre.go
index 8a0efc4..1fb24b4 100644
--- a/gofre.go
+++ b/gofre.go
@@ -2,6 +2,7 @@ package gofre
 
 import (
 	"context"
+	"crypto/rand"
 	"expvar"
 	"fmt"
 	"github.com/ixtendio/gofre/auth"
@@ -15,7 +16,7 @@ import (
 	"github.com/ixtendio/gofre/router"
 	"html/template"
 	"log"
-	"math/rand"
+	"math/big"
 	"net/http"
 	"net/http/pprof"
 	"strings"
@@ -355,8 +356,14 @@ var uniqueIdFunc = generateUniqueId
 
 func generateUniqueId(length int) string {
 	b := make([]byte, length)
+	lettersCount := big.NewInt(int64(len(randLetters)))
 	for i := range b {
-		b[i] = randLetters[rand.Int63()%int64(len(randLetters))]
+		// the ids protect against forgery so, they should not be guessable
+		n, err := rand.Int(rand.Reader, lettersCount)
+		if err != nil {
+			panic(fmt.Sprintf("failed to generate a random id, err: %v", err))
+		}
+		b[i] = randLetters[n.Int64()]
 	}
 	return *(*string)(unsafe.Pointer(&b))
 }
-- 
2.43.0


From 0a7da57655ec23849d8025ec80c8f4e6366e279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:40 +0000
Subject: [PATCH 34/44] fix: keep the error texts that start with a non ASCII
 character

---
 response/json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/response/json.go b/response/json.go
index 85a2a28..91a75c7 100644
--- a/response/json.go
+++ b/response/json.go
@@ -7,6 +7,7 @@ import (
 
 	"net/http"
 	"strings"
+	"unicode/utf8"
 )
 
 const jsonContentType = "application/json"
@@ -112,5 +113,7 @@ func errorToString(err error) string {
 		return ""
 	}
 	errMsg := err.Error()
-	return strings.ToUpper(errMsg[0:1]) + errMsg[1:]
+	// the first character might have more than one byte
+	_, size := utf8.DecodeRuneInString(errMsg)
+	return strings.ToUpper(errMsg[:size]) + errMsg[size:]
 }
-- 
2.43.0


From 2929e0e5537b3f7ae5f4b40fa9270e1cc2878a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:16 +0000
Subject: [PATCH 35/44] fix: report the redirects with an invalid status
 instead of panicking

---
 response/redirect.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/response/redirect.go b/response/redirect.go
index 8037bd5..acb462e 100644
--- a/response/redirect.go
+++ b/response/redirect.go
@@ -1,6 +1,7 @@
 package response
 
 import (
+	"errors"
 	"github.com/ixtendio/gofre/router/path"
 	"net/http"
 )
@@ -12,6 +13,10 @@ type HttpRedirectResponse struct {
 }
 
 func (r *HttpRedirectResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
+	statusCode := r.StatusCode()
+	if statusCode < 100 || statusCode > 999 {
+		return errors.New("http status code should be between 100 and 999")
+	}
 	// Write the cookies
 	if r.HttpCookies != nil {
 		for _, cookie := range r.HttpCookies {
@@ -28,7 +33,7 @@ func (r *HttpRedirectResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 		r.HttpHeaders.Release()
 		r.HttpHeaders = nil
 	}
-	http.Redirect(w, mc.R, r.Url, r.HttpStatusCode)
+	http.Redirect(w, mc.R, r.Url, statusCode)
 	return nil
 }
 
-- 
2.43.0


From 5979c25414e1d8665397649a355a8e6f57df857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:16 +0000
Subject: [PATCH 36/44] fix: dump the request headers as they were before
 processing

---
 middleware/dump.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/dump.go b/middleware/dump.go
index 0217f7f..b531635 100644
--- a/middleware/dump.go
+++ b/middleware/dump.go
@@ -29,7 +29,8 @@ func RequestDumper(logger func(val string)) Middleware {
 			requestMap["contentLength"] = mc.R.ContentLength
 			requestMap["host"] = mc.R.Host
 			requestMap["isSecure"] = mc.R.TLS != nil
-			requestMap["header"] = mc.R.Header
+			// the handler might change the headers
+			requestMap["header"] = mc.R.Header.Clone()
 			requestMap["formFields"] = mc.R.Form
 			var cookies []string
 			for _, c := range mc.R.Cookies() {
-- 
2.43.0


From d82f0841258d2c3feec0caefecb5b7129e021155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:19 +0000
Subject: [PATCH 37/44] fix: ignore the letter case of the response header
 names

---
 middleware/cors.go   |  2 +-
 response/response.go | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index 4a101c6..4980812 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -203,7 +203,7 @@ func addStandardCorsHeaders(r *http.Request, responseHeaders response.HttpHeader
 
 func addVaryHeader(responseHeaders response.HttpHeaders, name string) {
 	var varyHeaders []string
-	if vh, found := responseHeaders[varyHeader]; found && len(vh) > 0 {
+	if vh := responseHeaders.Get(varyHeader); len(vh) > 0 {
 		for _, v := range strings.Split(vh, ",") {
 			varyHeaders = append(varyHeaders, strings.TrimSpace(v))
 		}
diff --git a/response/response.go b/response/response.go
index 5766d2f..5aa3107 100644
--- a/response/response.go
+++ b/response/response.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"net/http"
 	"reflect"
+	"strings"
 	"sync"
 	"unsafe"
 )
@@ -29,9 +30,28 @@ func (h HttpHeaders) Set(key string, val string) {
 		// the response (a hijacked connection, for example) doesn't support headers
 		return
 	}
+	// the header names are case-insensitive
+	for k := range h {
+		if k != key && strings.EqualFold(k, key) {
+			delete(h, k)
+		}
+	}
 	h[key] = val
 }
 
+// Get returns the value of the header, ignoring the letter case of its name, or an empty string if the header is missing
+func (h HttpHeaders) Get(key string) string {
+	if val, found := h[key]; found {
+		return val
+	}
+	for k, v := range h {
+		if strings.EqualFold(k, key) {
+			return v
+		}
+	}
+	return ""
+}
+
 // Clear all the data from the map
 func (h HttpHeaders) Clear() {
 	for k := range h {
-- 
2.43.0


From e91f9b30c8cec83114bcfc0e86c45714e31d7961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:38 +0000
Subject: [PATCH 38/44] fix: serve the index page of the assets directory

---
 gofre.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gofre.go b/gofre.go
index 1fb24b4..6148527 100644
--- a/gofre.go
+++ b/gofre.go
@@ -19,6 +19,7 @@ import (
 	"math/big"
 	"net/http"
 	"net/http/pprof"
+	"path/filepath"
 	"strings"
 	"unsafe"
 )
@@ -128,7 +129,7 @@ func NewMuxHandler(config *Config) (*MuxHandler, error) {
 		contextPath := strings.TrimRight(config.ContextPath, "/")
 		assetsPath := strings.Trim(config.ResourcesConfig.AssetsMappingPath, "/")
 		assetsDirPath := config.ResourcesConfig.AssetsDirPath
-		r.Handle(http.MethodGet, contextPath+"/"+assetsPath+"/**", handler.Handler2Handler(http.StripPrefix(contextPath+"/"+assetsPath+"/", http.FileServer(http.Dir(assetsDirPath)))))
+		r.Handle(http.MethodGet, contextPath+"/"+assetsPath+"/**", handler.Handler2Handler(http.StripPrefix(contextPath+"/"+assetsPath+"/", assetsHandler(assetsDirPath))))
 	}
 	return &MuxHandler{
 		router:    r,
@@ -136,6 +137,18 @@ func NewMuxHandler(config *Config) (*MuxHandler, error) {
 	}, nil
 }
 
+func assetsHandler(assetsDirPath string) http.Handler {
+	fileServer := http.FileServer(http.Dir(assetsDirPath))
+	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+		if r.URL.Path == "index.html" {
+			// the file server redirects the index pages to their directories, but the assets directory itself is not mapped
+			http.ServeFile(w, r, filepath.Join(assetsDirPath, "index.html"))
+			return
+		}
+		fileServer.ServeHTTP(w, r)
+	})
+}
+
 // Config returns a Config copy
 func (m *MuxHandler) Config() Config {
 	return *m.webConfig
-- 
2.43.0


From 066a82553f0fa0ff4fcc5d7e7dfc7373685cd698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:19 +0000
Subject: [PATCH 39/44] fix: recognise the same origin when the request URL has
 a port

---
 middleware/cors.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index 4980812..23f7881 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -304,9 +304,10 @@ func isSameOrigin(reqUrl *url.URL, origin string) bool {
 	var sb strings.Builder
 	sb.WriteString(scheme)
 	sb.WriteString("://")
-	sb.WriteString(reqUrl.Host)
-
 	port := reqUrl.Port()
+	// the host without the port
+	sb.WriteString(strings.TrimSuffix(reqUrl.Host, ":"+port))
+
 	if port == "" {
 		if scheme == "https" || scheme == "wss" {
 			port = "443"
-- 
2.43.0


From 87163997bebca68bd1bb7e1b5e1bbcbfb2f77ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:02 +0000
Subject: [PATCH 40/44] fix: accept the constraints that end with a colon

---
 router/path/pattern.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index 14e91a6..3286755 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -272,6 +272,8 @@ func validatePathSegment(pathSegment string) error {
 				if pos == pathSegmentLen-2 {
 					return errors.New("empty capture regex constraint")
 				}
+				// the other colons belong to the constraint
+				break
 			}
 		}
 	}
-- 
2.43.0


From 2562297a54c75beb246f7193f881d28d89ad2afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 41/44] fix: check the requested headers of every
 Access-Control-Request-Headers line

---
 middleware/cors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index 23f7881..70d031b 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -152,7 +152,7 @@ func addPreFlightCorsHeaders(r *http.Request, responseHeaders response.HttpHeade
 	}
 
 	// Section 6.2.4
-	accessControlRequestHeadersHeader := strings.TrimSpace(r.Header.Get(requestHeaderAccessControlRequestHeaders))
+	accessControlRequestHeadersHeader := strings.Join(r.Header.Values(requestHeaderAccessControlRequestHeaders), ",")
 	for _, h := range strings.Split(accessControlRequestHeadersHeader, ",") {
 		h = strings.TrimSpace(h)
 		if h != "" && !config.containsAllowedHeaderCaseInsensitive(strings.TrimSpace(h)) {
-- 
2.43.0


From 9b5f42294247a04ee85d157b02209c3602285c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:14 +0000
Subject: [PATCH 42/44] fix: serve the profiles of the debug endpoints below a
 path prefix

---
 gofre.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gofre.go b/gofre.go
index 6148527..6252d1e 100644
--- a/gofre.go
+++ b/gofre.go
@@ -332,12 +332,12 @@ func (m *MuxHandler) resolvePath(path string) string {
 func (m MuxHandler) EnableDebugEndpoints() {
 	// Register all the standard library debug endpoints.
 	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/allocs"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/block"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/goroutine"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/heap"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/mutex"), handler.HandlerFunc2Handler(pprof.Index))
-	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/threadcreate"), handler.HandlerFunc2Handler(pprof.Index))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/allocs"), handler.Handler2Handler(pprof.Handler("allocs")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/block"), handler.Handler2Handler(pprof.Handler("block")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/goroutine"), handler.Handler2Handler(pprof.Handler("goroutine")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/heap"), handler.Handler2Handler(pprof.Handler("heap")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/mutex"), handler.Handler2Handler(pprof.Handler("mutex")))
+	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/threadcreate"), handler.Handler2Handler(pprof.Handler("threadcreate")))
 	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/cmdline"), handler.HandlerFunc2Handler(pprof.Cmdline))
 	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/profile"), handler.HandlerFunc2Handler(pprof.Profile))
 	m.router.Handle(http.MethodGet, m.resolvePath("/debug/pprof/symbol"), handler.HandlerFunc2Handler(pprof.Symbol))
-- 
2.43.0


From 5a0a2710e6d4ace1e6c687b6e7334b02e7eb95be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:46 +0000
Subject: [PATCH 43/44] fix: keep the values of the path variables when a
 middleware hands down a request for another path

---
 router/path/matcher.go          | 1 +
 router/path/matching_context.go | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index c2f6ceb..c941963 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -175,6 +175,7 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	pattern, _ := m.matchChildren(m.trieRoot, urlPath, mc.PathSegments, 1)
 	if pattern != nil {
 		mc.matchedPattern = pattern
+		mc.matchedPath = urlPath
 	}
 	return pattern
 }
diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index ff168d9..00fd369 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -29,7 +29,9 @@ func (s *UrlSegment) Reset() {
 type MatchingContext struct {
 	R              *http.Request
 	matchedPattern *Pattern
-	PathSegments   []UrlSegment
+	// the path that was matched, R might be replaced later with a request for another path
+	matchedPath  string
+	PathSegments []UrlSegment
 }
 
 func (mc *MatchingContext) Clone() MatchingContext {
@@ -46,6 +48,7 @@ func (mc *MatchingContext) Clone() MatchingContext {
 	return MatchingContext{
 		R:              mc.R,
 		matchedPattern: mc.matchedPattern,
+		matchedPath:    mc.matchedPath,
 		PathSegments:   segments,
 	}
 }
@@ -74,7 +77,7 @@ func (mc *MatchingContext) PathVar(name string) string {
 		return ""
 	}
 
-	matchingPath := mc.R.URL.Path
+	matchingPath := mc.matchedPath
 	for i := 0; i < len(mc.PathSegments); i++ {
 		urlSegment := &mc.PathSegments[i]
 		if urlSegment.matchType == MatchTypeCaptureVar ||
-- 
2.43.0


From 9a1d16f4fd0d62e195727816ccc7308855e09bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:12 +0000
Subject: [PATCH 44/44] fix: the request dumper reports the form fields the
 request arrived with

---
 middleware/dump.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/middleware/dump.go b/middleware/dump.go
index b531635..bf64ccf 100644
--- a/middleware/dump.go
+++ b/middleware/dump.go
@@ -8,6 +8,7 @@ import (
 	"github.com/ixtendio/gofre/router/path"
 
 	"github.com/ixtendio/gofre/response"
+	"net/http"
 	"time"
 	"unsafe"
 )
@@ -29,9 +30,9 @@ func RequestDumper(logger func(val string)) Middleware {
 			requestMap["contentLength"] = mc.R.ContentLength
 			requestMap["host"] = mc.R.Host
 			requestMap["isSecure"] = mc.R.TLS != nil
-			// the handler might change the headers
+			// the handler might change the headers and the form fields
 			requestMap["header"] = mc.R.Header.Clone()
-			requestMap["formFields"] = mc.R.Form
+			requestMap["formFields"] = http.Header(mc.R.Form).Clone()
 			var cookies []string
 			for _, c := range mc.R.Cookies() {
 				if c != nil {
-- 
2.43.0

