From 02a43ebfa2aab12893104c8a1418332e268ded43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:25 +0000
Subject: [PATCH 01/44] fix: do not panic on style declarations without a value

---
 domparser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/domparser.go b/domparser.go
index b1e5d88..c281ec2 100644
--- a/domparser.go
+++ b/domparser.go
@@ -805,10 +805,9 @@ func (s *style) getStyle(jsName string) string {
 
 	var styles = strings.Split(attr, ";")
 	for i := 0; i < len(styles); i++ {
-		var style = strings.Split(styles[i], ":")
-		var name = strings.TrimSpace(style[0])
-		if name == cssName {
-			return strings.TrimSpace(style[1])
+		var name, value, found = strings.Cut(styles[i], ":")
+		if found && strings.TrimSpace(name) == cssName {
+			return strings.TrimSpace(value)
 		}
 	}
 	return ""
-- 
2.43.0


From 924b72ea3560e24063912d73fca2b4e5afb1b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:42 +0000
Subject: [PATCH 02/44] fix: do not panic on blank link and media URIs

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 1045860..5b4e434 100644
--- a/readability.go
+++ b/readability.go
@@ -269,7 +269,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 	var toAbsoluteURI = func(uri string) string {
 		uri = strings.TrimSpace(uri)
 		// Leave hash links alone if the base URI matches the document URI:
-		if baseURI == documentURI && []rune(uri)[0] == '#' {
+		if baseURI == documentURI && strings.HasPrefix(uri, "#") {
 			return uri
 		}
 		base, err := url.Parse(baseURI)
-- 
2.43.0


From 2b5d84ba2a004c7307c843ce4c8a95d06d9c9ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:40 +0000
Subject: [PATCH 03/44] fix: resolve percent-encoded, userinfo and non-http
 URIs per RFC 3986

Relative references with percent escapes lost the base directory
(http://hosta%20b.html), hierarchical non-http schemes lost their //
(ftp:host/path), userinfo was dropped and escaped delimiters in the path
were unescaped.
---
 readability.go | 54 ++++----------------------------------------------
 regexps.go     | 13 ++++++------
 2 files changed, 10 insertions(+), 57 deletions(-)

diff --git a/readability.go b/readability.go
index 5b4e434..a5e531a 100644
--- a/readability.go
+++ b/readability.go
@@ -283,60 +283,14 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 			return uri
 		}
 		u := base.ResolveReference(ref)
-		var abs string
-		if u.Scheme != "" {
-			abs += u.Scheme
-			if strings.HasPrefix(u.Scheme, "http") {
-				abs += "://"
-			} else {
-				abs += ":"
-			}
-		}
-		abs += strings.ToLower(u.Host)
-
-		var b, a string
-		if strings.Contains(uri, "?") {
-			before, _, _ := strings.Cut(uri, "?")
-			b = before
-		} else if strings.Contains(uri, "#") {
-			before, after, _ := strings.Cut(uri, "#")
-			b = before
-			a = after
-		} else {
-			b = uri
-		}
-
-		if u.Path != "" {
-			p := u.Path
-			if strings.Contains(uri, "%") {
-				if strings.HasPrefix(uri, "//") {
-					p = doubleForwardSlashes.ReplaceAllString(b, "")
-				} else {
-					p = strings.ReplaceAll(b, abs, "")
-				}
-			}
-			abs += strings.ReplaceAll(p, "/C|/", "/C:/")
-		} else if u.Opaque != "" {
-			abs += u.Opaque
-		} else {
-			abs += "/"
-		}
-		if u.RawQuery != "" {
-			abs += "?" + u.RawQuery
-		}
-		if u.Fragment != "" {
-			if strings.Contains(a, "%") {
-				abs += "#" + a
-			} else {
-				abs += "#" + u.Fragment
-			}
+		u.Host = strings.ToLower(u.Host)
+		if u.Host != "" && u.Path == "" {
+			u.Path = "/"
 		}
+		abs := strings.ReplaceAll(u.String(), "/C%7C/", "/C:/")
 		if strings.HasSuffix(uri, "#") && !strings.HasSuffix(abs, "#") {
 			abs += "#"
 		}
-		if strings.HasSuffix(uri, "?") && !strings.HasSuffix(abs, "?") {
-			abs += "?"
-		}
 		return abs
 	}
 
diff --git a/regexps.go b/regexps.go
index 34c0b95..b14be85 100644
--- a/regexps.go
+++ b/regexps.go
@@ -36,13 +36,12 @@ var (
 	singleWhitespace     = regexp.MustCompile(`\s`)
 	singleDot            = regexp.MustCompile(`\.`)
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
-	entityReferencesRgx  = regexp.MustCompile(`&(quot|amp|apos|lt|gt);`)
-	htmlCharCodesRgx     = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
-	doubleForwardSlashes = regexp.MustCompile(`//[^/]+`)
-	separators           = regexp.MustCompile(`[\|\-\\\/>»]+`)
-	dotSpaceOrDollar     = regexp.MustCompile(`\.( |$)`)
-	cdata                = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
-	schemaUrl            = regexp.MustCompile(`^https?\:\/\/schema\.org\/?$`)
+	entityReferencesRgx = regexp.MustCompile(`&(quot|amp|apos|lt|gt);`)
+	htmlCharCodesRgx    = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
+	separators          = regexp.MustCompile(`[\|\-\\\/>»]+`)
+	dotSpaceOrDollar    = regexp.MustCompile(`\.( |$)`)
+	cdata               = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
+	schemaUrl           = regexp.MustCompile(`^https?\:\/\/schema\.org\/?$`)
 	// property is a space-separated list of values
 	propertyPattern = regexp.MustCompile(`(?i)\s*(article|dc|dcterm|og|twitter)\s*:\s*(author|creator|description|published_time|title|site_name)\s*`)
 	// name is a single value
-- 
2.43.0


From 578aaa1fdede3b9ea8031a55842f522a337c8fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:46 +0000
Subject: [PATCH 04/44] fix: do not panic on JSON-LD values of unexpected types

---
 readability.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/readability.go b/readability.go
index a5e531a..bb239bc 100644
--- a/readability.go
+++ b/readability.go
@@ -1283,7 +1283,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 			}
 
 			ctx, ctxFound := parsed["@context"]
-			if !ctxFound || !schemaUrl.MatchString(ctx.(string)) {
+			ctxStr, ctxIsStr := ctx.(string)
+			if !ctxFound || !ctxIsStr || !schemaUrl.MatchString(ctxStr) {
 				continue
 			}
 
@@ -1308,7 +1309,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				}
 			}
 
-			if parsed == nil || parsed["@type"] == nil || !jsonLdArticleTypes.MatchString(parsed["@type"].(string)) {
+			typeStr, typeIsStr := parsed["@type"].(string)
+			if !typeIsStr || !jsonLdArticleTypes.MatchString(typeStr) {
 				continue
 			}
 
@@ -1356,8 +1358,11 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 								if _, isStr := authorName.(string); isStr {
 									var authorNames []string
 									for _, a := range authors {
-										n := a.(map[string]interface{})["name"].(string)
-										authorNames = append(authorNames, strings.TrimSpace(n))
+										// skip the authors without a name
+										aMap, _ := a.(map[string]interface{})
+										if n, ok := aMap["name"].(string); ok {
+											authorNames = append(authorNames, strings.TrimSpace(n))
+										}
 									}
 									meta.byline = strings.Join(authorNames, ", ")
 								}
-- 
2.43.0


From 12bd99d0d4870f9c615317584a1e2ddb027fae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:09 +0000
Subject: [PATCH 05/44] fix: do not panic on data URIs with an upper-case
 base64 marker

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index b14be85..9f87f55 100644
--- a/regexps.go
+++ b/regexps.go
@@ -47,7 +47,7 @@ var (
 	// name is a single value
 	namePattern                   = regexp.MustCompile(`(?i)^\s*(?:(dc|dcterm|og|twitter|weibo:(article|webpage))\s*[\.:]\s*)?(author|creator|description|title|site_name)\s*$`)
 	imgExtensions                 = regexp.MustCompile(`\.(jpg|jpeg|png|webp)`)
-	base64Starts                  = regexp.MustCompile(`base64\s*`)
+	base64Starts                  = regexp.MustCompile(`(?i)base64\s*`)
 	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`\.(jpg|jpeg|png|webp)\s+\d`)
 	imgExtensionsAmongText        = regexp.MustCompile(`^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
 )
-- 
2.43.0


From 6e82170b42b1c77d5529534b9436b5a9038f3868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:15 +0000
Subject: [PATCH 06/44] fix: do not panic on a nil allowed video regex

---
 readability.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index bb239bc..b226a43 100644
--- a/readability.go
+++ b/readability.go
@@ -1734,13 +1734,13 @@ func (r *Readability) clean(e *Node, tag string) {
 		if isEmbed {
 			// First, check the elements attributes to see if any of them contain youtube or vimeo
 			for i := 0; i < len(element.Attributes); i++ {
-				if r.options.allowedVideoRegex.MatchString(element.Attributes[i].getValue()) {
+				if r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(element.Attributes[i].getValue()) {
 					return false
 				}
 			}
 
 			// For embed with <object> tag, check inner HTML as well.
-			if element.TagName == "object" && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
+			if element.TagName == "object" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
 				return false
 			}
 		}
-- 
2.43.0


From 5125993d0b4b12dbaff4c950516257d102a72f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:30 +0000
Subject: [PATCH 07/44] fix: keep object embeds whose content is an allowed
 video

Tag names are upper-case in this DOM, so the inner HTML of <object>
elements was never looked at.
---
 readability.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index b226a43..936c0ca 100644
--- a/readability.go
+++ b/readability.go
@@ -1740,7 +1740,7 @@ func (r *Readability) clean(e *Node, tag string) {
 			}
 
 			// For embed with <object> tag, check inner HTML as well.
-			if element.TagName == "object" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
+			if element.TagName == "OBJECT" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
 				return false
 			}
 		}
@@ -2032,7 +2032,7 @@ func (r *Readability) cleanConditionally(e *Node, tag string) {
 				}
 
 				// For embed with <object> tag, check inner HTML as well.
-				if embeds[i].TagName == "object" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(embeds[i].GetInnerHTML()) {
+				if embeds[i].TagName == "OBJECT" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(embeds[i].GetInnerHTML()) {
 					return false
 				}
 
-- 
2.43.0


From e5170219d3e288190618d70c9741f1058a61815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:06 +0000
Subject: [PATCH 08/44] fix: never drop the root or the body while looking for
 the article

A hidden or byline-like <html> or <body> was detached on the first pass,
which left its content uncleaned and crashed the next pass.
---
 readability.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/readability.go b/readability.go
index 936c0ca..e029109 100644
--- a/readability.go
+++ b/readability.go
@@ -797,6 +797,13 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				r.articleLang = n.GetAttribute("lang")
 			}
 
+			// The root and the page itself must stay in the document: the nodes below them
+			// would be neither cleaned nor scored, and there would be nothing to retry on.
+			if n == r.doc.DocumentElement || n == page {
+				n = r.getNextNode(n, false)
+				continue
+			}
+
 			var matchString = n.GetClassName() + " " + n.GetId()
 
 			if !isProbablyVisible(n) {
-- 
2.43.0


From 00f065d4d44161b9ccc41e3db918df0b26e4a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:12 +0000
Subject: [PATCH 09/44] fix: clean and score documents without an html element

---
 readability.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/readability.go b/readability.go
index e029109..5de8978 100644
--- a/readability.go
+++ b/readability.go
@@ -786,6 +786,9 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		// used inappropriately (as in, where they contain no other block level elements.)
 		var elementsToScore []*Node
 		var n = r.doc.DocumentElement
+		if n == nil {
+			n = page
+		}
 
 		var shouldRemoveTitleHeader bool = true
 
-- 
2.43.0


From d4252e6f825a25c5353f99112a9637d5f8c836fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:29 +0000
Subject: [PATCH 10/44] fix: do not panic when content outside of the body
 scores best

---
 readability.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/readability.go b/readability.go
index 5de8978..375a497 100644
--- a/readability.go
+++ b/readability.go
@@ -926,6 +926,11 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				continue
 			}
 
+			// Exclude nodes outside of the page, they cannot be part of the article.
+			if !slices.Contains(r.getNodeAncestors(elementToScore, 0), page) {
+				continue
+			}
+
 			// Exclude nodes with no ancestor.
 			var ancestors = r.getNodeAncestors(elementToScore, 5)
 			if len(ancestors) == 0 {
@@ -967,6 +972,11 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				}
 				ancestor.ReadabilityNode.ContentScore += contentScore / float64(scoreDivider)
 				slog.Debug("assigned score", "ancestor", ancestor.GetTextContent(), "score", ancestor.ReadabilityNode.ContentScore)
+
+				// Nothing above the page can be a candidate.
+				if ancestor == page {
+					break
+				}
 			}
 		}
 
-- 
2.43.0


From f736695129b7f926b819af00d307ddeb0c2a8393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:56 +0000
Subject: [PATCH 11/44] fix: do not recurse forever on empty text nodes

The text and the markup of an empty text node, e.g. of an empty CDATA
section, were computed from each other until the stack overflowed.
---
 domparser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/domparser.go b/domparser.go
index c281ec2..ed3f30c 100644
--- a/domparser.go
+++ b/domparser.go
@@ -627,8 +627,8 @@ func newText() *Node {
 }
 
 func (t *Node) getTextContentFromTextNode() string {
-	if t.textContent == "" {
-		decoded, err := decodeHTML(t.GetInnerHTML())
+	if t.textContent == "" && t.innerHTML != "" {
+		decoded, err := decodeHTML(t.innerHTML)
 		if err != nil {
 			slog.Error("cannot decode inner html", "err", err)
 			return ""
@@ -639,8 +639,8 @@ func (t *Node) getTextContentFromTextNode() string {
 }
 
 func (t *Node) getInnerHTMLFromTextNode() string {
-	if t.innerHTML == "" {
-		t.innerHTML = encodeTextContentHTML(t.GetTextContent())
+	if t.innerHTML == "" && t.textContent != "" {
+		t.innerHTML = encodeTextContentHTML(t.textContent)
 	}
 	return t.innerHTML
 }
-- 
2.43.0


From 92b6c05a062f98bd9684d435c9066963da3b1302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:04 +0000
Subject: [PATCH 12/44] fix: decode character references once and beyond the
 basic plane

&amp;#60; was decoded twice, and references above U+FFFF were left alone.
---
 domparser.go | 40 +++++++++++++++++++---------------------
 regexps.go   |  4 ++--
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/domparser.go b/domparser.go
index ed3f30c..87318d5 100644
--- a/domparser.go
+++ b/domparser.go
@@ -73,28 +73,26 @@ func encodeHTML(text string) string {
 
 func decodeHTML(s string) (string, error) {
 
-	s = entityReferencesRgx.ReplaceAllStringFunc(s, func(s string) string {
-		return string([]rune(entityReplacer.Replace(s))[1])
-	})
-
-	submatches := htmlCharCodesRgx.FindAllStringSubmatch(s, -1)
-	for _, submatch := range submatches {
-		if len(submatch) == 3 {
-			hex, dec := submatch[1], submatch[2]
-			if hex != "" {
-				codePoint, err := strconv.ParseInt(hex, 16, 64)
-				if err != nil {
-					return "", err
-				}
-				s = strings.ReplaceAll(s, submatch[0], string(rune(codePoint)))
-			} else if dec != "" {
-				codePoint, err := strconv.ParseInt(dec, 10, 64)
-				if err != nil {
-					return "", err
-				}
-				s = strings.ReplaceAll(s, submatch[0], string(rune(codePoint)))
-			}
+	var decodeErr error
+	// A single pass, so that the output of one reference is never taken for another one.
+	s = entityReferencesRgx.ReplaceAllStringFunc(s, func(ref string) string {
+		submatch := htmlCharCodesRgx.FindStringSubmatch(ref)
+		if len(submatch) != 3 {
+			return string([]rune(entityReplacer.Replace(ref))[1])
+		}
+		digits, base := submatch[1], 16
+		if digits == "" {
+			digits, base = submatch[2], 10
 		}
+		codePoint, err := strconv.ParseInt(digits, base, 32)
+		if err != nil {
+			decodeErr = err
+			return ref
+		}
+		return string(rune(codePoint))
+	})
+	if decodeErr != nil {
+		return "", decodeErr
 	}
 	return s, nil
 }
diff --git a/regexps.go b/regexps.go
index 9f87f55..1f16fd0 100644
--- a/regexps.go
+++ b/regexps.go
@@ -36,8 +36,8 @@ var (
 	singleWhitespace     = regexp.MustCompile(`\s`)
 	singleDot            = regexp.MustCompile(`\.`)
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
-	entityReferencesRgx = regexp.MustCompile(`&(quot|amp|apos|lt|gt);`)
-	htmlCharCodesRgx    = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
+	entityReferencesRgx = regexp.MustCompile(`(?i:&#(?:x[0-9a-f]{1,6}|[0-9]{1,7});)|&(quot|amp|apos|lt|gt);`)
+	htmlCharCodesRgx    = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,6})|([0-9]{1,7}));`)
 	separators          = regexp.MustCompile(`[\|\-\\\/>»]+`)
 	dotSpaceOrDollar    = regexp.MustCompile(`\.( |$)`)
 	cdata               = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
-- 
2.43.0


From b624f8e03bec3d22b97372de85edc2a3cd3a2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:41 +0000
Subject: [PATCH 13/44] fix: neutralise javascript links however they are
 spelled

Leading whitespace, upper-case letters or embedded newlines let
javascript: URIs through to the article.
---
 readability.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 375a497..457edbd 100644
--- a/readability.go
+++ b/readability.go
@@ -300,7 +300,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		if href != "" {
 			// Remove links with javascript: URIs, since
 			// they won't work after scripts have been removed from the page.
-			if strings.HasPrefix(href, "javascript:") {
+			if isJavascriptURI(href) {
 				// if the link only contains simple text content, it can be converted to a text node
 				if len(link.ChildNodes) == 1 && link.ChildNodes[0].NodeType == textNode {
 					var text = r.doc.createTextNode(link.GetTextContent())
@@ -356,6 +356,15 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 	}
 }
 
+// Check if a browser would take the uri for a javascript: one: schemes are case-insensitive,
+// leading spaces and control characters are skipped, tabs and newlines are ignored anywhere.
+func isJavascriptURI(uri string) bool {
+	uri = strings.TrimLeftFunc(uri, func(c rune) bool { return c <= ' ' })
+	uri = strings.NewReplacer("\t", "", "\n", "", "\r", "").Replace(uri)
+	const scheme = "javascript:"
+	return len(uri) >= len(scheme) && strings.EqualFold(uri[:len(scheme)], scheme)
+}
+
 func (r *Readability) simplifyNestedElements(articleContent *Node) {
 	var node = articleContent
 	for node != nil {
-- 
2.43.0


From 3b586f32a524478c1faa14c35140bd6ae3dd3caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:47 +0000
Subject: [PATCH 14/44] fix: ignore whitespace between all the line breaks of a
 chain

Only the whitespace before the second <br> was skipped, so the rest of
the chain ended up in the new paragraph.
---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 457edbd..8615b3c 100644
--- a/readability.go
+++ b/readability.go
@@ -512,7 +512,7 @@ func (r *Readability) replaceBrs(n *Node) {
 		// If we find a <br> chain, remove the <br>s until we hit another node
 		// or non-whitespace. This leaves behind the first <br> in the chain
 		// (which will be replaced with a <p> later).
-		for next = r.nextNode(next); next != nil && next.TagName == "BR"; {
+		for next = r.nextNode(next); next != nil && next.TagName == "BR"; next = r.nextNode(next) {
 			replaced = true
 			var brSibling = next.NextSibling
 			if _, err := next.ParentNode.RemoveChild(next); err != nil {
-- 
2.43.0


From ae74f53939fb62cc5e733e24b18d31626cd2491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:54 +0000
Subject: [PATCH 15/44] fix: remove the first part of a title when the rest is
 too short

The replacement function returned the whole match.
---
 readability.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 8615b3c..f5ae1f2 100644
--- a/readability.go
+++ b/readability.go
@@ -416,9 +416,7 @@ func (r *Readability) getArticleTitle() string {
 		// If the resulting title is too short (3 words or fewer), remove
 		// the first part instead:
 		if wordCount(curTitle) < 3 {
-			curTitle = titleFirstPart.ReplaceAllStringFunc(origTitle, func(s string) string {
-				return s
-			})
+			curTitle = titleFirstPart.ReplaceAllString(origTitle, "$1")
 		}
 	} else if strings.Contains(curTitle, ": ") {
 		// Check if we have an heading containing this exact string, so we
-- 
2.43.0


From d6f0805aec462ef6965f5e27eb6fb4947b0b2375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:01 +0000
Subject: [PATCH 16/44] fix: do not count hidden nodes when deciding if a page
 is readerable

The style attribute was the separator, not the string, of the split, and
a bare hidden attribute was taken for a missing one.
---
 domparser.go  | 8 ++++----
 readerable.go | 6 +++---
 util.go       | 6 ++++++
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/domparser.go b/domparser.go
index 87318d5..673d521 100644
--- a/domparser.go
+++ b/domparser.go
@@ -796,11 +796,11 @@ func (s *style) getStyle(jsName string) string {
 
 	var cssName = styleMap[jsName]
 
-	var attr = s.Node.GetAttribute("style")
-	if attr == "" {
-		return ""
-	}
+	return getStyleValue(s.Node.GetAttribute("style"), cssName)
+}
 
+// Get the value of a property from the content of a style attribute.
+func getStyleValue(attr, cssName string) string {
 	var styles = strings.Split(attr, ";")
 	for i := 0; i < len(styles); i++ {
 		var name, value, found = strings.Cut(styles[i], ":")
diff --git a/readerable.go b/readerable.go
index 0b80443..7926670 100644
--- a/readerable.go
+++ b/readerable.go
@@ -33,9 +33,9 @@ import (
 func isNodeVisible(node *html.Node) bool {
 	// Have to null-check node.style and node.className.indexOf to deal with SVG and MathML nodes.
 	style := attr(node, "style")
-	return (style == "" || !slices.Contains(strings.Split(";", style), "display=none")) &&
-		(style == "" || !slices.Contains(strings.Split(";", style), "visibility=hidden")) &&
-		attr(node, "hidden") == "" &&
+	return getStyleValue(style, "display") != "none" &&
+		getStyleValue(style, "visibility") != "hidden" &&
+		!hasAttr(node, "hidden") &&
 		(attr(node, "aria-hidden") == "" || attr(node, "aria-hidden") != "true" || (attr(node, "class") != "" && strings.Contains(attr(node, "class"), "fallback-image")))
 }
 
diff --git a/util.go b/util.go
index 4e0cbe5..909c538 100644
--- a/util.go
+++ b/util.go
@@ -60,6 +60,12 @@ func attr(n *html.Node, attrName string) string {
 	return ""
 }
 
+func hasAttr(n *html.Node, attrName string) bool {
+	return slices.ContainsFunc(n.Attr, func(a html.Attribute) bool {
+		return a.Key == attrName
+	})
+}
+
 func textContent(n *html.Node) string {
 	var buf bytes.Buffer
 
-- 
2.43.0


From e13e9ee3012451388b9627ece6738f117a0b55c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:07 +0000
Subject: [PATCH 17/44] fix: skip list item paragraphs when deciding if a page
 is readerable

The descendants of the node were matched instead of the node itself.
---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 909c538..113f594 100644
--- a/util.go
+++ b/util.go
@@ -48,7 +48,7 @@ func matches(n *html.Node, query string) bool {
 	if err != nil {
 		return false
 	}
-	return cascadia.Query(n, sel) != nil
+	return sel.Match(n)
 }
 
 func attr(n *html.Node, attrName string) string {
-- 
2.43.0


From 943d615c87ff1230922e04ad39d431eb2eca139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:13 +0000
Subject: [PATCH 18/44] fix: count a div once when deciding if a page is
 readerable

A div was scored again for each of its line breaks.
---
 readerable.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/readerable.go b/readerable.go
index 7926670..19ab201 100644
--- a/readerable.go
+++ b/readerable.go
@@ -68,7 +68,9 @@ func IsProbablyReaderable(htmlSource string, opts ...Option) bool {
 	if len(brNodes) != 0 {
 		var set []*html.Node
 		for _, n := range brNodes {
-			set = append(set, n.Parent)
+			if !slices.Contains(set, n.Parent) {
+				set = append(set, n.Parent)
+			}
 		}
 		nodes = append(nodes, set...)
 	}
-- 
2.43.0


From a7cccfd0379192fbac88c7cbad20c414bbf52de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:32 +0000
Subject: [PATCH 19/44] fix: compare the char threshold with characters, not
 bytes

Articles in non-Latin scripts passed the threshold with a third of the
characters.
---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index f5ae1f2..1400878 100644
--- a/readability.go
+++ b/readability.go
@@ -1213,7 +1213,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		// grabArticle with different flags set. This gives us a higher likelihood of
 		// finding the content, and the sieve approach gives us a higher likelihood of
 		// finding the -right- content.
-		var textLength = len(r.getInnerText(articleContent, true))
+		var textLength = len([]rune(r.getInnerText(articleContent, true)))
 		if textLength < r.options.charThreshold {
 			parseSuccessful = false
 			page.SetInnerHTML(pageCacheHtml)
-- 
2.43.0


From 869e34bbca721cd7e5d9a4d1db582359d0d7ba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:38 +0000
Subject: [PATCH 20/44] fix: measure readerable content in characters, not
 bytes

---
 readerable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readerable.go b/readerable.go
index 19ab201..235c763 100644
--- a/readerable.go
+++ b/readerable.go
@@ -93,7 +93,7 @@ func IsProbablyReaderable(htmlSource string, opts ...Option) bool {
 			return false
 		}
 
-		var textContentLength = len(strings.TrimSpace(textContent(n)))
+		var textContentLength = len([]rune(strings.TrimSpace(textContent(n))))
 		if textContentLength < options.minContentLength {
 			return false
 		}
-- 
2.43.0


From 6f2dae4726d9b96918b11e70b902825f51d0df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:43 +0000
Subject: [PATCH 21/44] fix: recognise hidden nodes whatever the spelling of
 their style

Upper-case letters, !important and overridden declarations are as valid
in a style attribute as display:none.
---
 domparser.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/domparser.go b/domparser.go
index 673d521..2a7b03e 100644
--- a/domparser.go
+++ b/domparser.go
@@ -802,13 +802,21 @@ func (s *style) getStyle(jsName string) string {
 // Get the value of a property from the content of a style attribute.
 func getStyleValue(attr, cssName string) string {
 	var styles = strings.Split(attr, ";")
+	var styleValue string
+	var important bool
 	for i := 0; i < len(styles); i++ {
 		var name, value, found = strings.Cut(styles[i], ":")
-		if found && strings.TrimSpace(name) == cssName {
-			return strings.TrimSpace(value)
+		if !found || !strings.EqualFold(strings.TrimSpace(name), cssName) {
+			continue
+		}
+		value = strings.ToLower(strings.TrimSpace(value))
+		value, isImportant := strings.CutSuffix(value, "!important")
+		// The last declaration wins, unless an important one came before.
+		if isImportant || !important {
+			styleValue, important = strings.TrimSpace(value), isImportant
 		}
 	}
-	return ""
+	return styleValue
 }
 
 /*
-- 
2.43.0


From d34baa516d1ae57d60520e4c9384fae79aff483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:10 +0000
Subject: [PATCH 22/44] fix: keep the tree consistent when a node is replaced
 by its sibling

The index of the old node was taken before the new one was removed from
the same list.
---
 domparser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/domparser.go b/domparser.go
index 2a7b03e..49c48a8 100644
--- a/domparser.go
+++ b/domparser.go
@@ -480,10 +480,10 @@ func (n *Node) RemoveChild(child *Node) (*Node, error) {
 }
 
 func (n *Node) ReplaceChild(newNode, oldNode *Node) *Node {
-	childNodes := n.ChildNodes
-	childIndex := indexOf(oldNode, childNodes)
-	if childIndex == -1 {
+	if indexOf(oldNode, n.ChildNodes) == -1 {
 		panic("removeChild: node not found")
+	} else if newNode == oldNode {
+		return oldNode
 	} else {
 		// This will take care of updating the new node if it was somewhere else before:
 		if newNode.ParentNode != nil {
@@ -491,6 +491,9 @@ func (n *Node) ReplaceChild(newNode, oldNode *Node) *Node {
 				slog.Error("cannot remove child", slog.String("err", err.Error()))
 			}
 		}
+		// The new node might have been one of our children, look for the old one only now.
+		childNodes := n.ChildNodes
+		childIndex := indexOf(oldNode, childNodes)
 		childNodes[childIndex] = newNode
 
 		// update the new node's sibling properties, and its new siblings' sibling properties
-- 
2.43.0


From 0570eff5ea246d07c4bc8391bf96739043a002cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:15 +0000
Subject: [PATCH 23/44] fix: clear the siblings of nodes replaced by new text
 or markup

They were left pointing into the old tree, and stayed so after being
appended elsewhere.
---
 domparser.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/domparser.go b/domparser.go
index 49c48a8..44b5c33 100644
--- a/domparser.go
+++ b/domparser.go
@@ -950,9 +950,7 @@ func (n *Node) SetInnerHTML(html string) {
 	} else if n.NodeType == elementNode {
 		var parser = newDOMParser()
 		var node = parser.parse(html, "")
-		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
-			n.ChildNodes[i].ParentNode = nil
-		}
+		n.detachChildNodes()
 		n.ChildNodes = node.ChildNodes
 		n.Children = node.Children
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
@@ -963,6 +961,15 @@ func (n *Node) SetInnerHTML(html string) {
 	}
 }
 
+// Clear the relations of the child nodes, which are about to be replaced.
+func (n *Node) detachChildNodes() {
+	for _, child := range n.ChildNodes {
+		child.ParentNode = nil
+		child.PreviousSibling, child.NextSibling = nil, nil
+		child.PreviousElementSibling, child.NextElementSibling = nil, nil
+	}
+}
+
 func (n *Node) SetTextContent(text string) {
 
 	if n.NodeType == textNode {
@@ -970,9 +977,7 @@ func (n *Node) SetTextContent(text string) {
 		return
 	} else if n.NodeType == elementNode {
 		// clear parentNodes for existing children
-		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
-			n.ChildNodes[i].ParentNode = nil
-		}
+		n.detachChildNodes()
 
 		var t = newText()
 		n.ChildNodes = []*Node{t}
-- 
2.43.0


From 9faf8854045766b775543e8bdae7f647ddbcf35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:59 +0000
Subject: [PATCH 24/44] fix: do not split link URIs at an escaped comma and
 space

href="/Paris,%20Texas" was resolved as two URIs and joined again.
---
 readability.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/readability.go b/readability.go
index 1400878..c1ab326 100644
--- a/readability.go
+++ b/readability.go
@@ -314,15 +314,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 					link.ParentNode.ReplaceChild(container, link)
 				}
 			} else {
-				if strings.Contains(href, ",%20") {
-					var hrefs []string
-					for _, link := range strings.Split(href, ",%20") {
-						hrefs = append(hrefs, toAbsoluteURI(link))
-					}
-					link.SetAttribute("href", strings.Join(hrefs, ",%20"))
-				} else {
-					link.SetAttribute("href", toAbsoluteURI(href))
-				}
+				link.SetAttribute("href", toAbsoluteURI(href))
 			}
 		}
 	}
-- 
2.43.0


From 37102fdee035983a97a3f73d96739f32abe442e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:04 +0000
Subject: [PATCH 25/44] fix: keep the whitespace between the candidates of a
 srcset

Without it a candidate list separated by other whitespace than a space
turned into a single URI.
---
 readability.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/readability.go b/readability.go
index c1ab326..ab325bb 100644
--- a/readability.go
+++ b/readability.go
@@ -334,16 +334,11 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		}
 		var srcset = media.GetAttribute("srcset")
 		if srcset != "" {
-			submatches := srcsetUrl.FindAllStringSubmatch(srcset, -1)
-			var newSrcset []string
-			for _, submatch := range submatches {
-				newSrcset = append(newSrcset, toAbsoluteURI(submatch[1])+submatch[2]+submatch[3])
-			}
-			if !strings.Contains(srcset, ", ") {
-				media.SetAttribute("srcset", strings.Join(newSrcset, ""))
-			} else {
-				media.SetAttribute("srcset", strings.Join(newSrcset, " "))
-			}
+			var newSrcset = srcsetUrl.ReplaceAllStringFunc(srcset, func(s string) string {
+				submatch := srcsetUrl.FindStringSubmatch(s)
+				return toAbsoluteURI(submatch[1]) + submatch[2] + submatch[3]
+			})
+			media.SetAttribute("srcset", newSrcset)
 		}
 	}
 }
-- 
2.43.0


From b05cd136bbbca51a0425fcb63411b2063b5e08c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:09 +0000
Subject: [PATCH 26/44] fix: honour captions and nested tables when looking for
 data tables

Both verdicts were overwritten by the one based on the table size.
---
 readability.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/readability.go b/readability.go
index ab325bb..0a63459 100644
--- a/readability.go
+++ b/readability.go
@@ -1853,6 +1853,7 @@ func (r *Readability) markDataTables(root *Node) {
 
 		if captions := table.getElementsByTagName("caption"); len(captions) > 0 && captions[0] != nil && len(captions[0].ChildNodes) > 0 {
 			table.ReadabilityDataTable = &readabilityDataTable{value: true}
+			continue
 		}
 
 		// If the table has a descendant with any of these tags, consider a data table:
@@ -1871,6 +1872,7 @@ func (r *Readability) markDataTables(root *Node) {
 		// Nested tables indicate a layout table:
 		if tables := table.getElementsByTagName("table"); len(tables) > 0 && tables[0] != nil {
 			table.ReadabilityDataTable = &readabilityDataTable{value: false}
+			continue
 		}
 
 		var rows, columns = r.getRowAndColumnCount(table)
-- 
2.43.0


From 31444c5ff253dddf6811b0af9ab2ac5457009be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:14 +0000
Subject: [PATCH 27/44] fix: do not take any heading in a non-Latin script for
 the title

Texts without ASCII word characters only had empty tokens, and compared
as identical to everything.
---
 readability.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 0a63459..f761a7a 100644
--- a/readability.go
+++ b/readability.go
@@ -705,14 +705,15 @@ func (r *Readability) getNextNode(n *Node, ignoreSelfAndKids bool) *Node {
 // Works the way that it splits both texts into words and then finds words that are unique in second text
 // the result is given by the lower length of unique parts.
 func (r *Readability) textSimilarity(textA, textB string) float64 {
-	var tokensA = tokenize.Split(strings.ToLower(textA), -1)
-	var tokensB = tokenize.Split(strings.ToLower(textB), -1)
+	var isNotEmpty = func(token string) bool { return token != "" }
+	var tokensA = filter(isNotEmpty, tokenize.Split(strings.ToLower(textA), -1)...)
+	var tokensB = filter(isNotEmpty, tokenize.Split(strings.ToLower(textB), -1)...)
 	if len(tokensA) == 0 || len(tokensB) == 0 {
 		return 0
 	}
 	var uniqTokensB []string
 	for _, t := range tokensB {
-		if !slices.Contains(tokensA, t) && t != "" {
+		if !slices.Contains(tokensA, t) {
 			uniqTokensB = append(uniqTokensB, t)
 		}
 	}
-- 
2.43.0


From 13f6d6a4a407e3878e89de81296b147ef61179b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:19 +0000
Subject: [PATCH 28/44] fix: keep all the lines of a title when removing its
 final part

---
 readability.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/readability.go b/readability.go
index f761a7a..8237d06 100644
--- a/readability.go
+++ b/readability.go
@@ -396,10 +396,7 @@ func (r *Readability) getArticleTitle() string {
 	// If there's a separator in the title, first remove the final part
 	if titleFinalPart.MatchString(curTitle) {
 		titleHadHierarchicalSeparators = titleSeparators.MatchString(curTitle)
-		submatches := otherTitleSeparators.FindAllStringSubmatch(origTitle, -1)
-		if len(submatches) != 0 && len(submatches[0]) > 0 {
-			curTitle = submatches[0][1]
-		}
+		curTitle = otherTitleSeparators.ReplaceAllString(origTitle, "$1")
 		// If the resulting title is too short (3 words or fewer), remove
 		// the first part instead:
 		if wordCount(curTitle) < 3 {
-- 
2.43.0


From 4d216dd7f47d6d9479a69f670f713ebab3207906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:25 +0000
Subject: [PATCH 29/44] fix: recognise lazy images by upper-case file
 extensions too

---
 regexps.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regexps.go b/regexps.go
index 1f16fd0..290077c 100644
--- a/regexps.go
+++ b/regexps.go
@@ -46,8 +46,8 @@ var (
 	propertyPattern = regexp.MustCompile(`(?i)\s*(article|dc|dcterm|og|twitter)\s*:\s*(author|creator|description|published_time|title|site_name)\s*`)
 	// name is a single value
 	namePattern                   = regexp.MustCompile(`(?i)^\s*(?:(dc|dcterm|og|twitter|weibo:(article|webpage))\s*[\.:]\s*)?(author|creator|description|title|site_name)\s*$`)
-	imgExtensions                 = regexp.MustCompile(`\.(jpg|jpeg|png|webp)`)
+	imgExtensions                 = regexp.MustCompile(`(?i)\.(jpg|jpeg|png|webp)`)
 	base64Starts                  = regexp.MustCompile(`(?i)base64\s*`)
-	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`\.(jpg|jpeg|png|webp)\s+\d`)
-	imgExtensionsAmongText        = regexp.MustCompile(`^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
+	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`(?i)\.(jpg|jpeg|png|webp)\s+\d`)
+	imgExtensionsAmongText        = regexp.MustCompile(`(?i)^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
 )
-- 
2.43.0


From 895042787895b32ae1032d10c962567a3b806558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:30 +0000
Subject: [PATCH 30/44] fix: give content in unlikely roles a chance on retries

As with unlikely class names, the role only counts until the page turns
out to have no other content.
---
 readability.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/readability.go b/readability.go
index 8237d06..6adf5cb 100644
--- a/readability.go
+++ b/readability.go
@@ -838,12 +838,12 @@ func (r *Readability) grabArticle(page *Node) *Node {
 					n = r.removeAndGetNext(n)
 					continue
 				}
-			}
 
-			if slices.Contains(unlinkelyRoles, n.GetAttribute("role")) {
-				slog.Debug("Removing content", "role", n.GetAttribute("role"), "matchString", matchString)
-				n = r.removeAndGetNext(n)
-				continue
+				if slices.Contains(unlinkelyRoles, n.GetAttribute("role")) {
+					slog.Debug("Removing content", "role", n.GetAttribute("role"), "matchString", matchString)
+					n = r.removeAndGetNext(n)
+					continue
+				}
 			}
 
 			// Remove DIV, SECTION, and HEADER nodes without any content(e.g. text, image, video, or iframe).
-- 
2.43.0


From e7f3e2e6f170de485d588ef44901249f2bb69e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:33 +0000
Subject: [PATCH 31/44] fix: check a paragraph that replaces its div like any
 other node

A div whose only content is a paragraph is replaced by it: the paragraph
itself then escaped the visibility and unlikely candidate checks, so the
text of <div><p hidden>..</p></div> ended up in the article.
---
 readability.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 6adf5cb..e1f1687 100644
--- a/readability.go
+++ b/readability.go
@@ -892,8 +892,9 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				if r.hasSingleTagInsideElement(n, "P") && r.getLinkDensity(n) < 0.25 {
 					var newNode = n.Children[0]
 					n.ParentNode.ReplaceChild(newNode, n)
+					// The paragraph has not been looked at yet.
 					n = newNode
-					elementsToScore = append(elementsToScore, n)
+					continue
 				} else if !r.hasChildBlockElement(n) {
 					n = r.setNodeTag(n, "P")
 					elementsToScore = append(elementsToScore, n)
-- 
2.43.0


From 7a07eebe9bb3021725604ae09fbca77c724829a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:25 +0000
Subject: [PATCH 32/44] fix: keep text followed by a space next to a single
 nested element

hasContent only looked at the last character, so a text ending with
whitespace was taken for empty and dropped when its parent was unwrapped.
---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index 290077c..d3ce4f9 100644
--- a/regexps.go
+++ b/regexps.go
@@ -19,7 +19,7 @@ var (
 	//prevLink             = regexp.MustCompile(`(prev|earl|old|new|<|«)`)
 	tokenize   = regexp.MustCompile(`\W+`)
 	whitespace = regexp.MustCompile(`^\s*$`)
-	hasContent = regexp.MustCompile(`\S$`)
+	hasContent = regexp.MustCompile(`\S`)
 	hashUrl    = regexp.MustCompile(`^#.+`)
 	srcsetUrl  = regexp.MustCompile(`(\S+)(\s+[\d.]+[xw])?(\s*(?:,|$))`)
 	b64DataUrl = regexp.MustCompile(`(?i)^data:\s*([^\s;,]+)\s*;\s*base64\s*,`)
-- 
2.43.0


From 0c1e3c7290c0bf8d281595755c90fa3ab4586bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:31 +0000
Subject: [PATCH 33/44] fix: measure list and heading densities in characters,
 not bytes

---
 readability.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/readability.go b/readability.go
index e1f1687..8ece793 100644
--- a/readability.go
+++ b/readability.go
@@ -1960,7 +1960,7 @@ func (r *Readability) fixLazyImages(root *Node) {
 }
 
 func (r *Readability) getTextDensity(e *Node, tags ...string) float64 {
-	var textLength = len(r.getInnerText(e, true))
+	var textLength = len([]rune(r.getInnerText(e, true)))
 	if textLength == 0 {
 		return 0
 	}
@@ -1968,7 +1968,7 @@ func (r *Readability) getTextDensity(e *Node, tags ...string) float64 {
 	var childrenLength = 0
 	var children = r.getAllNodesWithTag(e, tags...)
 	for _, child := range children {
-		childrenLength += len(r.getInnerText(child, true))
+		childrenLength += len([]rune(r.getInnerText(child, true)))
 	}
 	return float64(childrenLength) / float64(textLength)
 }
@@ -1997,9 +1997,9 @@ func (r *Readability) cleanConditionally(e *Node, tag string) {
 			var listLength = 0
 			var listNodes = r.getAllNodesWithTag(n, "ul", "ol")
 			for _, list := range listNodes {
-				listLength += len(r.getInnerText(list, true))
+				listLength += len([]rune(r.getInnerText(list, true)))
 			}
-			isList = float64(listLength)/float64(len(r.getInnerText(n, true))) > 0.9
+			isList = float64(listLength)/float64(len([]rune(r.getInnerText(n, true)))) > 0.9
 		}
 
 		if tag == "table" && isDataTable(n) {
-- 
2.43.0


From 7a983419a2d981e579f66335dc35a4e46e44ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:24 +0000
Subject: [PATCH 34/44] fix: close elements with a prefixed name

The end tag of an element like <o:p> was compared with the name without
prefix, so the element was never closed and took in the rest of the page.
---
 domparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 44b5c33..1bf6543 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1135,7 +1135,7 @@ loop:
 			}
 
 		case html.EndTagToken:
-			if n.LocalName == p.z.Token().Data {
+			if n.matchingTag == p.z.Token().Data {
 				break loop
 			}
 		}
-- 
2.43.0


From c97fe9f2391372a802af2d87e6499e1123fab738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:30 +0000
Subject: [PATCH 35/44] fix: do not take the rest of the page for the text of a
 self-closed element

The tokenizer reads on in raw text mode after <script/>, <title/>, <iframe/>
and the like, although they have no content.
---
 domparser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/domparser.go b/domparser.go
index 1bf6543..b04571c 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1116,6 +1116,9 @@ loop:
 						p.z.NextIsNotRawText()
 					}
 					p.readNode(node)
+				} else {
+					// There is no content to be read as raw text, whatever the element.
+					p.z.NextIsNotRawText()
 				}
 
 				// Only use the first title, because SVG might have other
-- 
2.43.0


From baf5f69520b196a9206f920d6e684c09f2a6619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:14 +0000
Subject: [PATCH 36/44] fix: keep a short title freed from a one-word
 hierarchical part

The original title was meant to be used only if more than one word was
removed, but it was used whenever any was.
---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 8ece793..05b2943 100644
--- a/readability.go
+++ b/readability.go
@@ -441,7 +441,7 @@ func (r *Readability) getArticleTitle() string {
 	// the original title.
 	var curTitleWordCount = wordCount(curTitle)
 	if curTitleWordCount <= 4 &&
-		(!titleHadHierarchicalSeparators || curTitleWordCount != wordCount(separators.ReplaceAllString(origTitle, ""))) {
+		(!titleHadHierarchicalSeparators || curTitleWordCount != wordCount(separators.ReplaceAllString(origTitle, ""))-1) {
 		curTitle = origTitle
 	}
 	return curTitle
-- 
2.43.0


From 2cda7ab8345531f1e405ea09387816a830213563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:31 +0000
Subject: [PATCH 37/44] fix: markup inside SVG and MathML is never raw text

The tokenizer takes the content of a title, xmp, iframe... for raw text,
which is wrong inside of an svg or a math element: a browser parses it as
markup. A script in the title of an SVG image was taken for text, escaped the
removal of the scripts and was written out as a live script.
---
 domparser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index b04571c..67572aa 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1022,6 +1022,7 @@ type domParser struct {
 	z       *html.Tokenizer
 	doc     *Node
 	options *Options
+	foreign int // SVG and MathML elements that are open
 }
 
 func newDOMParser(opts ...Option) *domParser {
@@ -1112,10 +1113,18 @@ loop:
 				// If this isn't a void Element, read its child nodes
 				var localName = node.LocalName
 				if tt == html.StartTagToken {
-					if slices.Contains([]string{"script", "noscript"}, localName) {
+					foreign := localName == "svg" || localName == "math"
+					if foreign {
+						p.foreign++
+					}
+					// No element of SVG or MathML contains raw text, not even a title.
+					if p.foreign > 0 || slices.Contains([]string{"script", "noscript"}, localName) {
 						p.z.NextIsNotRawText()
 					}
 					p.readNode(node)
+					if foreign {
+						p.foreign--
+					}
 				} else {
 					// There is no content to be read as raw text, whatever the element.
 					p.z.NextIsNotRawText()
-- 
2.43.0


From 9663bbf225d9bf1aeba1d7df0c391a7b175bf96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:03 +0000
Subject: [PATCH 38/44] fix: a stray < in a text does not become markup

The source of a text was written out as it was. Where a < that is not the
start of a tag is followed by an element that gets removed, as in
"a <<script></script>script>alert(1)<<script></script>/script>", what was left
was a live script.
---
 domparser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 67572aa..4ef4f40 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1088,7 +1088,9 @@ loop:
 				txt := string(data)
 
 				if c != '<' {
-					textNode.SetInnerHTML(txt)
+					// A stray < is text: keep it from becoming the start of a tag
+					// when what follows it in the document is removed.
+					textNode.SetInnerHTML(strings.ReplaceAll(txt, "<", "&lt;"))
 					n.AppendChild(textNode)
 				} else if strings.HasPrefix(txt, "<![CDATA[") {
 					s := strings.Index(txt, "<![CDATA[")
-- 
2.43.0


From 70773661dc493e2bddf869f6e1abd5eddf91fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:47 +0000
Subject: [PATCH 39/44] fix: only a name can follow the prefix of an element

The name of an element without its prefix was empty for <x:>, which was then
taken for a text and crashed the extraction, and started with a < for
<x:<script>, which was written out as a live script.
---
 domparser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index 4ef4f40..87e8bff 100644
--- a/domparser.go
+++ b/domparser.go
@@ -729,8 +729,10 @@ func newElement(tag string) *Node {
 	// We're explicitly a non-namespace aware parser, we just pretend it's all HTML.
 	var lastColonIndex = strings.LastIndex(tag, ":")
 	if lastColonIndex != -1 {
-		substrings := strings.Split(tag, ":")
-		tag = substrings[len(substrings)-1]
+		// What is left has to be a name: neither <x:> nor <x:<script> has a prefix.
+		if name := tag[lastColonIndex+1:]; name != "" && 'a' <= name[0]|0x20 && name[0]|0x20 <= 'z' {
+			tag = name
+		}
 	}
 
 	n.LocalName = strings.ToLower(tag)
-- 
2.43.0


From f63f5f26d697f66f87abe19af18cf71dc1ae987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:38 +0000
Subject: [PATCH 40/44] fix: misplaced html and body elements are part of the
 document

When tag soup has the html element inside of another element, or the body
outside of the html element, the document was emptied and the body, which is
where the article is taken from, was left out of every step that goes through
the document: its scripts and styles ended up in the article.
---
 domparser.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/domparser.go b/domparser.go
index 87e8bff..7514d08 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1169,6 +1169,10 @@ func (p *domParser) parse(htmlSrc, url string) *Node {
 	// If this is an HTML document, remove root-level children except for the
 	// <html> node
 	if p.doc.DocumentElement != nil {
+		// In tag soup it may be inside of another element.
+		if p.doc.DocumentElement.ParentNode != p.doc {
+			p.doc.AppendChild(p.doc.DocumentElement)
+		}
 		var i = len(p.doc.ChildNodes) - 1
 		for i >= 0 {
 			var child = p.doc.ChildNodes[i]
@@ -1179,6 +1183,16 @@ func (p *domParser) parse(htmlSrc, url string) *Node {
 			}
 			i--
 		}
+		// The body is never outside of the document.
+		if p.doc.Body != nil {
+			var top = p.doc.Body
+			for top.ParentNode != nil {
+				top = top.ParentNode
+			}
+			if top != p.doc {
+				p.doc.DocumentElement.AppendChild(p.doc.Body)
+			}
+		}
 	}
 	return p.doc
 }
-- 
2.43.0


From 3eec0302b3feeb81bfd311eee2f5a5514fa46473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:34 +0000
Subject: [PATCH 41/44] fix: do not inherit the fragment of the base URI

A blank reference, or a lone #, was resolved to the base URI including its
fragment (RFC 3986, 5.2.2: the fragment is that of the reference).
---
 readability.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/readability.go b/readability.go
index 05b2943..29fe43a 100644
--- a/readability.go
+++ b/readability.go
@@ -282,6 +282,8 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 			// Something went wrong, just return the original:
 			return uri
 		}
+		// The fragment of the base is never part of what is resolved against it.
+		base.Fragment, base.RawFragment = "", ""
 		u := base.ResolveReference(ref)
 		u.Host = strings.ToLower(u.Host)
 		if u.Host != "" && u.Path == "" {
-- 
2.43.0


From 1593d60636a2e8655591fdd8bdf9e86d37de6ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:18 +0000
Subject: [PATCH 42/44] fix: the body is always a child of the root element

When tag soup has the body inside of an element that is removed before the
article is looked for, such as noscript, every later step that goes through
the document missed it: styles and presentational elements ended up in the
article.
---
 domparser.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/domparser.go b/domparser.go
index 7514d08..98fed24 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1183,15 +1183,16 @@ func (p *domParser) parse(htmlSrc, url string) *Node {
 			}
 			i--
 		}
-		// The body is never outside of the document.
-		if p.doc.Body != nil {
-			var top = p.doc.Body
-			for top.ParentNode != nil {
-				top = top.ParentNode
-			}
-			if top != p.doc {
-				p.doc.DocumentElement.AppendChild(p.doc.Body)
-			}
+	}
+	// In tag soup the body may be anywhere, even inside of an element that is going
+	// to be removed, or was.
+	if p.doc.Body != nil {
+		var root = p.doc.DocumentElement
+		if root == nil {
+			root = p.doc
+		}
+		if p.doc.Body.ParentNode != root {
+			root.AppendChild(p.doc.Body)
 		}
 	}
 	return p.doc
-- 
2.43.0


From 66402cc6101d0f14b6ae321ec83ca523d0756f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:18 +0000
Subject: [PATCH 43/44] fix: resolve the links of redirected pages against
 their final address

The command resolved them against the address it was given, which is not
where the page was served from after a redirect.
---
 cmd/readability/readability.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/readability/readability.go b/cmd/readability/readability.go
index 1750df4..1aeed95 100644
--- a/cmd/readability/readability.go
+++ b/cmd/readability/readability.go
@@ -50,7 +50,8 @@ func main() {
 	bs, err := io.ReadAll(resp.Body)
 	handle(err)
 
-	parser, err := readability.New(string(bs), url)
+	// After a redirect the page is elsewhere, and so is what its links refer to.
+	parser, err := readability.New(string(bs), resp.Request.URL.String())
 	handle(err)
 
 	res, err := parser.Parse()
-- 
2.43.0


From 41418178d13f75563cdeb33bba6dd2d04f00f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:59 +0000
Subject: [PATCH 44/44] fix: resolve links against the first base element with
 a href

---
 domparser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index 98fed24..53a0c85 100644
--- a/domparser.go
+++ b/domparser.go
@@ -699,8 +699,9 @@ func (d *Node) getBaseURI() string {
 	if d.baseURI == "" {
 		d.baseURI = d.DocumentURI
 		baseElements := d.getElementsByTagName("base")
-		if len(baseElements) != 0 {
-			href := baseElements[0].GetAttribute("href")
+		// The first one with a href counts, others may be there for their target only.
+		if i := slices.IndexFunc(baseElements, func(n *Node) bool { return n.HasAttribute("href") }); i != -1 {
+			href := baseElements[i].GetAttribute("href")
 			if href != "" {
 				base, err := url.Parse(d.baseURI)
 				if err != nil {
-- 
2.43.0

