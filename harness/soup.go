package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"
)

// Raw is a string of any bytes that survives JSON.
type Raw string

func (r Raw) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(r)) {
		return json.Marshal(string(r))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(r))})
}

func (r *Raw) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		*r = Raw(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	d, err := base64.StdEncoding.DecodeString(m["b64"])
	*r = Raw(d)
	return err
}

// ---------------------------------------------------------------- tag soup

var soupTags = []string{"a", "abbr", "address", "article", "aside", "b", "base", "blockquote", "body", "br", "button", "caption", "center", "code", "col", "dd", "del", "div", "dl", "dt", "em", "embed", "fieldset", "figcaption", "figure", "font", "footer", "form", "frame", "h1", "h2", "h3", "head", "header", "hr", "html", "i", "iframe", "img", "input", "ins", "label", "li", "link", "main", "math", "meta", "nav", "noembed", "noscript", "object", "ol", "option", "p", "param", "picture", "plaintext", "pre", "script", "section", "select", "source", "span", "style", "sub", "svg", "table", "tbody", "td", "template", "textarea", "tfoot", "th", "thead", "time", "title", "tr", "u", "ul", "video", "xmp", "o:p", "x-y", "x:script", "x:", "x:y:p", "o:", "x:1", "a:br", "x:img", "x:table", "svg:svg", "a1", "desc", "foreignobject", "mtext"}

var soupAttrs = []string{"class", "id", "style", "href", "src", "srcset", "poster", "rel", "itemprop", "itemtype", "property", "name", "content", "hidden", "aria-hidden", "aria-modal", "role", "dir", "lang", "width", "height", "colspan", "rowspan", "summary", "datatable", "data-src", "data-srcset", "type", "value", "title", "alt", "border", "valign", "xml:lang", "xlink:href", "onclick", "data-old-src"}

var soupValues = []string{"", " ", "content", "sidebar comment", "byline", "author", "hid", "share", "display:none", "display", "visibility: hidden;", ":", ";;:;", "display:none !important", "http://h/x.jpg", "x.jpg 1x, y.png 2x", ",%20", "//", ":", "http://[::1", "%zz", "javascript:x()", " JavaScript:1", "#", "#a", "?", "data:image/png;base64,AAAA", "data:image/svg+xml;base64,AAAA", "DATA:IMAGE/PNG;BASE64,x", "data:;base64", "og:title dc:creator", "description", "article:published_time", "application/ld+json", "true", "until-found", "dialog", "menu", "rtl", "en", "0", "-1", "99999999999999999999", "presentation", "1x", "null", "\x00", "\n", "a\tb", "é", "\xff", "https://www.youtube.com/embed/1", "readability-page-1", "page"}

var soupTexts = []string{" ", "\n", "x", "word ", "a,b,c,", "&amp;", "&lt;", "&#60;", "&#x3c;script&#x3e;", "&#0;", "&#xd800;", "&#1114112;", "&#99999999999999;", "&#;", "&#x;", "&;", "&", "&amp", "<", "<<", ">", "< ", "</", "</>", "<!", "<!-- c -->", "<!-->", "<!--", "-->", "<![CDATA[ x ]]>", "<![CDATA[", "]]>", "<![CDATA[<script>1</script>]]>", "<?xml version=\"1.0\"?>", "<!DOCTYPE html>", "\x00", "\xff\xfe", "\u00a0", "，", "日本", "𝒳", "{\"@context\":\"https://schema.org\",\"@type\":\"Article\",\"name\":\"n\",\"headline\":1}", "{\"@context\":[],\"@graph\":[1,{\"@type\":[]}]}", "| - ", " » ", ": ", "By Someone", "alert(1)", "script>alert(1)", "/script>", "img src=x>"}

func (g *G) soupTag() string {
	var b strings.Builder
	t := from(g, soupTags)
	switch g.n(20) {
	case 0:
		t = strings.ToUpper(t)
	case 1:
		t = strings.ToUpper(t[:1]) + t[1:]
	}
	b.WriteString("<" + t)
	for g.n(3) == 0 {
		k := from(g, soupAttrs)
		if g.n(20) == 0 {
			k = pick(g, "\"", "=", "<", "a\"b", "/", "é", strings.ToUpper(k))
		}
		b.WriteString(pick(g, " ", " ", " ", "\n", "/", "") + k)
		v := from(g, soupValues)
		switch g.n(8) {
		case 0:
		case 1:
			b.WriteString("=" + v)
		case 2:
			b.WriteString("='" + v + "'")
		case 3:
			b.WriteString("=\"" + v)
		default:
			b.WriteString("=\"" + v + "\"")
		}
	}
	b.WriteString(pick(g, ">", ">", ">", ">", "/>", "/>", "", " >"))
	return b.String()
}

func (g *G) soup(k int) string {
	var b strings.Builder
	var open []string
	for i := 0; i < k; i++ {
		switch g.n(10) {
		case 0, 1, 2, 3:
			s := g.soupTag()
			b.WriteString(s)
			name := strings.ToLower(strings.TrimLeft(s, "<"))
			if j := strings.IndexAny(name, " \n/>\"="); j > 0 {
				name = name[:j]
			}
			open = append(open, name)
		case 4, 5:
			if len(open) > 0 && g.n(8) > 0 {
				b.WriteString("</" + open[len(open)-1] + ">")
				open = open[:len(open)-1]
			} else {
				b.WriteString("</" + from(g, soupTags) + ">")
			}
		case 6:
			b.WriteString(g.textOf(g.size(), 10))
		case 7:
			b.WriteString("<p>" + g.textOf(g.between(60, 200), 10) + "</p>")
		case 8:
			if g.n(3) == 0 {
				b.WriteString(g.hostile())
				break
			}
			fallthrough
		default:
			b.WriteString(from(g, soupTexts))
		}
	}
	if g.bool() {
		for len(open) > 0 {
			b.WriteString("</" + open[len(open)-1] + ">")
			open = open[:len(open)-1]
		}
	}
	return b.String()
}

// hostile is a piece of a page that may turn into something else when parts of it are
// removed, decoded or written out.
func (g *G) hostile() string {
	gone := func() string {
		return pick(g, "<script></script>", "<style></style>", "<!-- -->", "<input/>", "<x:script></x:script>", "<noscript></noscript>", "<link/>", "<font>", "<h1></h1>", "<aside></aside>", "<p></p>", "<span hidden=\"\"></span>", "<![CDATA[]]>", "<x:>", "</b>", "<br/>", "<iframe></iframe>", "<object></object>", "<title></title>")
	}
	evil := pick(g, "script>alert(1)", "script>", "style>", "h1>", "font>", "input>", "a href=javascript:x>", "noscript>", "textarea>", "footer>", "button>", "p style=x>", "aside>")
	name := evil[:strings.IndexAny(evil, " >")]
	w := g.word()
	esc := strings.NewReplacer("<", "&lt;", ">", "&gt;", `"`, "&quot;")
	switch g.n(16) {
	case 0, 1:
		return w + " <" + gone() + evil + w + " <" + gone() + "/" + name + ">"
	case 2:
		return w + "<" + gone() + gone() + evil
	case 3:
		return w + pick(g, "&lt;", "&#60;", "&#x3c;", "&#x3C;", "&amp;lt;", "&#38;lt;", "&LT;", "&#060;", "&lt") + evil + w + "&lt;/" + name + "&gt;"
	case 4:
		return "<![CDATA[<" + evil + w + "</" + name + ">]]>"
	case 5:
		in := "<" + evil + w + "</" + name + ">"
		return fmt.Sprintf("<%[1]s %[2]s=\"%[3]s\">%[4]s</%[1]s>", pick(g, "b", "a", "p", "span", "x-y"), pick(g, "title", "href", "alt", "data-x", "class", "id"), pick(g, `&quot;>`+in, esc.Replace(`">`+in), `'>`+in, "&#34;&#62;"+esc.Replace(in)), w)
	case 6:
		t := pick(g, "title", "textarea", "xmp", "noembed", "iframe", "noframes", "style", "script", "template", "noscript", "plaintext")
		return "<" + t + "><" + evil + w + "</" + name + "></" + t + ">"
	case 7:
		return pick(g, "<x:<", "<x:", "<x:y:", "<:", "<x::", "<x:>", "<x:1", "<x:-", "<x:&lt;", "<x:\"") + evil + w + "</x:" + name + ">"
	case 8:
		t := pick(g, "svg", "math")
		u := pick(g, "title", "desc", "style", "script", "mtext", "annotation-xml", "foreignobject", "g", "textarea", "xmp")
		return "<" + t + "><" + u + "><" + evil + w + "</" + name + "></" + u + "></" + t + ">"
	case 9:
		return `<img src="data:image/gif;base64,R0lG"/><noscript><img src="x.jpg" ` + pick(g, "alt", "title", "data-x", "onerror") + `="` + pick(g, "<", "&lt;", "&quot;><") + evil + `"/></noscript>`
	case 10:
		return "<noscript><img src=\"x.jpg\"/><" + evil + w + "</" + name + "></noscript>"
	case 11:
		return "<" + strings.ToUpper(evil) + w + "</" + name + pick(g, ">", " >", "/>", " x=y>")
	case 12:
		return "<" + name + pick(g, "/", " /", "\n", "\t", "\x00", "\f", "/x=", " a=\"b") + ">" + w + "</" + name + ">"
	case 13:
		return "<!--" + pick(g, "", ">", "->", "-", "!", "<!--") + "<" + evil + pick(g, "-->", "--!>", "->", "") + w
	case 14:
		return "<" + pick(g, "!", "?", "/", "%", "!x ", "?xml ", "/ ", "!DOCTYPE ") + evil + w + "<" + evil
	default:
		return "<table><" + evil + w + "</" + name + "><tr><td>" + w + "</table>"
	}
}

// shells puts elements into others of the kind of their parents, or of one of their own kind.
func (g *G) shells(p *N) {
	for _, n := range p.all("*") {
		if !n.is("div", "section", "article", "main", "td", "blockquote", "p", "span", "ul", "li") || g.n(4) > 0 {
			continue
		}
		in := &N{Tag: n.Tag, At: n.At, Kids: n.Kids}
		for i := g.between(1, 3); i > 0; i-- {
			in = el(pick(g, n.Tag, "div", "section", "article", "span"), in)
			for g.n(3) > 0 {
				g.inert(in)
			}
		}
		n.Tag, n.At, n.Kids = in.Tag, in.At, in.Kids
		if g.bool() {
			n.Tag = pick(g, "div", "section", "article")
		}
	}
}

// mutate damages a source: deletes, repeats, swaps pieces and puts foreign tokens in.
func (g *G) mutate(s string, times int) string {
	for ; times > 0 && len(s) > 0; times-- {
		i := g.n(len(s))
		j := min(len(s), i+pick(g, 1, 1, 2, 5, 20, 100))
		switch g.n(7) {
		case 0:
			s = s[:i] + s[j:]
		case 1:
			s = s[:j] + s[i:]
		case 2:
			k := g.n(len(s))
			s = s[:k] + s[i:j] + s[k:]
		case 3:
			s = s[:i] + g.soupTag() + s[i:]
		case 4:
			s = s[:i] + from(g, soupTexts) + s[i:]
		case 5:
			s = s[:i] + "</" + from(g, soupTags) + ">" + s[i:]
		default:
			s = s[:i] + string([]byte{byte(g.n(256))}) + s[min(len(s), i+1):]
		}
	}
	return s
}

// deep nests elements.
func (g *G) deep() string {
	d := pick(g, 10, 20, 50, 50, 100, 100, 200)
	if g.n(12) == 0 {
		d = pick(g, 300, 1000)
	}
	var cyc []string
	for i := g.between(1, 3); i > 0; i-- {
		cyc = append(cyc, pick(g, "div", "p", "span", "b", "table", "tr", "td", "ul", "li", "blockquote", "section", "font", "svg", "noscript", "a", "del", "ins", "center", "x", "h2", "article"))
	}
	if d > 200 { // the density of nested links takes cubic time
		for i := range cyc {
			if cyc[i] == "a" {
				cyc[i] = "q"
			}
		}
	}
	var b strings.Builder
	b.WriteString("<html><body>" + pick(g, "", "<div>", "<div>x<br/><br/>", "<div><p>x</p>", "<table><tr><td>", "<div><img/>"))
	for i := 0; i < d; i++ {
		b.WriteString("<" + cyc[i%len(cyc)] + ">")
		if d < 200 && g.n(10) == 0 {
			b.WriteString(g.textOf(g.between(3, 60), 10))
		}
	}
	b.WriteString(g.textOf(g.between(3, 600), 10))
	if g.bool() {
		for i := d - 1; i >= 0; i-- {
			b.WriteString("</" + cyc[i%len(cyc)] + ">")
		}
		b.WriteString("</body></html>")
	}
	return b.String()
}

// wide repeats a piece.
func (g *G) wide() string {
	piece := pick(g, "<br/>", "<br/> x", "<p>x</p>", "<div><br/></div>", "text ", "<a href='#'>l</a>", "<li>i</li>", "<img/>", "<b><i>", "&amp;", "<div>", "</div>", "<!-- -->", "<td>", "<p>"+g.textOf(60, 10)+"</p>", "<div><p>"+g.textOf(90, 10)+"</p></div>")
	return "<html><body><div>" + strings.Repeat(piece, pick(g, 10, 100, 300, 600)) + g.textOf(g.size(), 10) + "</div></body></html>"
}

var seedPages []string

// loadSeeds reads the smaller pages of the repository's test data.
func loadSeeds(verif, work string) error {
	files, err := filepath.Glob("/repo/testdata/test-pages/*/source.html")
	if err != nil {
		return err
	}
	sort.Strings(files)
	for _, f := range files {
		if st, err := os.Stat(f); err == nil && st.Size() < 60_000 {
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			seedPages = append(seedPages, string(b))
		}
	}
	if len(seedPages) == 0 {
		seedPages = []string{"<html><body><p>x</p></body></html>"}
	}
	return nil
}

// window is a piece of a real page, maybe damaged.
func (g *G) window() string {
	s := from(g, seedPages)
	if g.n(4) > 0 {
		i := g.n(len(s))
		s = s[i:min(len(s), i+pick(g, 200, 1000, 4000, 12000))]
	}
	if g.bool() {
		s = g.mutate(s, g.between(1, 6))
	}
	return s
}

// anySource makes a source of any kind, well-formed or not.
func (g *G) anySource() (kind, src string) {
	switch g.n(15) {
	case 12, 13:
		return "head", g.wildHead()
	case 14:
		p := pick(g, g.boundaryPage, g.boundaryPage, g.contestPage, g.richPage)()
		if g.n(3) == 0 {
			g.shells(p)
		}
		if g.bool() {
			g.dress(p)
			for _, b := range p.all("body") {
				g.inert(b)
			}
		}
		if g.n(3) == 0 {
			return "damaged page", g.mutate(p.String(), g.between(1, 4))
		}
		return "page", p.String()
	case 0:
		g.exotic = g.bool()
		s := g.richPage().String()
		if g.bool() {
			return "damaged page", g.mutate(s, g.between(1, 8))
		}
		return "page", s
	case 1:
		g.exotic = g.bool()
		return "page", g.page(pick(g, 8, 20, 40)).String()
	case 2, 3, 4:
		g.exotic = g.bool()
		return "damaged page", g.mutate(g.page(pick(g, 8, 20, 40)).String(), g.between(1, 8))
	case 5, 6:
		return "soup", pick(g, "", "<body>", "<p><body>", "<html><body>", "<"+from(g, soupTags)+"><body>", "<html><"+from(g, soupTags)+"><body>", "<html></html><body>", "<body><html>") + g.soup(g.between(1, 40))
	case 7:
		return "soup in a page", "<html><head><title>t</title></head><body>" + g.soup(g.between(1, 40)) + "</body></html>"
	case 8:
		n := g.between(0, 60)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(g.n(256))
		}
		return "bytes", string(b)
	case 9:
		return "deep", g.deep()
	case 10:
		return "wide", g.wide()
	default:
		return "window", pick(g, "", "<body>", "<body><div>", "<html><body>") + g.window()
	}
}

// wildHead is a small page with odd metadata.
func (g *G) wildHead() string {
	var b strings.Builder
	b.WriteString("<html><head>")
	if g.n(4) > 0 {
		b.WriteString("<title>")
		for i := g.n(7); i > 0; i-- {
			b.WriteString(pick(g, ":", ": ", " : ", " - ", "-", " | ", "|", " / ", " > ", " \u00bb ", "\u00bb", "word", "word", "several words of it", " ", "&nbsp;", "&#160;", "\u00e9", "\xff", "&#0;", "&#x110000;", "&#99999999999;", strings.Repeat("long ", 35)))
		}
		b.WriteString("</title>")
	}
	for i := g.n(3); i > 0; i-- {
		fmt.Fprintf(&b, `<script type="application/ld+json">%s</script>`, g.wildLD())
	}
	for i := g.n(4); i > 0; i-- {
		n := g.meta()
		if g.n(3) == 0 {
			n.set("content", pick(g, "&#0;", "&#x110000;", "&#xd800;", "&#99999999;", "&", "&;", "&#;", "&#x;", "&lt;&lt", "\x00"))
		}
		b.WriteString(n.String())
	}
	if g.n(3) == 0 {
		fmt.Fprintf(&b, `<base href="%s"/>`, pick(g, "", "%", "http://[", ":", "//", "http://h.example/%zz/", "x", "#", "?", "\x7f", "http://a b/"))
	}
	b.WriteString("</head><body>")
	for i := g.n(3); i > 0; i-- {
		fmt.Fprintf(&b, "<%[1]s>%[2]s</%[1]s>", pick(g, "h1", "h2", "h1", "p"), pick(g, "", " ", "word", "word: several words of it", "several words of it"))
	}
	fmt.Fprintf(&b, `<p>%s<img src="%s" srcset="%s" alt="a.jpg"/><a href="%s">x</a></p>`, g.textOf(60, 10),
		pick(g, "", "data:image/gif;base64,R0lG", "data:image/gif ; base64 ,", "data:base64,x", "data:;base64,", "%", "http://["),
		pick(g, "", ",", ",,", "a", "a 1x,", " , a 1x", "a 1x b 2x", "% 1x", "http://[ 2w"),
		pick(g, "", "#", "%", "http://[", "javascript:", "JavaScript:x", "\x01javascript:", "//", "mailto:", "\xffjavascript:"))
	b.WriteString("</body></html>")
	return b.String()
}

// wildLD is JSON-LD of an article whose fields have any type.
func (g *G) wildLD() string {
	var value func(depth int) any
	value = func(depth int) any {
		switch g.n(9) {
		case 0:
			return nil
		case 1:
			return pick(g, 0, 1, -5)
		case 2:
			return g.bool()
		case 3:
			if depth > 0 {
				l := []any{}
				for i := g.n(4); i > 0; i-- {
					l = append(l, value(depth-1))
				}
				return l
			}
		case 4, 5:
			if depth > 0 {
				m := map[string]any{}
				for _, k := range []string{"name", "@type", "x"} {
					if g.n(2) == 0 {
						m[k] = value(depth - 1)
					}
				}
				return m
			}
		}
		return pick(g, "a", "", "  several words of it ", "NewsArticle", "&#0;")
	}
	m := map[string]any{}
	for _, k := range []string{"name", "headline", "author", "description", "publisher", "datePublished"} {
		if g.n(5) > 0 {
			m[k] = value(3)
		}
	}
	if g.n(8) > 0 {
		m["@type"] = pick(g, "Article", "NewsArticle", "BlogPosting")
	} else {
		m["@type"] = value(2)
	}
	top := m
	if g.n(5) == 0 {
		top = map[string]any{"@graph": []any{value(2), m, value(1)}}
		if g.n(4) == 0 {
			top["@graph"] = value(2)
		}
		if g.n(4) == 0 {
			top["@type"] = value(1)
		}
	}
	top["@context"] = "https://schema.org"
	if g.n(10) == 0 {
		top["@context"] = value(2)
	}
	d, err := json.Marshal(top)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	return string(d)
}

func (g *G) anyURI() string {
	switch g.n(8) {
	default:
		return docURI
	case 1:
		return pick(g, "", " ", "x", "/", "//", ":", "http:", "http://", "http://[::1", "%", "%zz", "http://h/%zz", "mailto:a@b", "data:,x", "#", "?", "\x00", "\n", "http://h h/", "file:///a/b", "http://h:99999/", "HTTP://H/../..", "../..", "é", "\xff")
	case 2, 3:
		b := []byte(docURI)
		for i := g.between(1, 4); i > 0; i-- {
			b[g.n(len(b))] = pick(g, byte(':'), '/', '%', '[', ']', '@', '?', '#', ' ', '\n', 0, 255, '.', 'a')
		}
		return string(b)
	}
}

// anyOptions: all the values a program may pass.
func (g *G) anyOptions() Opt {
	var o Opt
	num := func() *int {
		return ptr(pick(g, -1<<63, -5, -1, 0, 1, 2, 25, 100, 500, 100000, 1<<62))
	}
	if g.n(4) == 0 {
		o.Max = num()
	}
	if g.n(3) == 0 {
		o.Thr = num()
	}
	if g.n(4) == 0 {
		o.Top = ptr(pick(g, -7, -1, 0, 1, 2, 3, 50))
	}
	if g.n(6) == 0 {
		o.Classes = []string{pick(g, "", " ", "c1", "(", "page", "é")}
	}
	o.Keep = g.n(5) == 0
	o.NoLD = g.n(5) == 0
	if g.n(6) == 0 {
		o.Video = ptr(pick(g, "", ".", "x"))
	}
	if g.n(4) == 0 {
		o.MinLen = num()
	}
	if g.n(4) == 0 {
		o.MinSc = ptr(pick(g, -1.0, 0, 0.5, 20, 1e300))
	}
	return o
}

func describe(src string) string { return fmt.Sprintf("%q", clip(src, 600)) }
