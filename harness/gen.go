package main

import (
	"fmt"
	"regexp"
	"strings"

	readability "github.com/giulianopz/go-readability"
	"pgregory.net/rapid"
)

// G draws from rapid; every choice is uniform (rapid's own integers are biased towards
// the small ones, which is good for numbers and bad for picking from a vocabulary).
type G struct {
	t     *rapid.T
	words int
	// budget of elements that may still be made
	left int
	// what the page is about
	exotic bool // use characters outside of ASCII
	comma  rune // the comma of the page
}

func newG(t *rapid.T) *G { return &G{t: t} }

var coin = rapid.Bool()

// n is uniform in [0,k).
func (g *G) n(k int) int {
	if k <= 1 {
		return 0
	}
	bits := 3
	for 1<<(bits-3) < k {
		bits++
	}
	v := 0
	for i := 0; i < bits; i++ {
		v <<= 1
		if coin.Draw(g.t, "") {
			v |= 1
		}
	}
	return v * k >> bits
}

func (g *G) between(a, b int) int { return a + g.n(b-a+1) }
func (g *G) bool() bool           { return coin.Draw(g.t, "") }

// p is true in about pc cases of a hundred; it shrinks to false.
func (g *G) p(pc int) bool { return g.n(100) >= 100-pc }

func pick[T any](g *G, list ...T) T { return list[g.n(len(list))] }
func from[T any](g *G, list []T) T  { return list[g.n(len(list))] }

// ---------------------------------------------------------------- words and texts

var vocab = []string{"alpha", "river", "stone", "lamp", "seven", "window", "green", "under", "market", "paper", "slow", "early", "north", "metal", "salt", "travel", "quiet", "small", "bridge", "glass", "of", "the", "a", "in", "it", "so"}
var exoticWords = []string{"naïve", "über", "日本語", "текст", "ελλάς", "𝒳𝒴", "día", "été", "नमस्ते", "q&a", "<tag>", `say"it`, "o'clock", "5>4", "a&amp;b", "&lt;", "x&#38;y", "a[b[0]]", "]]", "x]]y", "]]>z", "-->", "<!--", "a\u00a0b", "\u00a0", "a\u2003b", "\ufeffq", "&nbsp;", "{{y}}", "%d", "$1", `\\\\n`, "\U00010348", "\U00010000x", "\U0001F600", "\U000e0041b", "\U0010fffd", "\ufffd", "\u0301e", "\u200db", "\u2028", "\u0085", "\ue000", "\u00ad", "ﬁ", "İ", "ß", "Σ", "\u3000"}

// word is never repeated on a page.
func (g *G) word() string {
	g.words++
	return fmt.Sprintf("%s%dz", vocab[(g.words*7)%20], g.words)
}

// textOf makes a text of exactly l characters if l is at least 3: words without repetition,
// sentences, commas.
func (g *G) textOf(l int, commaPc int) string {
	var b strings.Builder
	n := 0
	for n < l {
		w := ""
		if g.exotic && g.n(12) == 0 {
			w = from(g, exoticWords)
		} else {
			w = g.word()
		}
		b.WriteString(w)
		n += chars(w)
		if n >= l {
			break
		}
		if commaPc > 0 && g.n(100) < commaPc {
			if g.exotic && g.comma == 0 {
				g.comma = pick(g, ',', ',', '\u060C', '\uFE50', '\uFE10', '\uFE11', '\u2E41', '\u2E34', '\u2E32', '\uFF0C', '\u3001', '\u00B8')
			}
			if g.exotic && g.n(6) > 0 {
				b.WriteRune(g.comma)
			} else {
				b.WriteByte(',')
			}
			n++
			if g.n(8) == 0 {
				continue
			}
		} else if g.n(14) == 0 {
			b.WriteByte('.')
			n++
		}
		b.WriteByte(' ')
		n++
	}
	r := []rune(b.String())
	if len(r) > l {
		r = r[:l]
	}
	if len(r) > 0 && (r[len(r)-1] == ' ' || r[len(r)-1] == '&') {
		r[len(r)-1] = 'y'
	}
	return string(r)
}

// size draws a length with weight on the numbers the heuristics look at.
func (g *G) size() int {
	switch g.n(10) {
	case 0:
		return pick(g, 1, 2, 10)
	case 1, 2:
		return g.between(23, 27)
	case 3:
		return g.between(73, 83)
	case 4:
		return pick(g, 98, 99, 100, 101, 198, 199, 200, 201, 299, 300, 301)
	case 5, 6:
		return g.between(30, 95)
	default:
		return g.between(100, 330)
	}
}

func (g *G) textNode(s string) *N {
	n := tx(s)
	if g.n(8) == 0 {
		n.Enc = g.n(numEnc)
	}
	return n
}

func (g *G) text() *N {
	return g.textNode(g.textOf(g.size(), pick(g, 0, 10, 10, 25)) + pick(g, "", "", ".", ". "))
}

func (g *G) shortText() *N { return g.textNode(g.textOf(g.between(1, 24), 0) + pick(g, "", ".")) }

func (g *G) ws() *N { return tx(pick(g, " ", "\n", "\n  ", "\t", "  ")) }

// ---------------------------------------------------------------- vocabulary of attributes

func (g *G) className() string {
	var list []string
	for {
		switch g.n(12) {
		case 0, 1:
			list = append(list, g.decor(from(g, wUnlikely)))
		case 2, 3:
			list = append(list, g.decor(from(g, wPositive)))
		case 4, 5:
			list = append(list, g.decor(from(g, wNegative)))
		case 6:
			list = append(list, g.decor(from(g, wMaybe)))
		case 7:
			list = append(list, pick(g, "share", "sharedaddy", "my_share_bar", "shared", "post-share", "Share"))
		case 8:
			list = append(list, pick(g, "hid", "orchid y", "orchid", "x hid y", "hidden-xs", "page", "lazy", "caption", "fallback-image"))
		default:
			list = append(list, pick(g, "c1", "wrap", "x", "row", "k9"))
		}
		if g.n(3) != 0 {
			break
		}
	}
	return strings.Join(list, pick(g, " ", " ", "  ", "\n"))
}

func (g *G) decor(s string) string {
	switch g.n(8) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return "my-" + s
	case 2:
		return s + "-x"
	case 3:
		return "x" + s + "s"
	}
	return s
}

func (g *G) decorate(n *N) {
	if g.n(4) == 0 {
		n.with("class", g.className())
	}
	if g.n(8) == 0 {
		n.with("id", g.className())
	}
	if g.n(16) == 0 {
		n.with("role", pick(g, from(g, wRoles), "main", "article", "presentation", ""))
	}
	if g.n(16) == 0 {
		n.with("style", g.style())
	}
	if g.n(24) == 0 {
		n.with("hidden", pick(g, "", "hidden", "until-found"))
	}
	if g.n(24) == 0 {
		n.with("aria-hidden", pick(g, "true", "false", ""))
	}
	if g.n(40) == 0 {
		n.with("aria-modal", pick(g, "true", "false"))
		n.set("role", pick(g, "dialog", "main"))
	}
	if g.n(30) == 0 {
		k := pick(g, "rel", "itemprop")
		n.with(k, pick(g, "author", "author name", "nofollow"))
	}
	if g.n(16) == 0 {
		n.set(from(g, aPresentational), pick(g, "1", "center", "x"))
	}
	if g.n(16) == 0 {
		n.set(pick(g, "width", "height"), pick(g, "1", "100%"))
	}
	if g.n(40) == 0 {
		n.set("dir", pick(g, "rtl", "ltr", "auto"))
	}
	if g.n(30) == 0 {
		n.set(pick(g, "data-x", "title", "lang", "aria-label"), pick(g, "v", "a \"b\" <c> & 'd'", ""))
	}
	if g.n(12) == 0 {
		g.inert(n)
	}
}

// Attributes that mean nothing to the algorithm.
var aInert = []string{"target", "download", "tabindex", "title", "accesskey", "data-id", "data-type", "aria-label", "aria-expanded", "aria-live", "contenteditable", "draggable", "translate", "loading", "decoding", "referrerpolicy", "ping", "hreflang", "media", "onclick", "onload", "xmlns", "slot", "is", "nonce", "cite", "datetime", "itemid", "itemscope", "itemtype", "for", "headers", "scope", "abbr", "start", "reversed", "open", "controls", "autoplay", "value", "label"}

// anyChar is a character of XML of any plane.
func (g *G) anyChar() string {
	for {
		c := rune(g.n(pick(g, 0x80, 0x250, 0x3100, 0x10000, 0x11000, 0x20000, 0x110000)))
		if c == '\t' || c == '\n' || c == '\r' || c >= 0x20 && c < 0xd800 || c >= 0xe000 && c < 0xfffe || c >= 0x10000 && c&0xfffe != 0xfffe {
			if c == 0x7f || c >= 0x80 && c < 0xa0 {
				continue
			}
			return string(c)
		}
	}
}

// dress gives many elements attributes without meaning, some of them several.
func (g *G) dress(page *N) *N {
	page.walk(func(n *N) bool {
		if !n.isText() && g.n(3) == 0 {
			for i := g.between(1, 4); i > 0; i-- {
				g.inert(n)
			}
		}
		return true
	})
	return page
}

// Those that belong to an element.
var aNatural = map[string][]string{
	"details": {"open"}, "dialog": {"open"}, "time": {"datetime"}, "ol": {"start", "reversed"}, "a": {"target", "hreflang", "ping", "download"},
	"video": {"controls", "autoplay", "loop", "muted"}, "audio": {"controls", "autoplay", "loop", "muted"}, "blockquote": {"cite"}, "q": {"cite"}, "li": {"value"},
	"th": {"scope", "abbr"}, "td": {"headers"}, "label": {"for"}, "img": {"loading", "decoding", "ismap"}, "form": {"action", "method", "novalidate"},
	"article": {"itemscope", "itemtype", "itemid"}, "body": {"itemscope", "itemtype", "onload", "data-page"}, "html": {"itemscope", "itemtype", "xmlns", "prefix"}, "section": {"itemscope", "aria-labelledby"},
	"abbr": {"title"}, "ins": {"datetime", "cite"}, "del": {"datetime", "cite"}, "button": {"disabled"}, "fieldset": {"disabled"}, "data": {"value"}, "p": {"contenteditable", "translate"}, "div": {"itemscope", "data-id", "tabindex"},
}

func (g *G) inert(n *N) {
	k := from(g, aInert)
	if l := aNatural[n.Tag]; l != nil && g.bool() {
		k = from(g, l)
	}
	if n.has(k) || n.is("meta", "base", "script", "object", "embed", "iframe", "param") {
		return
	}
	n.with(k, pick(g, "", "1", "true", "x y", k))
}

func (g *G) style() string {
	d := func() string {
		switch g.n(8) {
		case 0, 1:
			return g.cssSpell("display", "none")
		case 2, 3:
			return g.cssSpell("visibility", "hidden")
		case 4:
			return g.cssSpell("display", pick(g, "block", "inline", "flex", "grid"))
		case 5:
			return g.cssSpell("visibility", pick(g, "visible", "collapse"))
		case 6:
			return pick(g, "", "color", "margin: 0 auto", "background: url(http://h.example/x.png)", "overflow:hidden", "xdisplay:none", "display-x:none")
		}
		return "color: red"
	}
	s := d()
	for g.n(2) == 0 {
		s += pick(g, ";", "; ", " ;") + d()
	}
	return s + pick(g, "", ";")
}

func (g *G) cssSpell(k, v string) string {
	if g.n(5) == 0 {
		k = strings.ToUpper(k)
	}
	if g.n(5) == 0 {
		v = strings.ToUpper(v)
	}
	return pick(g, "", " ") + k + pick(g, ":", ": ", " :") + v + pick(g, "", "", "", " !important", "!important")
}

// ---------------------------------------------------------------- elements

func (g *G) spend() bool {
	if g.left <= 0 {
		return false
	}
	g.left--
	return true
}

func (g *G) url() string {
	return pick(g, "http://h.example/p", "https://x.example/a/b?c=d", "http://h.example/img/1.jpg")
}

func (g *G) link() *N {
	a := el("a").with("href", pick(g, "http://h.example/p", "https://x.example/a/b?c=d&e=f", "#top", "#", "http://h.example/q#r"))
	if g.n(6) == 0 {
		g.decorate(a)
	}
	if g.n(6) == 0 {
		g.inert(a)
	}
	if g.n(12) == 0 {
		a.unset("href")
	}
	return a.add(g.textNode(g.textOf(pick(g, 3, 8, 12, 20, 40, 90), 0)))
}

func (g *G) image() *N {
	i := el("img")
	if g.n(5) > 0 {
		i.with("src", "http://h.example/i/"+pick(g, "1.jpg", "2.png", "3"))
	}
	if g.n(5) == 0 {
		i.with("alt", "alt")
	}
	if g.n(6) == 0 {
		i.with("data-src", "http://h.example/lazy.jpg")
	}
	if g.n(10) == 0 {
		g.decorate(i)
	}
	return i
}

// phrase is an element for inline content: one the algorithm takes for phrasing content or
// one it does not.
func (g *G) phrase(kids ...*N) *N {
	switch g.n(12) {
	case 0:
		return el(pick(g, "u", "s", "tt", "bdi", "big", "canvas", "video", "picture", "svg", "math", "rp", "rt", "ins", "del", "map", "slot"), kids...)
	case 1, 2, 3, 4, 5:
		return el(from(g, tInline), kids...)
	}
	return el(pick(g, "b", "i", "em", "strong", "span", "code"), kids...)
}

// tInline: phrasing elements with content.
var tInline = func() []string {
	var l []string
	for _, t := range append(append([]string{}, tPhrasing...), "a", "del", "ins", "font") {
		switch t {
		case "br", "embed", "img", "input", "object", "script", "noscript", "wbr", "textarea", "select", "button", "iframe":
		default:
			l = append(l, t)
		}
	}
	return l
}()

// tContainers: what may hold paragraphs.
var tContainers = []string{"div", "div", "div", "section", "article", "td", "th", "blockquote", "ul", "ol", "li", "dl", "dd", "dt", "address", "form", "h1", "h2", "h3", "h4", "h5", "h6", "pre", "main", "center", "fieldset", "p", "header", "details", "figure", "span", "tr", "tbody", "table", "nav", "dialog", "menu", "hgroup", "x-card", "object", "ins", "a", "label", "caption", "figcaption", "legend", "summary", "video", "code", "thead", "tfoot"}

// tAny: elements of any kind that may hold others and whose content is markup.
var tAny = []string{"details", "summary", "figure", "figcaption", "dl", "dd", "dt", "address", "main", "header", "nav", "fieldset", "legend", "form", "label", "code", "pre", "center", "menu", "dialog", "hgroup", "search", "object", "video", "audio", "picture", "canvas", "q", "cite", "ins", "del", "a", "ruby", "time", "output", "article", "section", "blockquote", "li", "ol", "th", "tr", "tbody", "thead", "tfoot", "caption", "h2", "h3", "h4", "h5", "h6", "b", "em", "small", "sup", "sub", "kbd", "var", "abbr", "mark", "s", "u", "bdi", "bdo", "data", "map", "slot", "x-card", "custom", "big", "tt", "strike", "dir", "math", "button"}

// aAny: attributes that mean something, somewhere.
var aAny = []string{"class", "id", "rel", "itemprop", "role", "name", "type", "lang", "dir", "property", "src", "href", "form", "rev", "alt", "data-src", "summary", "content", "width", "height", "color", "face", "size", "colspan", "placeholder", "async", "defer"}

// attrs gives an element attributes of any kind.
func (g *G) attrs(n *N) *N {
	for g.n(2) == 0 {
		if g.n(3) == 0 {
			g.inert(n)
		} else {
			n.set(from(g, aAny), pick(g, "content", "x", "nofollow", "button", "ltr", "1", "url", "main", "image/png", "x.jpg", "text"))
		}
	}
	return n
}

// inline makes phrasing content.
func (g *G) inline(depth int) *N {
	switch g.n(14) {
	case 0, 1:
		if g.spend() {
			return g.link()
		}
	case 2, 3, 4:
		if g.spend() && depth > 0 {
			e := g.phrase()
			if g.n(4) == 0 {
				g.decorate(e)
			}
			for i := g.between(0, 2); i >= 0; i-- {
				e.add(g.inline(depth - 1))
			}
			return e
		}
	case 5:
		if g.spend() {
			return el("br")
		}
	case 6:
		if g.spend() && g.n(2) == 0 {
			return g.image()
		}
	case 7:
		if g.spend() && g.n(4) == 0 {
			return pick(g, el("button", tx(g.word())), el("input").with("type", "text"), el("textarea", tx(g.word())), el("select", el("option", tx(g.word()))), el("wbr"), el("script", tx("var x;")), el("style", tx("p {}")), el("noscript", tx(g.word())), el("link").with("rel", "x"))
		}
	case 8:
		return g.ws()
	}
	if g.n(3) == 0 {
		return g.shortText()
	}
	return g.text()
}

func (g *G) embed() *N {
	u := pick(g, "https://www.youtube.com/embed/x", "http://player.vimeo.com/1", "//archive.org/v", "http://ads.example/x", "https://evil.example/youtube.com")
	switch g.n(4) {
	case 0:
		return el("iframe").with("src", u)
	case 1:
		return el("embed").with("src", u)
	case 2:
		return el("object").with("data", u)
	default:
		return el("object", el("param").with("name", "movie").with("value", u))
	}
}

// block makes flow content.
func (g *G) block(depth int) *N {
	if !g.spend() || depth <= 0 {
		return el("p", g.text())
	}
	kids := func(e *N, k int, f func() *N) *N {
		for i := 0; i < k; i++ {
			e.add(f())
			if g.n(5) == 0 {
				e.add(g.ws())
			}
		}
		return e
	}
	flow := func() *N {
		switch g.n(6) {
		case 0:
			return g.inline(2)
		default:
			return g.block(depth - 1)
		}
	}
	inl := func() *N { return g.inline(2) }
	var e *N
	switch g.n(30) {
	case 0, 1, 2, 3, 4, 5, 6:
		e = kids(el("p"), g.between(1, 3), inl)
	case 7, 8, 9, 10, 11:
		e = kids(el("div"), g.between(0, 5), flow)
	case 12, 13:
		e = kids(el(pick(g, "section", "article", "main", "center", "header", "footer", "aside", "nav", "details")), g.between(0, 4), flow)
	case 14:
		e = kids(el("div"), g.between(0, 3), inl)
	case 15, 16:
		e = el(pick(g, "ul", "ol"))
		for i := g.between(0, 5); i > 0; i-- {
			e.add(kids(el("li"), g.between(1, 2), func() *N { return pick(g, g.inline(1), g.inline(1), g.block(depth-2)) }))
		}
	case 17:
		e = kids(el("blockquote"), g.between(1, 2), flow)
	case 18:
		e = el("pre", g.text())
	case 19, 20:
		e = g.table(depth)
	case 21:
		e = el(pick(g, "figure", "picture", "div"), g.image())
		if g.n(3) == 0 {
			e.add(el("figcaption", g.shortText()))
		}
		if g.n(3) == 0 {
			e.add(g.image())
		}
	case 22:
		e = kids(el(pick(g, "form", "fieldset")), g.between(0, 3), flow)
		if g.n(2) == 0 {
			e.add(el("input").with("type", "text"))
		}
	case 23, 24:
		e = el(pick(g, "h1", "h2", "h2", "h3", "h4"), g.shortText())
		if g.n(5) == 0 { // nothing in it
			e = el(pick(g, "h1", "h1", "h2", "h3", "h4", "h5", "h6"))
			switch g.n(5) {
			case 0:
				e.add(g.ws())
			case 1:
				e.add(el("br"))
			case 2:
				e.add(g.image())
			}
		}
	case 25:
		e = g.embed()
	case 26:
		e = el("hr")
	case 27:
		e = el(pick(g, "dl", "address"), g.text())
	case 28:
		e = kids(el("div"), g.between(1, 3), func() *N { return g.link() })
	default:
		e = kids(el("div"), g.between(2, 4), func() *N {
			if g.n(2) == 0 {
				return el("br")
			}
			return g.inline(1)
		})
	}
	if g.n(3) == 0 {
		g.decorate(e)
	}
	return e
}

func (g *G) table(depth int) *N {
	t := el("table")
	body := t
	if g.n(2) == 0 {
		body = el("tbody")
		t.add(body)
	}
	rows, cols := pick(g, 1, 1, 2, 3, 4, 9, 10, 11), pick(g, 1, 1, 2, 3, 4, 5)
	if rows*cols > 24 {
		rows = 2
	}
	for r := 0; r < rows; r++ {
		tr := el("tr")
		for c := 0; c < cols; c++ {
			td := el("td")
			switch g.n(6) {
			case 0:
				td.add(g.link())
			case 1:
				if g.left > 0 && depth > 1 {
					td.add(g.block(depth - 2))
				}
			case 2:
			default:
				td.add(g.shortText())
			}
			if g.n(20) == 0 {
				td.with("colspan", pick(g, "2", "4", "0", "x"))
			}
			tr.add(td)
		}
		if g.n(20) == 0 {
			tr.with("rowspan", pick(g, "2", "9", "0", "y"))
		}
		body.add(tr)
	}
	switch g.n(10) {
	case 0:
		t.with("role", "presentation")
	case 1:
		t.with("summary", pick(g, "data", ""))
	case 2:
		t.Kids = append([]*N{el("caption", tx("about"))}, t.Kids...)
	case 3:
		t.with("datatable", pick(g, "0", "1"))
	case 4:
		t.Kids = append([]*N{el("thead", el("tr", el("th", tx("head"))))}, t.Kids...)
	}
	return t
}

// page makes a whole document with about size elements.
func (g *G) page(size int) *N {
	g.left = size
	head := el("head")
	if g.n(8) > 0 {
		head.add(el("title", tx(g.textOf(pick(g, 8, 20, 40, 60), 0))))
	}
	body := el("body")
	switch g.n(4) {
	case 0: // anything
		for i := g.between(1, 7); i > 0; i-- {
			body.add(g.bodyPart(5))
		}
	default: // an article with things around it
		around := func() {
			for i := g.n(3); i > 0; i-- {
				body.add(g.bodyPart(3))
			}
		}
		around()
		body.add(g.article())
		around()
	}
	if g.n(10) == 0 {
		g.decorate(body)
	}
	html := el("html", head, body)
	if g.n(6) == 0 {
		html.with("lang", pick(g, "en", "it-IT", ""))
	}
	if g.n(12) == 0 {
		html.with("dir", pick(g, "rtl", "ltr"))
	}
	if g.n(12) == 0 {
		g.rootNames(html)
	}
	return html
}

func (g *G) bodyPart(depth int) *N {
	if g.n(10) == 0 {
		return g.inline(2)
	}
	return g.block(depth)
}

// article makes something with enough text to be found, in one of many shapes.
func (g *G) article() *N {
	box := el(pick(g, "div", "article", "section", "div", "main", "td", from(g, tContainers)))
	if box.Tag == "td" {
		inner := g.articleBody(el("td"))
		return el("table", el("tr", inner))
	}
	if g.n(2) == 0 {
		box.with("class", pick(g, "content", "story", "post", "x", "entry page"))
	}
	if g.n(10) == 0 {
		g.decorate(box)
	}
	g.articleBody(box)
	for i := g.n(3); i > 0; i-- {
		box = el(pick(g, "div", "section", "div", from(g, tContainers)), box)
		if g.n(3) == 0 {
			g.decorate(box)
		}
		if g.n(2) == 0 {
			box.add(g.bodyPart(2))
		}
	}
	return box
}

func (g *G) articleBody(box *N) *N {
	for i := g.between(2, 6); i > 0; i-- {
		switch g.n(8) {
		case 0:
			box.add(g.block(3))
		case 1:
			box.add(el("div", g.text(), el("p", g.text())))
		case 2:
			box.add(g.text(), el("br"), pick(g, el("br"), el("b", g.text())), g.text())
		case 3:
			box.add(el("div", el("p", g.text())))
		default:
			p := el("p", g.text())
			if g.n(3) == 0 {
				p.add(g.inline(1), g.text())
			}
			box.add(p)
		}
	}
	return box
}

// ---------------------------------------------------------------- options

// Opt is a set of options that survives JSON.
type Opt struct {
	Max     *int     `json:",omitempty"`
	Top     *int     `json:",omitempty"`
	Thr     *int     `json:",omitempty"`
	Classes []string `json:",omitempty"`
	Keep    bool     `json:",omitempty"`
	NoLD    bool     `json:",omitempty"`
	Video   *string  `json:",omitempty"` // "" is a nil regexp
	MinLen  *int     `json:",omitempty"`
	MinSc   *float64 `json:",omitempty"`
}

func ptr[T any](v T) *T { return &v }

func (o Opt) list() []readability.Option {
	var l []readability.Option
	if o.Max != nil {
		l = append(l, readability.MaxElemsToParse(*o.Max))
	}
	if o.Top != nil {
		l = append(l, readability.NTopCandidates(*o.Top))
	}
	if o.Thr != nil {
		l = append(l, readability.CharThreshold(*o.Thr))
	}
	if o.Classes != nil {
		l = append(l, readability.ClassesToPreserve(o.Classes...))
	}
	if o.Keep {
		l = append(l, readability.KeepClasses(true))
	}
	if o.NoLD {
		l = append(l, readability.DisableJSONLD(true))
	}
	if o.Video != nil {
		l = append(l, readability.AllowedVideoRegex(o.video()))
	}
	if o.MinLen != nil {
		l = append(l, readability.MinContentLength(*o.MinLen))
	}
	if o.MinSc != nil {
		l = append(l, readability.MinScore(*o.MinSc))
	}
	return l
}

func (o Opt) video() *regexp.Regexp {
	if o.Video == nil {
		return rVideos
	}
	if *o.Video == "" {
		return nil
	}
	re, err := regexp.Compile(*o.Video)
	if err != nil {
		return nil
	}
	return re
}

func (o Opt) ref() refOpts {
	r := defaultRef()
	if o.Top != nil {
		r.Top = *o.Top
	}
	if o.Thr != nil {
		r.Threshold = *o.Thr
	}
	r.Keep, r.Classes, r.NoLD, r.Video = o.Keep, o.Classes, o.NoLD, o.video()
	return r
}

// options draws the options that influence the extraction.
func (g *G) options() Opt {
	var o Opt
	switch g.n(6) {
	case 0:
		o.Thr = ptr(pick(g, 1, 1, 25, 26))
	case 1, 2:
		o.Thr = ptr(g.between(30, 700))
	case 3:
		o.Thr = ptr(5000)
	}
	if g.n(6) == 0 {
		o.Top = ptr(pick(g, 1, 2, 3, 4, 6, 10, 0))
	}
	if g.n(8) == 0 {
		o.Keep = true
	}
	if g.n(8) == 0 {
		o.Classes = []string{pick(g, "c1", "wrap", "caption", "share", "content", "page")}
	}
	if g.n(12) == 0 {
		o.Video = ptr(pick(g, "", "evil", "^http://ads"))
	}
	return o
}

// article parses a page with the library.
func parsePage(src, uri string, o Opt, more ...readability.Option) (*readability.Result, error) {
	r, err := readability.New(src, uri, append(o.list(), more...)...)
	if err != nil {
		return nil, err
	}
	return r.Parse()
}
