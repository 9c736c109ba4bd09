package main

import (
	"fmt"
	"regexp"
	"strings"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
	"pgregory.net/rapid"
)

// C11: reading and writing markup are inverse to each other.

type markupCase struct {
	Kind string
	Tree []*N  `json:",omitempty"`
	Sp   []int `json:",omitempty"` // how the tree is spelled
	Soup Raw   `json:",omitempty"`
	Text Raw   `json:",omitempty"`
}

func init() {
	register(&Prop{
		ID: "C11",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &markupCase{}
			switch g.n(6) {
			case 0:
				c.Kind = "soup"
				c.Soup = Raw(g.soup(g.between(1, 14)))
			case 1:
				c.Kind = "text"
				var b strings.Builder
				for i := g.between(0, 12); i > 0; i-- {
					b.WriteString(pick(g, "a", " ", "&", "<", ">", `"`, "'", "&amp;", "&lt;", "&#65;", "&#x42;", "&nbsp;", ";", "#", "é", "日", "𝒳", "\n", "]]>", "<!--", "-->", "</p>", "<b>", "\r", "\t", g.anyChar(), g.anyChar(), "lt;", "amp;", "&#", "&#x", "&quot;", "&apos;", "&amp;lt;"))
				}
				c.Text = Raw(b.String())
			default:
				c.Kind = "tree"
				for i := g.between(1, 4); i > 0; i-- {
					c.Tree = append(c.Tree, g.markup(g.between(0, 4)))
				}
				if g.n(3) > 0 {
					for i := g.between(1, 24); i > 0; i-- {
						c.Sp = append(c.Sp, g.n(256))
					}
				}
			}
			return c
		},
		New:   func() Case { return &markupCase{} },
		Check: checkC11,
		Shrink: func(cc Case) []func() Case {
			c := cc.(*markupCase)
			var out []func() Case
			for i := range c.Tree {
				out = append(out, func() Case {
					d := *c
					d.Tree = append(append([]*N{}, c.Tree[:i]...), c.Tree[i+1:]...)
					return &d
				})
				for _, f := range c.Tree[i].smaller() {
					out = append(out, func() Case {
						d := *c
						d.Tree = append(append([]*N{}, c.Tree[:i]...), f())
						d.Tree = append(d.Tree, c.Tree[i+1:]...)
						return &d
					})
				}
			}
			if len(c.Sp) > 0 {
				out = append(out, func() Case { d := *c; d.Sp = nil; return &d })
				for i := range c.Sp {
					out = append(out, func() Case { d := *c; d.Sp = append(append([]int{}, c.Sp[:i]...), c.Sp[i+1:]...); return &d })
				}
			}
			s := string(c.Soup)
			for n := len(s) / 2; n > 0; n /= 2 {
				for i := 0; i+n <= len(s); i += n {
					out = append(out, func() Case { d := *c; d.Soup = Raw(s[:i] + s[i+n:]); return &d })
				}
			}
			return out
		},
		Quick: 120000, Thorough: 1500000,
		Rule:   "random trees of elements (ordinary, void, prefixed, custom) with any attributes and any characters in texts and attribute values, spelled in many ways (case of names, quotes, blanks, self-closing, references of every kind, comments, CDATA sections); tag soup; arbitrary strings set as text. What is read must be the tree, its markup must be well-formed, must be read as the same tree by the library and with the same elements, texts and attributes by a browser's parser, and reading and writing it again must change nothing. Non-trivial: a tree of five or more nodes with characters that have to be escaped.",
		Assume: []string{"a carriage return in an attribute of a source is a line end", "of the named references in texts only the five of XML are known to the library, others stay as they are"},
	})
}

// markup is a tree without any constraint but those of the syntax.
func (g *G) markup(depth int) *N {
	str := func() string {
		var b strings.Builder
		for i := g.between(1, 5); i > 0; i-- {
			b.WriteString(pick(g, "a", "word", " ", "&", "<", ">", `"`, "'", "&amp;", "&lt;", "&#65;", "é", "日", "𝒳", "\n", "]", "--", "</b>", "<b>", ";", "=", "/", "&nbsp", "\u00a0", "x&y", "\r\n", "\t", g.anyChar()))
		}
		return b.String()
	}
	if depth <= 0 || g.n(4) == 0 {
		switch g.n(5) {
		case 0:
			e := el(pick(g, "br", "img", "hr", "wbr", "area", "col", "embed", "input", "link", "meta", "param", "source"))
			if g.bool() {
				e.with(pick(g, "alt", "title", "src", "data-y"), noCR(str()))
			}
			if g.n(8) == 0 { // nothing for a browser, but well-formed
				e.add(tx(str()))
			}
			return e
		default:
			n := tx(str())
			n.Enc = g.n(numEnc)
			return n
		}
	}
	if g.n(12) == 0 { // nothing but their tags
		return el(pick(g, "title", "textarea", "script", "style", "iframe", "xmp", "noembed", "noframes", "noscript", "div", "p"))
	}
	e := el(pick(g, "div", "span", "div", "span", "b-b", "custom-el", "section", "em", "i", "p", "ul", "h3"))
	if g.n(4) == 0 {
		e.Tag = from(g, plainTags)
	}
	for i := g.n(4); i > 0; i-- {
		e.set(pick(g, "id", "class", "title", "data-x", "aria-label", "lang", "x_y", "data-a.b", "itemprop"), pick(g, "", "v", noCR(str()), noCR(str())))
	}
	for i := g.n(5); i > 0; i-- {
		k := g.markup(depth - 1)
		if k.Tag == "p" && e.Tag == "p" || strings.HasPrefix(e.Tag, "h") && strings.HasPrefix(k.Tag, "h") {
			continue
		}
		e.add(k)
	}
	return e
}

// noCR: a carriage return in an attribute is a line end to the tokenizer, as to a browser.
func noCR(s string) string { return strings.ReplaceAll(s, "\r", "") }

// Elements that only a list of them can tell from the others.
var plainTags = []string{"a", "abbr", "address", "article", "aside", "audio", "b", "bdi", "bdo", "big", "blockquote", "button", "canvas", "caption", "center", "cite", "code", "colgroup", "data", "datalist", "dd", "del", "details", "dfn", "dialog", "dir", "dl", "dt", "fieldset", "figcaption", "figure", "font", "footer", "form", "h1", "h2", "header", "ins", "kbd", "label", "legend", "li", "main", "map", "mark", "menu", "meter", "nav", "object", "ol", "optgroup", "option", "output", "picture", "pre", "progress", "q", "rp", "rt", "ruby", "s", "samp", "select", "slot", "small", "strike", "strong", "sub", "summary", "sup", "table", "tbody", "td", "template", "tfoot", "th", "thead", "time", "tr", "tt", "u", "var", "video"}

// spell writes a tree in one of many ways.
type speller struct {
	sp []int
	i  int
	b  strings.Builder
}

func (s *speller) next(k int) int {
	if len(s.sp) == 0 {
		return 0
	}
	v := s.sp[s.i%len(s.sp)]
	s.i++
	return v % k
}

func (s *speller) name(n string) string {
	if s.next(5) == 1 {
		return strings.ToUpper(n)
	}
	return n
}

func (s *speller) node(n *N) {
	if n.isText() {
		renderText(&s.b, n.Text, n.Enc)
		if s.next(12) == 3 {
			s.b.WriteString([]string{"<!-- a <b> c -->", "<!---->", "<!-- > -->"}[s.next(3)])
		}
		return
	}
	prefix := ""
	if s.next(9) == 1 {
		prefix = []string{"x:", "o:", "html:", "X:", "x:y:"}[s.next(5)]
	}
	s.b.WriteString("<" + prefix + s.name(n.Tag))
	for _, a := range n.At {
		s.b.WriteString([]string{" ", "\n", "  ", "\t"}[s.next(4)])
		s.b.WriteString(s.name(a.K))
		if a.V == "" && s.next(3) == 1 {
			continue
		}
		s.b.WriteString([]string{"=", " = ", "= "}[s.next(3)])
		v := escAttr.Replace(a.V)
		switch s.next(4) {
		case 1:
			s.b.WriteString("'" + strings.ReplaceAll(v, "'", "&#39;") + "'")
		case 2:
			plain := a.V != "" && !voidTags[n.Tag]
			for _, c := range a.V {
				if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9') {
					plain = false
				}
			}
			if plain {
				s.b.WriteString(a.V)
				break
			}
			s.b.WriteString(`"` + v + `"`)
		case 3: // < and > need no escape in quotes
			s.b.WriteString(`"` + strings.NewReplacer("&", "&#38;", `"`, "&#x22;").Replace(a.V) + `"`)
		default:
			s.b.WriteString(`"` + v + `"`)
		}
	}
	if voidTags[n.Tag] && len(n.Kids) == 0 {
		s.b.WriteString([]string{"/>", " />"}[s.next(2)])
		return
	}
	if len(n.Kids) == 0 && s.next(3) == 1 {
		s.b.WriteString(" />")
		return
	}
	s.b.WriteString([]string{">", " >"}[s.next(2)])
	for _, k := range n.Kids {
		s.node(k)
	}
	s.b.WriteString("</" + prefix + s.name(n.Tag) + []string{">", " >", "\n>"}[s.next(3)])
}

// Elements whose content is not markup.
var rRawText = regexp.MustCompile(`(?i)<[^>]*(title|textarea|style|iframe|xmp|noembed|noframes|plaintext)`)

var barePage = "<html><body><div><p>" + strings.Repeat("some words, and more of them. ", 30) + "</p></div></body></html>"

// withNode calls f with an element of the library.
func withNode(f func(n *readability.Node) error) error {
	var err error
	called := false
	_, perr := parsePage(barePage, docURI, Opt{}, readability.Serializer(func(n *readability.Node) string {
		if !called {
			called = true
			err = f(n)
		}
		return "<div>x</div>"
	}))
	if !called {
		return fmt.Errorf("no article was found in a page with nothing else: %v", perr)
	}
	return err
}

func checkC11(cc Case, o *Obs) error {
	c := cc.(*markupCase)
	o.Class(c.Kind)
	switch c.Kind {
	case "text":
		o.NonTrivial()
		return withNode(func(n *readability.Node) error { return c.text(n) })
	case "soup":
		if rRawText.MatchString(string(c.Soup)) {
			o.Class("soup with raw text elements, not judged")
			return nil
		}
		return withNode(func(n *readability.Node) error {
			n.SetInnerHTML(string(c.Soup))
			n.SetInnerHTML(n.GetInnerHTML()) // the markup of a void element with an ignored child is not minimal
			text, m1 := n.GetTextContent(), n.GetInnerHTML()
			n.SetInnerHTML(m1)
			if m2 := n.GetInnerHTML(); m1 != m2 {
				return fmt.Errorf("the markup %q is read and written as %q", clip(m1, 500), clip(m2, 500))
			}
			if t := n.GetTextContent(); t != text {
				return fmt.Errorf("the text is %q first and %q when its markup is read again", clip(text, 500), clip(t, 500))
			}
			return nil
		})
	}
	s := &speller{sp: c.Sp}
	want := el("#root")
	nodes := 0
	for _, k := range c.Tree {
		s.node(k)
		want.add(k)
		k.walk(func(*N) bool { nodes++; return true })
	}
	src := s.b.String()
	want = want.merged()
	if nodes >= 5 && strings.Contains(src, "&") {
		o.NonTrivial()
	}
	return withNode(func(n *readability.Node) error {
		for round := 1; round <= 2; round++ {
			n.SetInnerHTML(src)
			out := n.GetInnerHTML()
			x, err := parseX(out)
			if err != nil {
				return fmt.Errorf("round %d: %q is written as %q, which is not well-formed: %w", round, clip(src, 500), clip(out, 500), err)
			}
			if err := sameTree(want, x.merged()); err != nil {
				return fmt.Errorf("round %d: %q is written as %q: %w", round, clip(src, 500), clip(out, 500), err)
			}
			if got, w := n.GetTextContent(), want.text(); got != w {
				return fmt.Errorf("round %d: text of %q is %q, expected %q", round, clip(src, 500), clip(got, 300), clip(w, 300))
			}
			if round == 2 && out != src {
				return fmt.Errorf("%q is written as %q", clip(src, 500), clip(out, 500))
			}
			src = out
		}
		// What is written means the same to a browser, which moves some elements around.
		for _, e := range want.all("*") {
			if !e.is("div", "span", "b-b", "custom-el", "section", "audio", "video", "canvas", "abbr", "cite", "time", "article", "br", "img", "wbr", "source") || voidTags[e.Tag] && len(e.Kids) > 0 {
				return nil
			}
		}
		list, err := html.ParseFragment(strings.NewReader(src), &html.Node{Type: html.ElementNode, Data: "div", DataAtom: atom.Div})
		if err != nil {
			return nil
		}
		var texts, attrs, tags strings.Builder
		var walk func(n *html.Node)
		walk = func(n *html.Node) {
			if n.Type == html.TextNode {
				texts.WriteString(n.Data)
			}
			if n.Type == html.ElementNode {
				for _, a := range n.Attr {
					fmt.Fprintf(&attrs, "%s=%q ", a.Key, a.Val)
				}
				tags.WriteString("(" + n.Data)
				defer tags.WriteString(")")
			}
			for k := n.FirstChild; k != nil; k = k.NextSibling {
				walk(k)
			}
		}
		for _, k := range list {
			walk(k)
		}
		var wattrs, wtags strings.Builder
		var wwalk func(m *N)
		wwalk = func(m *N) {
			if m.isText() {
				return
			}
			for _, a := range m.At {
				fmt.Fprintf(&wattrs, "%s=%q ", a.K, a.V)
			}
			wtags.WriteString("(" + m.Tag)
			for _, k := range m.Kids {
				wwalk(k)
			}
			wtags.WriteString(")")
		}
		for _, k := range want.Kids {
			wwalk(k)
		}
		lines := strings.NewReplacer("\r\n", "\n", "\r", "\n").Replace // to a browser they are the same
		if lines(texts.String()) != lines(want.text()) {
			return fmt.Errorf("a browser reads %q as %q, expected %q", clip(src, 500), clip(texts.String(), 300), clip(want.text(), 300))
		}
		if attrs.String() != wattrs.String() {
			return fmt.Errorf("a browser reads %q with attributes %q, expected %q", clip(src, 500), clip(attrs.String(), 300), clip(wattrs.String(), 300))
		}
		if tags.String() != wtags.String() {
			return fmt.Errorf("a browser reads %q as the elements %s, expected %s", clip(src, 500), clip(tags.String(), 300), clip(wtags.String(), 300))
		}
		return nil
	})
}

// text: any string can be the text of an element, or the value of an attribute.
func (c *markupCase) text(n *readability.Node) error {
	s := string(c.Text)
	n.SetTextContent(s)
	if got := n.GetTextContent(); got != s {
		return fmt.Errorf("text %q after %q was set", got, s)
	}
	m := n.GetInnerHTML()
	x, err := parseX(m)
	if err != nil {
		return fmt.Errorf("text %q is written as %q: %w", s, m, err)
	}
	if x.text() != s || len(x.all("*")) != 0 {
		return fmt.Errorf("text %q is written as %q", s, m)
	}
	n.SetInnerHTML(m)
	if got := n.GetTextContent(); got != s || n.GetInnerHTML() != m {
		return fmt.Errorf("text %q, written as %q, is read as %q", s, m, got)
	}
	n.SetInnerHTML("<p>x</p>")
	p := n.FirstElementChild()
	p.SetAttribute("title", s)
	if got := p.GetAttribute("title"); got != s {
		return fmt.Errorf("attribute %q after %q was set", got, s)
	}
	if s != noCR(s) {
		return nil
	}
	m = n.GetInnerHTML()
	x, err = parseX(m)
	if err != nil || len(x.Kids) != 1 || x.Kids[0].attr("title") != s || len(x.Kids[0].At) != 1 {
		return fmt.Errorf("attribute %q is written as %q (%v)", s, m, err)
	}
	n.SetInnerHTML(m)
	if got := n.FirstElementChild().GetAttribute("title"); got != s || n.GetInnerHTML() != m {
		return fmt.Errorf("attribute %q, written as %q, is read as %q", s, m, got)
	}
	return nil
}
