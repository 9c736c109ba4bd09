package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
	"pgregory.net/rapid"
)

// C03: the fields of a result tell the same story.

type coherentCase struct {
	Kind string
	Page *N  `json:",omitempty"`
	HTML Raw `json:",omitempty"`
	Opt  Opt
	Ser  int // which serializer
	H2T  int // which text converter
}

func init() {
	register(&Prop{
		ID: "C03",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &coherentCase{}
			g.exotic = g.bool()
			switch g.n(6) {
			case 0:
				var s string
				c.Kind, s = g.anySource()
				c.HTML = Raw(s)
			case 1, 2:
				c.Kind = "article"
				c.Page = g.richPage()
			default:
				c.Kind, c.Page = "page", g.page(pick(g, 3, 8, 15, 30))
			}
			if c.Page != nil && g.n(6) == 0 {
				// little text, or none: the last resort of the extraction
				c.Page.walk(func(n *N) bool {
					if n.isText() && g.n(3) > 0 {
						n.Text = pick(g, "", " ", "\n", "x", "é")
					}
					return true
				})
			}
			c.Opt = g.options()
			if g.n(12) == 0 {
				c.Opt.Thr = ptr(pick(g, 0, -1))
			}
			if g.n(3) == 0 {
				c.Ser = g.between(1, 4)
			}
			if g.n(3) == 0 {
				c.H2T = g.between(1, len(converters)-1)
			}
			return c
		},
		New:   func() Case { return &coherentCase{} },
		Check: checkC03,
		Shrink: func(cc Case) []func() Case {
			c := cc.(*coherentCase)
			var out []func() Case
			if c.Page != nil {
				for _, f := range c.Page.smaller() {
					out = append(out, func() Case { d := *c; d.Page = f(); return &d })
				}
			}
			for _, o := range c.Opt.smaller() {
				out = append(out, func() Case { d := *c; d.Opt = o; return &d })
			}
			out = append(out, func() Case { d := *c; d.Ser = 0; return &d }, func() Case { d := *c; d.H2T = 0; return &d })
			return out
		},
		Setup: loadSeeds,
		Quick: 30000, Thorough: 800000,
		Rule:   "random pages (some with almost no text), articles and tag soup, random options, none or one of several serializers and text converters. The content is what the serializer returned for the article, the text is the decoded text of the content (or what the converter made of the content), the length is its number of characters, the content has the single wrapper and some text. Non-trivial: an article with characters outside of ASCII or escaped characters, or custom functions.",
		Assume: []string{"with a character threshold below 1 an attempt without any text is good enough, so neither text nor wrapper is demanded then"},
	})
}

var serializers = []func(s string) string{
	nil,
	func(s string) string { return "[" + s + "]" },
	func(s string) string { return strings.ToUpper(s) + " é" },
	func(s string) string { return "" },
	func(s string) string { return s }, // and changes the article
}

var converters = []func(s string) string{
	nil,
	func(s string) string { return "text of " + fmt.Sprint(len(s)) + " bytes: " + s },
	func(s string) string { return strings.Repeat("é𝒳", len(s)%7) },
	func(s string) string { return "" },
	func(s string) string { return " \r\n\u00a0a\r\n\r\nb\x00\n\t " + s + "\r\n " },
	func(s string) string { return "e\u0301 \u200d\U0001f468\u200d\U0001f469 &amp; <b>x</b>" },
}

func checkC03(cc Case, o *Obs) error {
	c := cc.(*coherentCase)
	if c.Ser < 0 || c.Ser >= len(serializers) || c.H2T < 0 || c.H2T >= len(converters) {
		return nil
	}
	o.Class(c.Kind)
	src := string(c.HTML)
	if c.Page != nil {
		src = c.Page.String()
	}
	var articles, texts, returned, asked, answered []string
	var more []readability.Option
	if c.Ser > 0 {
		more = append(more, readability.Serializer(func(n *readability.Node) string {
			articles = append(articles, n.GetInnerHTML())
			texts = append(texts, n.GetTextContent())
			if c.Ser == 4 && n.FirstElementChild() != nil {
				for _, k := range n.FirstElementChild().Children {
					if len(k.ChildNodes) > 0 {
						k.SetTextContent("serialized é")
						break
					}
				}
				texts[len(texts)-1] = n.GetTextContent()
			}
			s := serializers[c.Ser](n.GetInnerHTML())
			returned = append(returned, s)
			return s
		}))
	}
	if c.H2T > 0 {
		more = append(more, readability.Html2Text(func(s string) string {
			asked = append(asked, s)
			a := converters[c.H2T](s)
			answered = append(answered, a)
			return a
		}))
	}
	res, err := parsePage(src, docURI, c.Opt, more...)
	if (res == nil) != (err != nil) {
		return fmt.Errorf("result %v and error %v", res, err)
	}
	if err != nil {
		o.Class("no article")
		if len(returned) > 0 {
			return fmt.Errorf("serializer called though there is no article: %v", err)
		}
		return nil
	}
	if n := len([]rune(res.TextContent)); res.Length != n {
		return fmt.Errorf("length %d of a text of %d characters", res.Length, n)
	}
	article, text := res.HTMLContent, res.TextContent
	if c.Ser > 0 {
		if len(returned) != 1 {
			return fmt.Errorf("the serializer was called %d times", len(returned))
		}
		if res.HTMLContent != returned[0] {
			return fmt.Errorf("content %q is not what the serializer returned, %q", clip(res.HTMLContent, 300), clip(returned[0], 300))
		}
		article, text = articles[0], texts[0]
		if c.Ser == 4 {
			x, err := parseX(returned[0])
			if c.Page != nil && (err != nil || x.text() != texts[0]) {
				return fmt.Errorf("the markup %q and the text %q of the changed article differ: %v", clip(returned[0], 300), clip(texts[0], 300), err)
			}
			text = "?"
		}
		if c.H2T == 0 && res.TextContent != texts[0] {
			return fmt.Errorf("text %q is not the text of the article, %q", clip(res.TextContent, 300), clip(texts[0], 300))
		}
	}
	if c.H2T > 0 {
		if len(asked) != 1 || asked[0] != res.HTMLContent {
			return fmt.Errorf("the text converter was called %d times, with %q", len(asked), clip(strings.Join(asked, "|"), 300))
		}
		if res.TextContent != answered[0] {
			return fmt.Errorf("text %q is not what the converter returned, %q", clip(res.TextContent, 300), clip(answered[0], 300))
		}
		if c.Ser == 0 || c.Ser == 4 {
			text = "?"
		}
	}
	if c.Ser+c.H2T > 0 {
		o.Class("custom functions")
		o.NonTrivial()
		// the article itself does not depend on them
		plain, err := parsePage(src, docURI, c.Opt)
		if err != nil {
			return fmt.Errorf("without custom functions: %v", err)
		}
		if plain.HTMLContent != article {
			return fmt.Errorf("article %q differs from the one without custom functions, %q", clip(article, 500), clip(plain.HTMLContent, 500))
		}
		if text == "?" {
			text = plain.TextContent
		}
		a, b := *plain, *res
		a.HTMLContent, a.TextContent, a.Length = "", "", 0
		b.HTMLContent, b.TextContent, b.Length = "", "", 0
		if a != b {
			return fmt.Errorf("metadata %+v differ from those without custom functions, %+v", b, a)
		}
	}
	if c.Opt.Thr == nil || *c.Opt.Thr > 0 {
		if strings.TrimSpace(text) == "" {
			return fmt.Errorf("an article without text: %s", clip(article, 500))
		}
	}
	if c.Page == nil {
		return nil
	}
	if strings.ContainsAny(article, "&\u00e9\U0001d4b3日") {
		o.Class("escaped or not ASCII")
		o.NonTrivial()
	}
	tree, err := parseX(article)
	if err != nil {
		return fmt.Errorf("the content is not well-formed: %w\n%s", err, clip(article, 1000))
	}
	if t := tree.text(); t != text {
		return fmt.Errorf("text %q is not that of the content, %q", clip(text, 1500), clip(t, 1500))
	}
	if c.Opt.Thr == nil || *c.Opt.Thr > 0 {
		if len(tree.Kids) != 1 || tree.Kids[0].Tag != "div" || tree.Kids[0].attr("id") != "readability-page-1" || !oneOf("page", strings.Fields(tree.Kids[0].attr("class"))) {
			return fmt.Errorf("the content is not in the wrapper: %s", clip(article, 500))
		}
	}
	return nil
}
