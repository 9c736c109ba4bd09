package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C21: line breaks.

func init() {
	register(&Prop{
		ID: "C21",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &pageCase{URI: docURI}
			c.Page = g.solidPage(func(int) []*N {
				if g.n(2) > 0 {
					return nil
				}
				return []*N{g.broken(2)}
			}).page
			if g.n(4) == 0 {
				c.Opt = g.options()
			}
			return c
		},
		New: newPageCase, Check: checkC21, Shrink: shrinkPage,
		Quick: 40000, Thorough: 800000,
		Rule: "articles with containers, paragraphs, quotations, list items and cells whose content is a sequence of texts, inline elements (nested, with breaks inside), single and repeated line breaks with and without blanks between them, and blocks; paragraphs, line breaks and words of the article must come in the order and nesting of the model, and in plain containers the pieces between runs of two or more breaks must be paragraphs of their own, those between single breaks must share one. Non-trivial: a run of breaks between two pieces that are in the article.",
	})
}

func (g *G) broken(depth int) *N {
	e := el(pick(g, "div", "div", "div", "p", "p", "blockquote", "section"))
	plain := e.Tag == "div" && g.bool()
	if plain {
		e.with("data-plain", "1")
	}
	piece := func() *N { return tx(g.textOf(g.between(26, 120), 8)) }
	for i := g.between(2, 6); i > 0; i-- {
		switch g.n(12) {
		case 0:
			if plain {
				t := from(g, tInline)
				if t == "a" || t == "font" {
					t = "b"
				}
				e.add(el(t, piece()))
			} else {
				e.add(g.phrase(piece()))
			}
		case 1:
			if !plain {
				e.add(el("a", tx(g.textOf(8, 0))).with("href", "http://h.example/p"), piece())
			} else {
				e.add(piece())
			}
		case 2:
			if !plain {
				in := g.phrase(piece())
				for g.n(2) == 0 {
					in.add(el("br"))
				}
				in.add(piece())
				e.add(in)
			} else {
				e.add(piece())
			}
		case 3:
			if !plain && depth > 0 && e.Tag != "p" {
				e.add(pick(g, el("p", piece()), g.broken(depth-1), el("ul", el("li", piece())), el("h3", tx(g.textOf(20, 0)))))
			} else {
				e.add(piece())
			}
		case 4:
			if !plain {
				e.add(pick(g, el("img").with("src", "http://h.example/1.jpg"), el("img").with("src", "http://h.example/1.jpg"), el("wbr"), el("embed").with("src", "//youtube.com/x"), el("object").with("data", "//youtube.com/x"), el("input"), el("button", piece()), el("textarea", piece()), el("select", el("option", piece())), el("iframe").with("src", "//youtube.com/x"), el("hr")))
			} else {
				e.add(piece())
			}
		default:
			e.add(piece())
		}
		if i == 1 && g.n(3) > 0 {
			break
		}
		// breaks
		k := pick(g, 0, 1, 1, 2, 2, 3, 5)
		if plain && k == 0 {
			k = 1
		}
		for j := 0; j < k; j++ {
			if g.n(4) == 0 {
				e.add(g.ws())
			}
			if g.n(10) == 0 { // what is removed first, and leaves several blank texts behind
				e.add(el(pick(g, "script", "style", "script"), tx("x")), g.ws())
			} else if g.n(12) == 0 {
				w := tx("  ")
				w.Enc = encComment
				e.add(w)
			}
			e.add(el("br"))
		}
		if g.n(4) == 0 {
			e.add(g.ws())
		}
	}
	if !plain && g.n(6) == 0 {
		e.Kids = append([]*N{el("br")}, e.Kids...)
		if g.bool() {
			e.Kids = append([]*N{el("br")}, e.Kids...)
		}
	}
	if e.Tag == "p" || depth < 2 {
		return e
	}
	switch g.n(10) {
	case 0:
		e.Tag = "td"
		e.unset("data-plain")
		return el("table", el("tr", e, el("td", piece())))
	case 1:
		e.Tag = "li"
		e.unset("data-plain")
		return el("ul", e, el("li", piece()))
	}
	return e
}

// lines is the sequence of paragraphs, breaks and words.
func lines(n *N) []string {
	var out []string
	var walk func(*N)
	walk = func(m *N) {
		if m.isText() {
			for _, w := range ids(m.Text) {
				out = append(out, fmt.Sprintf("word %d", w))
			}
			return
		}
		if m.Tag == "br" {
			out = append(out, "line break")
		}
		if m.Tag == "p" {
			out = append(out, "start of paragraph")
		}
		for _, k := range m.Kids {
			walk(k)
		}
		if m.Tag == "p" {
			out = append(out, "end of paragraph")
		}
	}
	walk(n)
	return out
}

func checkC21(cc Case, o *Obs) error {
	c := cc.(*pageCase)
	b, err := c.articleOf(o)
	if b == nil {
		return err
	}
	if err := b.projected(lines); err != nil {
		return err
	}
	// Directly: which paragraph a word is in, and which line of it.
	type pos struct{ p, line int }
	at := map[int]pos{}
	para, line := 0, 0
	stack := []int{0}
	for _, l := range lines(b.got) {
		switch {
		case l == "start of paragraph":
			para++
			stack = append(stack, para)
		case l == "end of paragraph":
			stack = stack[:len(stack)-1]
		case l == "line break":
			line++
		default:
			var w int
			fmt.Sscanf(l, "word %d", &w)
			at[w] = pos{stack[len(stack)-1], line}
		}
	}
	for _, e := range c.Page.all("div") {
		if !e.has("data-plain") {
			continue
		}
		last, breaks := pos{}, 0
		for _, k := range e.Kids {
			if k.Tag == "br" {
				breaks++
				continue
			}
			w := ids(k.text())
			if len(w) == 0 {
				if strings.TrimSpace(k.text()) != "" {
					last = pos{}
				}
				continue
			}
			here, ok := at[w[0]]
			if !ok {
				last, breaks = pos{}, 0
				continue
			}
			if last.p != 0 {
				switch {
				case breaks >= 2:
					o.NonTrivial()
					if here.p == last.p {
						return fmt.Errorf("word %d is in the paragraph of the one before %d line breaks in %s", w[0], breaks, clip(b.res.HTMLContent, 2500))
					}
				case breaks == 1:
					o.Class("single break")
					if here.p != last.p {
						return fmt.Errorf("word %d is in another paragraph than the one before a single line break in %s", w[0], clip(b.res.HTMLContent, 2500))
					}
					if here.line != last.line+1 {
						return fmt.Errorf("the line break before word %d is lost in %s", w[0], clip(b.res.HTMLContent, 2500))
					}
				default:
					if here.p != last.p || here.line != last.line {
						return fmt.Errorf("word %d is separated from the one before in %s", w[0], clip(b.res.HTMLContent, 2500))
					}
				}
			}
			last, breaks = at[w[len(w)-1]], 0
		}
	}
	return nil
}
