package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C19: tables.

func init() {
	register(&Prop{
		ID: "C19",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &pageCase{URI: docURI}
			c.Page = g.solidPage(func(int) []*N {
				if g.n(2) > 0 {
					return nil
				}
				e := g.anyTable(2)
				if g.n(3) == 0 {
					e = g.place(e)
				}
				return []*N{e}
			}).page
			if g.n(3) == 0 {
				c.Opt = g.options()
			}
			return c
		},
		New: newPageCase, Check: checkC19, Shrink: shrinkPage,
		Quick: 50000, Thorough: 800000,
		Rule: "articles with tables of any size around the limits (rows, columns, cells, spans), with captions (also empty), header cells, column groups, heads and feet, summaries, roles and the datatable attribute, nested tables, single cells of every kind, with cells of text, numbers, links, images, blocks; in the article, the tables, rows, cells and the words of each table must be those of the model, and tables with a mark of data directly in the article must be there with every word of their plain cells. Non-trivial: a data table and another one.",
	})
}

func (g *G) cell(tag string, depth int) *N {
	td := g.trace(el(tag))
	switch g.n(10) {
	case 0:
		td.add(el("a", tx(g.textOf(g.between(3, 20), 0))).with("href", "http://h.example/p"))
	case 1:
		td.add(el(pick(g, "p", "div", "ul"), tx(g.textOf(g.between(3, 60), 5))))
	case 2:
		if depth > 0 {
			td.add(g.anyTable(depth - 1))
		}
	case 3:
		td.add(el("img").with("src", "http://h.example/1.jpg"))
	case 4:
	case 5:
		td.add(el("b", tx(g.word())), tx(" "+g.word()))
	default:
		td.add(tx(g.textOf(g.between(2, 30), 3)))
	}
	if g.n(15) == 0 {
		td.set("colspan", pick(g, "2", "3", "4", "5", "0", "-1", "x", "1"))
	}
	return td
}

func (g *G) anyTable(depth int) *N {
	t := g.trace(el("table"))
	rows, cols := 0, 0
	switch g.n(8) {
	case 0, 1:
		rows, cols = 1, 1
	case 2:
		rows, cols = g.between(8, 11), 1
	case 3:
		rows, cols = g.between(1, 3), g.between(3, 6)
	case 4: // about ten cells
		rows, cols = pick(g, 2, 5, 3, 4), pick(g, 2, 3, 4, 5)
		if rows*cols > 12 {
			cols = 2
		}
	default:
		rows, cols = g.between(0, 4), g.between(1, 4)
	}
	if rows*cols > 6 {
		depth = 0
	}
	body := t
	if g.bool() {
		body = el("tbody")
		t.add(body)
	}
	for r := 0; r < rows; r++ {
		tr := g.trace(el("tr"))
		for c := 0; c < cols; c++ {
			tr.add(g.cell("td", depth))
			if g.n(10) == 0 {
				tr.add(g.ws())
			}
		}
		if g.n(15) == 0 {
			tr.set("rowspan", pick(g, "2", "9", "0", "-2", "y"))
		}
		body.add(tr)
		if g.n(10) == 0 {
			body.add(g.ws())
		}
	}
	for {
		switch g.n(14) {
		case 0:
			t.with("role", pick(g, "presentation", "presentation", "grid", "Presentation", "PRESENTATION", "table", "none", "treegrid", "", "presentation grid", " presentation", "group"))
		case 1:
			t.with("summary", pick(g, "data", "", " "))
		case 2:
			cap := el("caption")
			if g.n(3) > 0 {
				cap.add(pick(g, tx(g.word()), el("b", tx(g.word())), tx(" ")))
			}
			t.Kids = append([]*N{cap}, t.Kids...)
		case 3:
			t.with("datatable", pick(g, "0", "1", "", "false"))
		case 4:
			t.Kids = append([]*N{el("thead", g.trace(el("tr", g.cell("th", 0))))}, t.Kids...)
		case 5:
			t.add(el("tfoot", g.trace(el("tr", g.cell("td", 0)))))
		case 6:
			t.Kids = append([]*N{pick(g, el("colgroup", el("col")), el("col"), el("colgroup"))}, t.Kids...)
		case 7:
			if len(body.Kids) > 0 && len(body.Kids[0].Kids) > 0 && !body.Kids[0].Kids[0].isText() {
				body.Kids[0].Kids[0].Tag = "th"
			}
		case 8:
			t.with("class", g.className())
		}
		if g.n(3) > 0 {
			return t
		}
	}
}

func tabular(n *N) []string {
	var out []string
	for _, e := range n.all("table", "tbody", "thead", "tfoot", "tr", "td", "th", "caption", "col", "colgroup") {
		out = append(out, fmt.Sprintf("<%s %s in %s> with %q", e.Tag, e.attr("data-k"), e.up.Tag, clip(flatText(e.text()), 200)))
	}
	// single cells become other elements
	for _, e := range n.all("p", "div") {
		if k := e.attr("data-k"); k != "" {
			out = append(out, fmt.Sprintf("<%s %s in %s> with %q", e.Tag, k, e.up.Tag, clip(flatText(e.text()), 200)))
		}
	}
	return out
}

func checkC19(cc Case, o *Obs) error {
	c := cc.(*pageCase)
	b, err := c.articleOf(o)
	if b == nil {
		return err
	}
	b.want.link()
	c.Page.link()
	want, got := idSet(b.want.text()), idSet(b.res.TextContent)
	have := map[string]bool{}
	for _, e := range b.got.all("table") {
		have[e.attr("data-k")] = true
	}
	data, other := 0, 0
	for _, t := range c.Page.all("table") {
		for _, w := range ids(t.text()) {
			if want[w] != got[w] {
				return fmt.Errorf("word %d of %s: expected %v, found %v in %s", w, brief(t), want[w], got[w], clip(b.res.HTMLContent, 2500))
			}
		}
		if !dataTable(t) {
			other++
			continue
		}
		data++
		box := t.up
		named := false // a name may make a part of it the article
		for _, e := range box.all("*") {
			named = named || e.has("class") || e.has("id")
		}
		if named || box.Tag == "body" || len(box.all("p")) < 4 || len(t.all("table")) > 0 || !flatHas(got, box) {
			continue
		}
		// a data table right in the article
		row := t.all("tr")
		if len(row) == 1 && len(row[0].all("td", "th")) == 1 || len(row) == 0 {
			continue // may be taken for a single cell
		}
		if !have[t.attr("data-k")] {
			return fmt.Errorf("the data table %s is not in %s", brief(t), clip(b.res.HTMLContent, 2500))
		}
		for _, td := range t.all("td", "th", "caption") {
			if len(td.Kids) == 1 && td.Kids[0].isText() {
				for _, w := range ids(td.text()) {
					if !got[w] {
						return fmt.Errorf("word %d of a cell of %s is not in %s", w, brief(t), clip(b.res.HTMLContent, 2500))
					}
				}
			}
		}
		o.Class("data table in the article")
	}
	if err := b.projected(tabular); err != nil {
		return err
	}
	o.ClassIf(len(c.Page.all("table")) > 0 && strings.Contains(b.res.HTMLContent, "<table"), "tables in the article")
	o.ClassIf(b.ref.probes["single cell"] > 0, "single cell")
	if data > 0 && other > 0 {
		o.NonTrivial()
	}
	return nil
}

// flatHas: most of the paragraphs of a box are in the article.
func flatHas(got map[int]bool, box *N) bool {
	k := 0
	for _, p := range box.Kids {
		if p.Tag == "p" && got[firstID(p.text())] {
			k++
		}
	}
	return k >= 4
}
