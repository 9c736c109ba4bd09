package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
	"pgregory.net/rapid"
)

// C15: the character threshold.

func init() {
	register(&Prop{
		ID: "C15",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &pageCase{URI: docURI}
			g.exotic = g.n(3) == 0
			switch g.n(3) {
			case 0:
				c.Page = g.page(pick(g, 8, 15, 30, 60))
				if g.bool() {
					c.Page = g.contestPage()
				}
			default:
				c.Page = g.ladderPage()
			}
			if g.n(4) > 0 {
				c.Page.walk(func(n *N) bool {
					n.Text = strings.TrimSpace(n.Text)
					return true
				})
			}
			c.Opt = g.options()
			c.Opt.Thr = nil
			return c
		},
		New: newPageCase, Check: checkC15, Shrink: shrinkPage,
		Quick: 12000, Thorough: 300000,
		Rule: "pages where less strict attempts find more text; each page is read with thresholds at, just below and just above the length of every attempt (as the model of the algorithm and as the library itself gives them), the default and one beyond them all. The result must be the first attempt that reaches the threshold, the longest one if none does, an error if none has text; a result that reaches a higher threshold must be the result for it too, and the result for an unreachable threshold is never shorter than another one. Non-trivial: at least two attempts of different length.",
	})
}

// contestPage has places of about the same length, of which different attempts take different
// ones, in texts whose number of characters, bytes and blanks have little to do with each other.
func (g *G) contestPage() *N {
	body := el("body")
	l := g.between(40, 200)
	for i := g.between(2, 3); i > 0; i-- {
		box := el("div")
		commas := pick(g, 0, 10, 40)
		for left := l + pick(g, 0, 0, 1, -1, 5, -5, 20); left > 0; {
			k := min(left, g.between(30, 120))
			left -= k
			t := g.textOf(k, commas)
			switch g.n(5) {
			case 0:
				t = strings.ReplaceAll(t, " ", pick(g, "  ", "\n\n", "      "))
			case 1:
				t = strings.NewReplacer("e", "é", "a", "日", "r", "\U0001d4b3").Replace(t)
			case 2:
				t = strings.ReplaceAll(t, ", ", ",")
			}
			box.add(el("p", tx(t)))
		}
		switch g.n(4) {
		case 0:
		case 1:
			box.with("class", g.decor(from(g, wNegative)))
		default:
			box.with("class", g.decor(from(g, wUnlikely)))
		}
		body.add(el("section", box, el("div", el("i", tx("x")))))
	}
	return el("html", el("head", el("title", tx("Quite an ordinary page title of some words"))), body)
}

// ladderPage has parts that only the later attempts keep.
func (g *G) ladderPage() *N {
	box := el("div")
	if g.n(2) == 0 {
		box.with("class", pick(g, "content", "x", "sidebar", "comment", "footer", "post"))
	}
	n := g.between(1, 4)
	for i := 0; i < n; i++ {
		switch g.n(6) {
		case 0: // unlikely candidate
			box.add(el(pick(g, "div", "section", "p"), g.prose()).with("class", g.decor(from(g, wUnlikely))))
		case 1: // bad name
			box.add(el(pick(g, "div", "section", "table", "ul"), el("p", tx(g.textOf(g.between(40, 200), 10)))).with("class", g.decor(from(g, wNegative))))
		case 2: // fishy
			d := el("div")
			for j := g.between(1, 4); j > 0; j-- {
				d.add(el(pick(g, "a", "span"), tx(g.textOf(g.between(10, 60), 0))).with("href", "http://h.example/"))
			}
			box.add(d)
		case 3:
			box.add(el("form", el("p", tx(g.textOf(g.between(20, 120), 10))), el("input"), el("input")))
		case 4:
			box.add(el("div", tx(g.textOf(g.between(5, 24), 0))), el("div", el("img").with("src", "http://h.example/1.png"), el("img").with("src", "http://h.example/2.png"), el("b", tx(g.textOf(g.between(5, 40), 0)))))
		default:
			box.add(el("p", tx(g.textOf(g.between(20, 260), 10))))
		}
	}
	body := el("body", box)
	if g.n(2) == 0 {
		body.add(el("div", g.prose()).with("class", g.decor(from(g, wUnlikely))))
	}
	if g.n(3) == 0 {
		body.add(g.noise())
	}
	return el("html", el("head", el("title", tx("Quite an ordinary page title of some words"))), body)
}

func checkC15(cc Case, o *Obs) error {
	c := cc.(*pageCase)
	if !c.wellFormed() || c.Opt.Thr != nil {
		return nil
	}
	src := c.Page.String()
	run := func(t int) (*readability.Result, int, error) {
		op := c.Opt
		op.Thr = &t
		res, err := parsePage(src, c.URI, op)
		if err != nil {
			return nil, 0, err
		}
		return res, chars(squeeze(res.TextContent)), nil
	}
	title := refMeta(c.Page, c.Opt.NoLD).Title
	model := func(t int) (*refRun, *N) {
		op := c.Opt
		op.Thr = &t
		return refArticle(c.Page, title, op.ref(), uriFixer(c.Page, c.URI))
	}
	const far = 1 << 30
	ref, _ := model(far)
	if ref.uncertain != "" {
		o.Class("skipped, rounding decides")
		return nil
	}
	lens := map[int]bool{}
	for _, l := range ref.lengths {
		lens[l] = true
	}
	if len(lens) > 1 {
		o.NonTrivial()
	}
	o.Class(fmt.Sprintf("attempts of %d lengths", len(lens)))
	best, bestLen, err := run(far)
	if (err != nil) != (len(lens) == 1 && lens[0]) {
		return fmt.Errorf("attempts of %v characters, but %v", ref.lengths, err)
	}
	try := map[int]bool{1: true, 500: true}
	for l := range lens {
		for _, d := range []int{-1, 0, 1} {
			if l+d > 0 {
				try[l+d] = true
			}
		}
	}
	// Blanks at the ends of texts count for an attempt but may be gone from its result: then
	// the length of the result is not that of the attempt.
	tight := true
	c.Page.walk(func(n *N) bool {
		tight = tight && (!n.isText() || n.Text == strings.TrimSpace(n.Text))
		return true
	})
	o.ClassIf(tight, "lengths comparable")
	type out struct {
		res *readability.Result
		n   int
	}
	outs := map[int]out{}
	for t := range try {
		res, n, err := run(t)
		if err != nil {
			if best != nil {
				return fmt.Errorf("threshold %d: %v, though there is an article of %d characters", t, err, bestLen)
			}
			continue
		}
		if best == nil {
			return fmt.Errorf("threshold %d: an article of %d characters, none with an unreachable threshold", t, n)
		}
		outs[t] = out{res, n}
		if n > bestLen && tight {
			return fmt.Errorf("threshold %d: %d characters, more than the %d of the longest attempt", t, n, bestLen)
		}
		if n < t && tight && res.HTMLContent != best.HTMLContent {
			return fmt.Errorf("threshold %d: %d characters do not reach it, and it is not the longest attempt (%d characters)", t, n, bestLen)
		}
	}
	for t, a := range outs {
		if !tight {
			break
		}
		for u, b := range outs {
			if u > t && a.n >= u && a.res.HTMLContent != b.res.HTMLContent {
				return fmt.Errorf("the article for threshold %d has %d characters, but that for threshold %d differs (%d characters)", t, a.n, u, b.n)
			}
		}
	}
	for t, a := range outs {
		rr, art := model(t)
		if rr.uncertain != "" || art == nil {
			continue
		}
		if flatText(art.text()) != flatText(a.res.TextContent) {
			return fmt.Errorf("threshold %d, attempts of %v characters: expected %q, found %q", t, ref.lengths, clip(art.text(), 800), clip(a.res.TextContent, 800))
		}
	}
	return nil
}
