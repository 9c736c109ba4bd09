package main

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// C24: the article is the one the published algorithm finds.

func init() {
	register(&Prop{
		ID: "C24",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			g.exotic = g.n(4) == 0
			c := &pageCase{URI: docURI}
			switch g.n(6) {
			case 0:
				c.Page = g.richPage()
				if g.n(4) == 0 {
					c.Page = g.contestPage()
				}
			case 1, 2:
				c.Page = g.page(pick(g, 8, 15, 30, 60))
			default:
				c.Page = g.boundaryPage()
			}
			c.Opt = g.options()
			if g.n(6) == 0 {
				g.dress(c.Page)
			}
			return c
		},
		New:    newPageCase,
		Check:  checkC24,
		Shrink: shrinkPage,
		Quick:  100000, Thorough: 1500000,
		Rule: "random well-formed pages (any flow content decorated with the class names, roles and styles the heuristics look at, or an article of one of many shapes with things around it) and random options; the article must be, node by node, the one an independently written model of the algorithm finds. Non-trivial: at least four kinds of heuristic decisions were taken and the article has two or more paragraphs.",
	})
}

var rSimpleURI = regexp.MustCompile(`^http://h\.example/[a-z0-9/]+[a-z0-9.]*$`)

func checkC24(cc Case, o *Obs) error {
	c := cc.(*pageCase)
	if !c.wellFormed() {
		return nil
	}
	b, skip, err := c.both(o)
	if skip || err != nil {
		return err
	}
	for k := range b.ref.probes {
		o.Class(k)
	}
	o.Class(fmt.Sprintf("passes=%d", b.ref.passes))
	if err := b.sameOutcome(); err != nil {
		return err
	}
	if b.want == nil {
		o.Class("no article")
		return nil
	}
	want, got := b.want.merged(), b.got.merged()
	want.Tag = "#root"
	for _, t := range []*N{want, got} {
		t.walk(func(n *N) bool {
			for i, a := range n.At {
				switch a.K {
				case "href", "src", "poster", "srcset": // which resource is meant is another property
					if !rSimpleURI.MatchString(a.V) {
						n.At[i].V = "x"
					}
				}
			}
			return true
		})
	}
	if err := sameTree(want, got); err != nil {
		return fmt.Errorf("article differs, expected vs found: %v\nexpected %s\nfound    %s", err, clip(want.String(), 1500), clip(b.res.HTMLContent, 1500))
	}
	if len(b.ref.probes) > 3 && strings.Count(b.res.HTMLContent, "<p") > 1 {
		o.NonTrivial()
	}
	return nil
}
