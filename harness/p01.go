package main

import (
	"fmt"

	readability "github.com/giulianopz/go-readability"
	"pgregory.net/rapid"
)

// C01: whatever the input, every call returns.

type anyCase struct {
	Kind  string
	HTML  Raw
	URI   Raw
	Opt   Opt
	Inner Raw // markup for an element of the article
}

func init() {
	register(&Prop{
		ID: "C01",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &anyCase{}
			var s string
			c.Kind, s = g.anySource()
			c.HTML = Raw(s)
			c.URI = Raw(g.anyURI())
			c.Opt = g.anyOptions()
			if g.n(3) == 0 {
				c.Inner = Raw(g.soup(g.between(1, 12)))
			}
			return c
		},
		New:   func() Case { return &anyCase{} },
		Check: checkC01,
		Shrink: func(cc Case) []func() Case {
			c := cc.(*anyCase)
			var out []func() Case
			s := string(c.HTML)
			for n := len(s) / 2; n > 0; n /= 2 {
				for i := 0; i+n <= len(s); i += n {
					out = append(out, func() Case { d := *c; d.HTML = Raw(s[:i] + s[i+n:]); return &d })
				}
			}
			for _, o := range c.Opt.smaller() {
				out = append(out, func() Case { d := *c; d.Opt = o; return &d })
			}
			out = append(out, func() Case { d := *c; d.Inner = ""; return &d })
			return out
		},
		Setup: loadSeeds,
		Quick: 48000, Thorough: 1200000,
		Rule: "sources of any kind (well-formed pages, damaged pages, tag soup from a dictionary of tags, attributes and values, random bytes, deep and wide nesting, windows of real pages), any page URI, any option values; every entry point is called on them. Each call must return, in bounded time and memory, without panicking or ending the process, with either a result or an error. Non-trivial: an article was extracted from something that is not a well-formed page.",
		Assume: []string{
			"a single call that uses more than 30 s of processor time (they take milliseconds), 3 GB of heap or 256 MB of stack on inputs of at most 60 KB does not terminate for practical purposes",
			"callbacks passed as options are not nil and do return",
		},
	})
}

func checkC01(cc Case, o *Obs) error {
	c := cc.(*anyCase)
	o.Class(c.Kind)
	readability.IsProbablyReaderable(string(c.HTML), c.Opt.list()...)
	opts := c.Opt.list()
	if c.Inner != "" {
		opts = append(opts, readability.Serializer(func(n *readability.Node) string {
			s := n.GetInnerHTML()
			n.SetInnerHTML(string(c.Inner))
			n.SetInnerHTML(n.GetInnerHTML())
			n.GetTextContent()
			n.GetElementById("readability-page-1")
			return s
		}))
	}
	r, err := readability.New(string(c.HTML), string(c.URI), opts...)
	if (r == nil) == (err == nil) {
		return fmt.Errorf("reader %v with error %v", r != nil, err)
	}
	if err != nil {
		o.Class("no reader")
		return nil
	}
	res, err := r.Parse()
	if (res == nil) == (err == nil) {
		return fmt.Errorf("result %v with error %v", res != nil, err)
	}
	if err == nil {
		o.Class("article")
		if c.Kind != "page" && res.Length > 0 {
			o.NonTrivial()
		}
	}
	// The document has been consumed; what a second call finds is unspecified.
	res, err = r.Parse()
	if (res == nil) == (err == nil) {
		return fmt.Errorf("second call: result %v with error %v", res != nil, err)
	}
	return nil
}
