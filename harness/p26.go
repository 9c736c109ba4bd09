package main

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// C26: a page means the same however it is spelled.

type spelledCase struct {
	Page  *N
	Opt   Opt
	URI   string
	Seed  uint64
	Kinds []string // what may differ from the plain spelling
}

var spellKinds = []string{"tags", "attributes", "quotes", "blanks", "order", "escapes", "comments", "cdata", "void", "doctype", "outside", "extra", "named", "end", "prefix", "empty", "lines"}

func init() {
	register(&Prop{
		ID: "C26",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &spelledCase{URI: docURI, Seed: uint64(g.n(1 << 20))}
			g.exotic = g.n(3) == 0
			c.Page = g.richPage()
			if g.n(2) == 0 {
				c.Opt = g.options()
			}
			for _, k := range spellKinds {
				if g.n(3) > 0 && (k != "lines" || g.n(3) == 0) {
					c.Kinds = append(c.Kinds, k)
				}
			}
			return c
		},
		New: func() Case { return &spelledCase{} }, Check: checkC26,
		Shrink: func(cc Case) []func() Case {
			c := cc.(*spelledCase)
			var out []func() Case
			for i := range c.Kinds {
				out = append(out, func() Case {
					d := *c
					d.Kinds = append(append([]string{}, c.Kinds[:i]...), c.Kinds[i+1:]...)
					return &d
				})
			}
			for _, f := range c.Page.smaller() {
				out = append(out, func() Case { d := *c; d.Page = f(); return &d })
			}
			for _, o := range c.Opt.smaller() {
				out = append(out, func() Case { d := *c; d.Opt = o; return &d })
			}
			return out
		},
		Quick: 60000, Thorough: 600000,
		Rule:   "pages of every kind the other checks generate (articles with metadata, bylines, tables, images, videos, boilerplate, hidden elements, line breaks, links; random pages), each in a plain spelling and in another that differs in letter case of names, quotes, blanks in tags, order of attributes, escapes, comments, CDATA sections, prefixes of elements, form of void and empty elements, document type, what is between the parts of the document, attributes without meaning; every field of the two results must be the same, contents up to order of attributes. Non-trivial: both give an article and the spellings differ in at least ten places.",
		Assume: []string{"order of attributes is kept for images, pictures, figures and embeds, for which the algorithm depends on it", "raw text is spelled plainly"},
	})
}

type pageSpeller struct {
	on    map[string]bool
	state uint64
	b     strings.Builder
	diff  int
	used  map[string]bool // attributes of the page: those of one element may replace those of another
}

func (s *pageSpeller) rnd(k int) int {
	s.state += 0x9e3779b97f4a7c15
	z := s.state
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	z ^= z >> 31
	return int(z % uint64(k))
}

// may is true in one of k cases if the kind of change is on.
func (s *pageSpeller) may(kind string, k int) bool {
	v := s.rnd(k) == 0
	if v && s.on[kind] {
		s.diff++
		return true
	}
	return false
}

func (s *pageSpeller) alter(name string) string {
	switch s.rnd(3) {
	case 0:
		return strings.ToUpper(name)
	case 1:
		return strings.ToUpper(name[:1]) + name[1:]
	}
	b := []byte(name)
	for i := range b {
		if s.rnd(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

func (s *pageSpeller) blank(d string) string {
	if s.may("blanks", 6) {
		return []string{" ", "\n", "\t", "  ", " \n ", "\r\n", "\r\n\t"}[s.rnd(7)]
	}
	return d
}

func (s *pageSpeller) comment() {
	s.b.WriteString([]string{"<!-- x -->", "<!---->", "<!-- <p>no</p> & text -->", "<!-- > -- -->"}[s.rnd(4)])
}

func (s *pageSpeller) escape(text string, attr bool) string {
	var b strings.Builder
	for _, c := range text {
		must := c == '&' || c == '<' || c == '>' || attr && c == '"'
		switch {
		case !must && c != '\'' && (isSpaceASCII(c) || !s.may("escapes", 40)):
			b.WriteRune(c)
		case must && !s.may("escapes", 3) && !s.may("named", 3), !must && c == '\'' && !s.may("named", 3):
			if attr {
				b.WriteString(escAttr.Replace(string(c)))
			} else {
				b.WriteString(escText.Replace(string(c)))
			}
		case s.on["named"] && c == '"':
			b.WriteString("&quot;")
		case s.on["named"] && c == '\'':
			b.WriteString("&apos;")
		default:
			b.WriteString(fmt.Sprintf([]string{"&#%d;", "&#x%x;", "&#x%X;", "&#X%x;", "&#%05d;", "&#x%06x;", "&#%07d;", "&#x%04X;"}[s.rnd(8)], c))
		}
	}
	return b.String()
}

var rawTags = []string{"title", "script", "style", "textarea", "iframe", "xmp", "noembed", "noframes"}

func (s *pageSpeller) node(n *N) {
	if n.isText() {
		t := n.Text
		blank := strings.TrimSpace(t) == ""
		if !blank && !strings.Contains(t, "]]>") && s.may("cdata", 12) {
			s.b.WriteString("<![CDATA[" + t + "]]>")
			return
		}
		if !blank && s.may("comments", 12) {
			// between two characters that are no blanks
			r := []rune(t)
			i := 1 + s.rnd(len(r))
			if i < len(r) && !isSpaceASCII(r[i]) && !isSpaceASCII(r[i-1]) {
				s.b.WriteString(s.escape(string(r[:i]), false))
				s.comment()
				s.b.WriteString(s.escape(string(r[i:]), false))
				return
			}
		}
		s.b.WriteString(s.escape(t, false))
		return
	}
	tag := n.Tag
	if s.may("tags", 4) {
		tag = s.alter(tag)
	}
	prefix := ""
	if !n.is(rawTags...) && s.may("prefix", 12) {
		prefix = []string{"x:", "html:", "o:", "H:", "a-b:", "x:y:"}[s.rnd(6)]
	}
	s.b.WriteString("<" + prefix + tag)
	at := append([]A{}, n.At...)
	if !n.is("img", "picture", "figure", "embed", "object", "iframe") && s.on["order"] {
		for i := len(at) - 1; i > 0; i-- {
			j := s.rnd(i + 1)
			at[i], at[j] = at[j], at[i]
			s.diff++
		}
	}
	if s.may("extra", 8) {
		i := s.rnd(len(at) + 1)
		x := A{"data-zz", []string{"", "1", "zz"}[s.rnd(3)]}
		if k := aInert[s.rnd(len(aInert))]; s.rnd(2) == 0 && !s.used[k] && !n.is("meta", "base", "script", "object", "embed", "iframe", "param") {
			x = A{k, "zz-" + []string{"", "1", "true"}[s.rnd(3)]}
		}
		at = append(at[:i], append([]A{x}, at[i:]...)...)
	}
	open := false
	for _, a := range at {
		s.b.WriteString(s.blank(" "))
		k := a.K
		if s.may("attributes", 4) {
			k = s.alter(k)
		}
		s.b.WriteString(k)
		open = true
		if a.V == "" && s.may("quotes", 3) {
			continue
		}
		s.b.WriteString(s.blank("")[0:])
		s.b.WriteString("=")
		s.b.WriteString(s.blank(""))
		open = false
		switch {
		case s.may("quotes", 4):
			s.b.WriteString("'" + strings.ReplaceAll(s.escape(a.V, true), "'", "&#39;") + "'")
		case a.V != "" && strings.Trim(a.V, "abcdefghijklmnopqrstuvwxyz0123456789-_.") == "" && s.may("quotes", 3):
			s.b.WriteString(a.V)
			open = true
		default:
			s.b.WriteString(`"` + s.escape(a.V, true) + `"`)
		}
	}
	if voidTags[n.Tag] && len(n.Kids) == 0 {
		switch {
		case open || s.may("void", 3):
			s.b.WriteString(" />")
		default:
			s.b.WriteString("/>")
		}
		return
	}
	if len(n.Kids) == 0 && s.may("empty", 2) {
		s.b.WriteString(" />")
		return
	}
	s.b.WriteString(s.blank("") + ">")
	if n.is(rawTags...) || n.Tag == "object" { // the markup inside of objects is looked at as it is
		for _, k := range n.Kids {
			if n.Tag == "title" && k.isText() {
				s.b.WriteString(s.escape(k.Text, false))
				continue
			}
			k.render(&s.b)
		}
	} else {
		outer := n.is("html", "head")
		for i, k := range n.Kids {
			if outer && s.may("outside", 2) {
				s.b.WriteString([]string{"\n", " ", "\n\n\t", "\r\n"}[s.rnd(4)])
			}
			if i > 0 && !(k.isText() && n.Kids[i-1].isText()) && s.may("comments", 10) {
				s.comment()
			}
			s.node(k)
		}
		if outer && s.may("outside", 2) {
			s.b.WriteString("\n")
		}
		if s.may("comments", 20) {
			s.comment()
		}
	}
	tag = n.Tag
	if s.may("tags", 4) {
		tag = s.alter(tag)
	}
	s.b.WriteString("</" + prefix + tag)
	if s.may("end", 6) {
		s.b.WriteString([]string{" ", "\n", "  "}[s.rnd(3)])
	}
	s.b.WriteString(">")
}

func (s *pageSpeller) page(n *N) string {
	if s.may("outside", 4) {
		s.b.WriteString("\n ")
	}
	if s.may("doctype", 2) {
		s.b.WriteString([]string{"<!DOCTYPE html>", "<!doctype html>\n", `<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">` + "\n", "<!DOCTYPE HTML>\n\n"}[s.rnd(4)])
	}
	if s.may("comments", 4) {
		s.comment()
	}
	s.node(n)
	if s.may("outside", 4) {
		s.b.WriteString("\n")
	}
	if s.may("comments", 4) {
		s.comment()
	}
	return s.b.String()
}

// normal drops what may differ.
func (n *N) normal() *N {
	c := &N{Tag: n.Tag, Text: n.Text}
	for _, a := range n.At {
		if a.K != "data-zz" && !strings.HasPrefix(a.V, "zz-") {
			c.At = append(c.At, a)
		}
	}
	sort.SliceStable(c.At, func(i, j int) bool { return c.At[i].K < c.At[j].K })
	var kids []*N
	for _, k := range n.Kids {
		k = k.normal()
		if k.Tag == "span" && len(k.At) == 0 && len(k.elems()) == 0 {
			// a neutralised link is a text, or a span if it has several pieces of text
			kids = append(kids, k.Kids...)
			continue
		}
		kids = append(kids, k)
	}
	for _, k := range kids {
		if k.isText() && k.Text == "" {
			continue
		}
		if l := len(c.Kids); k.isText() && l > 0 && c.Kids[l-1].isText() {
			c.Kids[l-1].Text += k.Text
			continue
		}
		c.Kids = append(c.Kids, k)
	}
	return c
}

func checkC26(cc Case, o *Obs) error {
	c := cc.(*spelledCase)
	if c.Page == nil || c.Page.Tag != "html" || len(c.Page.all("body")) != 1 {
		return nil
	}
	page := c.Page.merged()
	s := &pageSpeller{state: c.Seed, on: map[string]bool{}, used: map[string]bool{}}
	for _, n := range page.all("*") {
		for _, a := range n.At {
			s.used[a.K] = true
		}
	}
	for _, k := range c.Kinds {
		s.on[k] = true
	}
	for _, t := range page.all("title") {
		if strings.Contains(t.text(), "\n") { // the rules for titles are by line
			s.on["lines"] = false
		}
	}
	plain, other := page.String(), s.page(page)
	if s.on["lines"] { // the ends of lines of other systems
		other = strings.ReplaceAll(other, "\n", "\r")
	}
	r1, e1 := parsePage(plain, c.URI, c.Opt)
	r2, e2 := parsePage(other, c.URI, c.Opt)
	show := func() string {
		return fmt.Sprintf("plain spelling %s\nother spelling %s", clip(plain, 3000), clip(other, 3000))
	}
	if r2 != nil && s.on["lines"] {
		q := *r2
		for _, f := range []*string{&q.Title, &q.Byline, &q.Excerpt, &q.SiteName, &q.Dir, &q.Lang, &q.PublishedTime, &q.TextContent, &q.HTMLContent} {
			*f = strings.ReplaceAll(*f, "\r", "\n")
		}
		r2 = &q
	}
	if (e1 == nil) != (e2 == nil) {
		return fmt.Errorf("error %v in one spelling, %v in the other\n%s", e1, e2, show())
	}
	if e1 != nil {
		if e1.Error() != e2.Error() {
			return fmt.Errorf("error %v in one spelling, %v in the other\n%s", e1, e2, show())
		}
		o.Class("no article")
		return nil
	}
	for _, f := range []struct{ name, a, b string }{
		{"title", r1.Title, r2.Title}, {"byline", r1.Byline, r2.Byline}, {"excerpt", r1.Excerpt, r2.Excerpt}, {"site name", r1.SiteName, r2.SiteName},
		{"direction", r1.Dir, r2.Dir}, {"language", r1.Lang, r2.Lang}, {"publication time", r1.PublishedTime, r2.PublishedTime},
		{"text", r1.TextContent, r2.TextContent}, {"length", fmt.Sprint(r1.Length), fmt.Sprint(r2.Length)},
	} {
		if f.a != f.b {
			return fmt.Errorf("%s %q in one spelling, %q in the other\n%s", f.name, clip(f.a, 1000), clip(f.b, 1000), show())
		}
	}
	a, err := parseX(r1.HTMLContent)
	if err != nil {
		return fmt.Errorf("content is not well-formed: %w", err)
	}
	b, err := parseX(r2.HTMLContent)
	if err != nil {
		return fmt.Errorf("content is not well-formed: %w", err)
	}
	if err := sameTree(a.normal(), b.normal()); err != nil {
		return fmt.Errorf("the contents differ: %w\n%s\n%s\n%s", err, clip(r1.HTMLContent, 1500), clip(r2.HTMLContent, 1500), show())
	}
	for _, k := range c.Kinds {
		o.Class(k)
	}
	if s.diff >= 10 {
		o.NonTrivial()
	}
	return nil
}
