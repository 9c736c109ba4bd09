package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

// pageCase is a page with options; what is expected is computed from the page.
type pageCase struct {
	Page *N
	Opt  Opt
	URI  string
}

const docURI = "http://h.example/dir/page.html"

func newPageCase() Case { return &pageCase{} }

// wellFormed: the shrinker keeps cases in the domain, replay files may have been edited.
func (c *pageCase) wellFormed() bool {
	return c.Page != nil && c.Page.Tag == "html" && len(c.Page.all("body")) == 1
}

func shrinkPage(cc Case) []func() Case {
	c := cc.(*pageCase)
	var out []func() Case
	for _, f := range c.Page.smaller() {
		out = append(out, func() Case { return &pageCase{Page: f(), Opt: c.Opt, URI: c.URI} })
	}
	for _, o := range c.Opt.smaller() {
		out = append(out, func() Case { return &pageCase{Page: c.Page, Opt: o, URI: c.URI} })
	}
	return out
}

func (o Opt) smaller() []Opt {
	var out []Opt
	try := func(f func(*Opt)) { p := o; f(&p); out = append(out, p) }
	if o.Max != nil {
		try(func(p *Opt) { p.Max = nil })
	}
	if o.Top != nil {
		try(func(p *Opt) { p.Top = nil })
	}
	if o.Thr != nil {
		try(func(p *Opt) { p.Thr = nil })
		if *o.Thr > 1 {
			try(func(p *Opt) { p.Thr = ptr(1) })
		}
	}
	if o.Classes != nil {
		try(func(p *Opt) { p.Classes = nil })
	}
	if o.Keep {
		try(func(p *Opt) { p.Keep = false })
	}
	if o.Video != nil {
		try(func(p *Opt) { p.Video = nil })
	}
	return out
}

// run of the library and of the model on the same page.
type both struct {
	res  *readability.Result
	err  error
	got  *N // the article of the library, nil if there is none
	ref  *refRun
	want *N // the article of the model, nil if there is none
	meta metaModel
}

// compare runs both; skip is set when rounding decides and nothing can be said.
func (c *pageCase) both(o *Obs, more ...readability.Option) (b both, skip bool, err error) {
	b.res, b.err = parsePage(c.Page.String(), c.URI, c.Opt, more...)
	b.meta = refMeta(c.Page, c.Opt.NoLD)
	b.ref, b.want = refArticle(c.Page, b.meta.Title, c.Opt.ref(), uriFixer(c.Page, c.URI))
	if b.ref.uncertain != "" {
		o.Class("skipped, rounding decides: " + b.ref.uncertain)
		return b, true, nil
	}
	if b.err == nil {
		b.got, err = parseX(b.res.HTMLContent)
		if err != nil {
			return b, false, fmt.Errorf("the content is not well-formed: %w\n%s", err, clip(b.res.HTMLContent, 1000))
		}
	}
	return b, false, nil
}

// sameOutcome: either both found an article or none did.
func (b *both) sameOutcome() error {
	if b.want == nil && b.err == nil {
		return fmt.Errorf("an article was returned though the page has no text: %s", clip(b.res.HTMLContent, 500))
	}
	if b.want != nil && b.err != nil {
		return fmt.Errorf("no article (%v), expected %s", b.err, brief(b.want))
	}
	return nil
}

// ---------------------------------------------------------------- words

var rWord = regexp.MustCompile(`(\d+)z`)

// ids lists the numbers of the unique words of a text, in order.
func ids(s string) []int {
	var out []int
	for _, m := range rWord.FindAllStringSubmatch(s, -1) {
		n, err := strconv.Atoi(m[1])
		if err == nil {
			out = append(out, n)
		}
	}
	return out
}

func idSet(s string) map[int]bool {
	m := map[int]bool{}
	for _, n := range ids(s) {
		m[n] = true
	}
	return m
}

// subsequence returns the first element of a that breaks "a is a subsequence of b".
func subsequence(a, b []int) (int, bool) {
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] != x {
			j++
		}
		if j == len(b) {
			return x, false
		}
		j++
	}
	return 0, true
}

func joinSorted(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// flatText is a text without any blanks: where blanks go is a matter of taste.
func flatText(s string) string {
	return strings.Join(strings.Fields(s), "")
}

// ---------------------------------------------------------------- solid pages

// solid is a page whose article is beyond doubt: several long paragraphs of prose in one
// container.  What a property is about is put among the paragraphs.
type solid struct {
	page, head, body, box *N
}

func (g *G) prose() *N {
	return el("p", tx(g.textOf(g.between(150, 320), 18)+"."))
}

// solidPage interleaves the paragraphs of the article with what extra makes.
func (g *G) solidPage(extra func(i int) []*N) *solid {
	s := &solid{}
	s.box = el(pick(g, "div", "article", "section", "main"))
	if g.n(3) == 0 {
		s.box.with("class", pick(g, "content", "story", "post-body", "x", "c1"))
	}
	if g.n(5) == 0 {
		s.box.with("id", pick(g, "main", "y", "entry"))
	}
	k := g.between(4, 6)
	for i := 0; i < k; i++ {
		s.box.add(g.prose())
		if extra != nil {
			s.box.add(extra(i)...)
		}
	}
	inner := s.box
	for i := g.n(3); i > 0; i-- {
		inner = el(pick(g, "div", "section", "div"), inner)
		if g.n(4) == 0 {
			inner.with("class", pick(g, "wrap", "x", "row"))
		}
		if g.n(3) == 0 {
			inner.Kids = append([]*N{g.noise()}, inner.Kids...)
		}
	}
	s.body = el("body")
	for i := g.n(3); i > 0; i-- {
		s.body.add(g.noise())
	}
	s.body.add(inner)
	for i := g.n(3); i > 0; i-- {
		s.body.add(g.noise())
	}
	s.head = el("head", el("title", tx("Quite an ordinary page title of some words")))
	s.page = el("html", s.head, s.body)
	if g.n(15) == 0 {
		g.rootNames(s.page)
	}
	return s
}

// rootNames gives the root names as they are set by scripts and style sheets: it stays, whatever they are.
func (g *G) rootNames(html *N) {
	if g.n(4) > 0 {
		html.with("class", pick(g, "no-js header-fixed", "comments-open", "has-sidebar js", "author", "byline", "page", "banner-ad-break", g.decor(from(g, wUnlikely))))
	}
	if g.n(3) == 0 {
		html.with("id", pick(g, "sidebar", "footer", "rss", "content", g.decor(from(g, wUnlikely))))
	}
	if g.n(6) == 0 {
		html.with("role", pick(g, "menu", "dialog", "complementary", "document"))
	}
}

// noise is the usual company of an article: little text, many links.
func (g *G) noise() *N {
	switch g.n(5) {
	case 0:
		u := el("ul")
		for i := g.between(2, 4); i > 0; i-- {
			u.add(el("li", el("a", tx(g.textOf(g.between(4, 12), 0))).with("href", "http://h.example/nav")))
		}
		return el("nav", u)
	case 1:
		return el("div", el("a", tx(g.textOf(8, 0))).with("href", "http://h.example/home")).with("class", pick(g, "top", "bar", "logo"))
	case 2:
		return el("footer", tx(g.textOf(20, 0)))
	case 3:
		return el("div", tx(g.textOf(g.between(5, 15), 0))).with("id", pick(g, "x1", "bottom"))
	default:
		return el("aside", el("p", tx(g.textOf(g.between(10, 40), 0))))
	}
}

// feature is something one of the properties is about.
func (g *G) feature() []*N {
	switch g.n(15) {
	case 0:
		return []*N{g.place(g.video(1))}
	case 1:
		return []*N{g.anyTable(1)}
	case 2:
		return []*N{g.place(g.lazyImage())}
	case 3:
		return []*N{g.broken(1)}
	case 4:
		return []*N{g.boiler(1)}
	case 5:
		return []*N{g.bylinePlace(g.bylineLike())}
	case 6:
		return []*N{g.maybeHidden(1)}
	case 7:
		return g.withNoscript()
	case 8:
		return []*N{g.sharing()}
	case 9:
		return []*N{el("p", tx(g.textOf(80, 5)), g.pointing(), tx(g.textOf(80, 5)))}
	case 10:
		return []*N{el("p", tx(g.textOf(80, 5)), g.active(1))}
	case 11:
		return []*N{g.harmless()}
	case 12:
		return []*N{g.block(2)}
	case 13:
		return []*N{el(pick(g, "p", "div"), tx(g.textOf(90, 10))).with("class", g.classList())}
	}
	return []*N{g.opening()}
}

// richPage is a page with anything any of the properties is about.
func (g *G) richPage() *N {
	if g.n(3) == 0 {
		return g.page(pick(g, 15, 30, 50))
	}
	s := g.solidPage(func(int) []*N {
		var l []*N
		for i := g.n(3); i > 0; i-- {
			l = append(l, g.feature()...)
		}
		return l
	})
	for i := g.n(5); i > 0; i-- {
		s.head.add(g.meta())
	}
	if g.n(5) == 0 {
		s.head.add(g.ldScript())
	}
	if g.n(4) == 0 {
		s.head.Kids[0] = el("title", tx(g.pageTitle()))
	}
	if g.n(6) == 0 {
		s.head.add(el("base").with("href", g.baseRef()))
	}
	if g.n(4) == 0 {
		s.page.set(pick(g, "lang", "dir"), pick(g, "en", "rtl", "de-DE"))
	}
	if g.n(4) == 0 { // less prose
		var kids []*N
		for _, k := range s.box.Kids {
			if k.Tag != "p" || g.n(3) == 0 {
				kids = append(kids, k)
			}
		}
		s.box.Kids = kids
	}
	return s.page
}
