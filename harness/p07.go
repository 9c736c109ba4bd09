package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C07: metadata of meta elements.  C08: JSON-LD.  C09: the title of the page.

func init() {
	register(&Prop{
		ID: "C07",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &pageCase{URI: docURI}
			s := g.solidPage(nil)
			c.Page = s.page
			for i := g.between(2, 14); i > 0; i-- {
				m := g.meta()
				if g.n(10) == 0 {
					s.body.add(m)
				} else {
					s.head.Kids = append(s.head.Kids, m)
				}
			}
			g.shuffle(s.head)
			if g.n(6) == 0 {
				s.head.add(g.ldScript())
				c.Opt.NoLD = g.bool()
			}
			if g.n(6) == 0 {
				s.box.Kids = append([]*N{el("p", tx("By "+g.word())).with("class", "byline")}, s.box.Kids...)
			}
			if g.n(4) == 0 {
				c.Opt.Thr = ptr(pick(g, 1, 100, 5000))
			}
			return c
		},
		New: newPageCase, Check: checkMeta("C07"), Shrink: shrinkPage,
		Quick: 60000, Thorough: 800000,
		Rule:   "an article with a head of random meta elements: recognised and unrecognised names and properties of every vocabulary in every spelling (case, separators, blanks, lists of properties), repeated, empty, with escaped content, sometimes with JSON-LD or a byline in the text; title, author, description, site name and publication time must be those an independent model of the precedence rules gives. Non-trivial: two or more sources for the same field.",
		Assume: []string{"of a list of properties only the first recognised one counts, as in the original"},
	})
	register(&Prop{
		ID: "C08",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &pageCase{URI: docURI}
			s := g.solidPage(nil)
			c.Page = s.page
			s.head.Kids[0] = el("title", tx(g.ldTitle()))
			for i := g.between(1, 3); i > 0; i-- {
				sc := g.ldScript()
				if g.n(4) == 0 {
					s.body.add(sc)
				} else {
					s.head.add(sc)
				}
			}
			for i := g.n(4); i > 0; i-- {
				s.head.add(g.meta())
			}
			c.Opt.NoLD = g.n(6) == 0
			return c
		},
		New: newPageCase, Check: checkMeta("C08"), Shrink: shrinkPage,
		Quick: 60000, Thorough: 800000,
		Rule:   "an article with one to three JSON-LD blocks (articles of every type, other types, graphs, other contexts, values of any JSON type where strings are expected, broken JSON, several authors, name and headline that agree or not with the title) and meta elements, with JSON-LD enabled or not; the metadata must be those of the model: the first block that describes an article wins over the meta elements field by field, everything else is ignored, and nothing is taken when it is disabled. Non-trivial: a block with an article was found, or there is a block of another kind and metadata elsewhere.",
		Assume: []string{"types are compared with the names the original lists"},
	})
	register(&Prop{
		ID: "C09",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &pageCase{URI: docURI}
			s := g.solidPage(nil)
			c.Page = s.page
			title := g.pageTitle()
			s.head.Kids[0] = el("title", tx(title))
			if g.n(15) == 0 {
				s.head.Kids = nil
			}
			if g.n(10) == 0 {
				s.head.add(el("title", tx(g.pageTitle())))
			}
			for i := g.n(4); i > 0; i-- {
				h := el(pick(g, "h1", "h1", "h2", "h3"))
				switch g.n(5) {
				case 0, 1:
					h.add(tx(pick(g, "", " ", "\n") + title + pick(g, "", " ")))
				case 2:
					h.add(el("b", tx(g.pageTitle())), tx(pick(g, "", " ", "  ")+g.word()))
				default:
					h.add(tx(g.pageTitle()))
				}
				switch g.n(8) {
				case 0:
					g.hide(h)
				case 1:
					h.with(pick(g, "class", "id", "role", "itemprop"), pick(g, "title", "headline", "hidden", "sr-only", "name", "heading", "banner"))
				}
				if g.bool() {
					s.box.Kids = append([]*N{h}, s.box.Kids...)
				} else {
					s.body.Kids = append([]*N{h}, s.body.Kids...)
				}
			}
			if g.n(10) == 0 {
				s.head.add(el("meta").with("property", pick(g, "og:title", "og:description")).with("content", "M"+g.word()))
			}
			return c
		},
		New: newPageCase, Check: checkMeta("C09"), Shrink: shrinkPage,
		Quick: 80000, Thorough: 1000000,
		Rule: "page titles made of words, separators of every kind with and without blanks, colons, several lines, of lengths around the limits, with headings that are the same, similar or different, any number of them; the title must be the one an independent model of the rules gives. Non-trivial: the title of the article is not the title of the page.",
	})
}

func (g *G) shuffle(n *N) {
	for i := len(n.Kids) - 1; i > 0; i-- {
		j := g.n(i + 1)
		n.Kids[i], n.Kids[j] = n.Kids[j], n.Kids[i]
	}
}

func (g *G) recase(s string) string {
	switch g.n(6) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

func (g *G) metaValue() string {
	w := g.word()
	switch g.n(14) {
	case 6:
		return pick(g, `"`+w+`"`, "'"+w+"'", "“"+w+"”", "«"+w+" "+g.word()+"»", "("+w+")", "["+w+"]", "- "+w+" -", w+".", w+"…", "@"+w, "#"+w, "http://h.example/"+w, w+",", "/"+w+"/", "|"+w)
	case 7:
		return pick(g, "\\u0022"+w, "0", "null", "undefined", "false", "1/2", "By "+w, "by "+w+" and "+g.word(), w+" - "+g.word(), w+" | "+g.word(), w+": "+g.word(), "<p>"+w+"</p>", "\u00a0"+w+"\u00a0", w+"\n\n"+g.word(), w+"\t "+g.word())
	case 0:
		return ""
	case 1:
		return pick(g, " ", "\n")
	case 2:
		return "  " + w + " " + g.word() + "\n"
	case 3:
		return w + " &amp; &lt;b&gt; &#233; &#x1d4b3; &quot;"
	case 4:
		return w + " & <b> \"q\" 'a' é 𝒳"
	case 5:
		return w + " &amp;lt; &unknown; &# &"
	}
	return w + " " + g.word()
}

// meta is a meta element, recognised or not.
func (g *G) meta() *N {
	m := el("meta")
	name := func() string {
		k := from(g, metaKeys)
		if g.n(3) == 0 {
			return g.recase(k)
		}
		return pick(g, "", " ") + g.recase(from(g, metaPrefixes)) + pick(g, ":", ".", ":", " : ", ". ") + g.recase(k) + pick(g, "", " ")
	}
	prop := func() string {
		return g.recase(from(g, propPrefixes)) + ":" + g.recase(from(g, propKeys))
	}
	odd := func() string {
		return pick(g, "viewport", "keywords", "og:image", "og:type", "fb:app_id", "robots", "article:tag", "dc:subject", "twitter:card", "generator", "theme-color")
	}
	switch g.n(10) {
	case 0, 1, 2:
		m.with("name", name())
	case 3, 4, 5:
		m.with("property", prop())
	case 6:
		l := []string{odd(), prop()}
		if g.bool() {
			l = append(l, prop())
		}
		m.with("property", strings.Join(l, pick(g, " ", "  ", "\n")))
	case 7:
		m.with("name", name()).with("property", pick(g, prop(), odd()))
	case 8:
		m.with(pick(g, "name", "property"), odd())
	default:
		m.with(pick(g, "itemprop", "http-equiv", "charset"), "description")
	}
	if g.n(12) > 0 {
		m.with("content", g.metaValue())
	}
	return m
}

// ---------------------------------------------------------------- JSON-LD

func (g *G) ldTitle() string {
	return pick(g, "Quite an ordinary page title of some words", "alpha beta gamma delta", "alpha beta gamma delta - Site Name", "morning alpha beta gamma one", "One: two three four five")
}

func (g *G) ldString() any {
	switch g.n(12) {
	case 0:
		return pick(g, any(nil), any(1.5), any(true), any([]any{}), any([]any{"x"}), any(map[string]any{}), any(map[string]any{"name": 1}))
	case 1:
		return ""
	case 2:
		return "  " + g.word() + "\n"
	case 3:
		return g.word() + " &amp; \"q\" é \\ / 𝒳"
	}
	if g.n(12) == 0 { // markers inside of a value are none
		return g.word() + pick(g, " <![CDATA[ ", " ]]> ", "]]>", "<![CDATA[", " <![CDATA[x]]> ") + g.word()
	}
	return g.word() + " " + g.word()
}

func (g *G) ldPerson() any {
	switch g.n(8) {
	case 0:
		return g.ldString()
	case 1:
		return map[string]any{"@type": "Person", "url": "http://x"}
	}
	return map[string]any{"@type": "Person", "name": g.ldString()}
}

func (g *G) ldArticle() map[string]any {
	m := map[string]any{}
	switch g.n(8) {
	case 0:
		m["@type"] = pick(g, "WebPage", "Organization", "BreadcrumbList", "Person", "VideoObject", "WikiArticle", "PressArticle", "article", "newsarticle", "APIReferences", "Blog", "BlogPost", "NewsMediaOrganization", "blogPosting", "News Article", "Posting", "TechArticl")
	case 1:
		m["@type"] = pick(g, any(nil), any([]any{"NewsArticle"}), any(3), any(map[string]any{}))
	case 2:
		m["@type"] = pick(g, "Article", "APIReference")
	default:
		m["@type"] = from(g, ldTypes)
	}
	titles := func() any {
		if g.n(3) == 0 {
			return g.ldString()
		}
		return pick(g, "alpha beta gamma delta", " alpha beta gamma delta ", "beta gamma delta", "alpha beta gamma one", "gamma, beta, alpha, one and only", "Quite an ordinary page title of some words", "ordinary page title", "Something else entirely here", "Alpha Beta Gamma Delta", " Alpha beta gamma delta ", "ALPHA BETA GAMMA DELTA\n")
	}
	if g.n(3) > 0 {
		m["name"] = titles()
	}
	if g.n(3) > 0 {
		m["headline"] = titles()
	}
	switch g.n(4) {
	case 0:
		m["author"] = g.ldPerson()
	case 1:
		l := []any{}
		for i := g.n(4); i > 0; i-- {
			l = append(l, g.ldPerson())
		}
		m["author"] = l
	case 2:
		m["author"] = g.ldString()
	}
	if g.n(2) == 0 {
		m["description"] = g.ldString()
	}
	if g.n(2) == 0 {
		m["publisher"] = pick(g, g.ldPerson(), any(map[string]any{"@type": "Organization", "name": g.word()}))
	}
	if g.n(2) == 0 {
		m["datePublished"] = pick(g, g.ldString(), any(" 2020-01-02T03:04:05Z "), any("2020-01-02"))
	}
	for g.n(2) == 0 { // and what has no meaning here
		m[pick(g, "abstract", "alternativeHeadline", "alternateName", "dateCreated", "dateModified", "creator", "editor", "contributor", "sourceOrganization", "provider", "copyrightHolder", "articleBody", "text", "title", "Name", "Headline", "authors", "byline", "keywords", "url", "image", "siteName", "isPartOf", "published", "uploadDate", "about")] = pick(g, any(g.ldString()), g.ldPerson(), any([]any{g.ldPerson()}))
	}
	if g.n(5) == 0 {
		m["mainEntityOfPage"] = map[string]any{"@id": "x", "@type": "WebPage", "name": "inner"}
	}
	return m
}

func (g *G) ldScript() *N {
	var v any
	m := g.ldArticle()
	switch g.n(8) {
	case 0:
		v = pick(g, any([]any{m}), any("x"), any(1), any(nil), any([]any{}))
	case 1, 2:
		l := []any{}
		for i := g.n(4); i > 0; i-- {
			l = append(l, pick(g, any(g.ldArticle()), any(1), any(nil), any("x"), any(map[string]any{"@type": "Person", "name": "P"})))
		}
		l = append(l, m)
		v = map[string]any{"@graph": l, "name": "outer", "description": "outer"}
	case 3:
		v = map[string]any{"@graph": pick(g, any(m), any("x"), any(nil))}
	case 4: // and a graph of other things
		m["@graph"] = pick(g, any([]any{}), any([]any{1, nil, map[string]any{"@type": "Person", "name": "P"}}), any([]any{map[string]any{"name": "P", "@type": []any{"Article"}}, "Article"}), any("x"), any(nil))
		v = m
	default:
		v = m
	}
	if o, ok := v.(map[string]any); ok {
		switch g.n(10) {
		case 0:
		case 1:
			o["@context"] = pick(g, any("http://example.org"), any("schema.org"), any([]any{"https://schema.org"}), any(nil), any(map[string]any{"@vocab": "https://schema.org"}), any("https://schema.org/x"), any("xhttp://schema.org"))
		default:
			o["@context"] = pick(g, "http://schema.org", "https://schema.org", "http://schema.org/", "https://schema.org/")
		}
	}
	var b strings.Builder
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if g.n(4) == 0 {
		e.SetIndent("", "  ")
	}
	if err := e.Encode(v); err != nil {
		panic(harnessError(err.Error()))
	}
	s := b.String()
	switch g.n(14) {
	case 0:
		s = s[:g.n(len(s))]
		for len(s) > 0 && s[len(s)-1] >= 0x80 {
			s = s[:len(s)-1]
		}
	case 1:
		s = s + "}"
	case 2:
		s = ""
	}
	if g.n(12) == 0 { // markers that are part of the text
		s = pick(g, "", " ", "\n", "\n\t ") + "<![CDATA[" + pick(g, "", " ", "\n") + s + "]]>" + pick(g, "", "\n", "  \n")
	}
	sc := el("script").with("type", "application/ld+json")
	if g.n(12) == 0 {
		sc.set("type", pick(g, "application/json", "text/javascript", "application/ld+json; charset=utf-8"))
	}
	t := tx(s)
	if g.n(6) == 0 {
		t.Enc = encCDATA
	}
	return sc.add(t)
}

// ---------------------------------------------------------------- titles

func (g *G) pageTitle() string {
	word := func() string {
		return pick(g, "News", "of", "the", "World", "alpha", "beta", "Gamma", "delta", "five", "é", "日本", "x-y", "a/b", "AC/DC", "re:make", "1|2", "ten")
	}
	words := func(k int) string {
		var l []string
		for i := 0; i < k; i++ {
			l = append(l, word())
		}
		return strings.Join(l, pick(g, " ", " ", " ", "  ", "\n"))
	}
	s := words(g.between(0, 7))
	for g.n(5) > 1 {
		sep := pick(g, " | ", " - ", " \\ ", " / ", " > ", " » ", "|", " -", "- ", ": ", ":", " : ", ": ", " – ", " · ", "  -  ", " » ")
		s += sep + words(g.between(0, 6))
		if len(s) > 400 {
			break
		}
	}
	switch g.n(12) {
	case 0:
		s = s + " " + g.textOf(g.between(100, 160), 0)
	case 1:
		r := []rune(s)
		if len(r) > 16 {
			s = string(r[:g.between(13, 16)])
		}
	case 2:
		s = g.textOf(pick(g, 14, 15, 16, 149, 150, 151), 0)
	}
	return s
}

// ---------------------------------------------------------------- oracle

func checkMeta(id string) func(Case, *Obs) error {
	return func(cc Case, o *Obs) error {
		c := cc.(*pageCase)
		if !c.wellFormed() {
			return nil
		}
		b, skip, err := c.both(o)
		if skip || err != nil {
			return err
		}
		if b.err != nil || b.want == nil {
			o.Class("no article")
			return nil
		}
		m := b.meta
		if id == "C09" {
			if b.res.Title != m.Title {
				return fmt.Errorf("title %q, expected %q", b.res.Title, m.Title)
			}
			if t := c.Page.all("title"); len(t) > 0 && strings.TrimSpace(t[0].text()) != m.Title {
				o.NonTrivial()
				o.Class("title changed")
			}
			return nil
		}
		cmp := func(what, got, want string) error {
			if got != want {
				return fmt.Errorf("%s %q, expected %q", what, got, want)
			}
			return nil
		}
		if err := cmp("title", b.res.Title, m.Title); err != nil {
			return err
		}
		byline := m.Byline
		if byline == "" {
			byline = b.ref.byline
		}
		if err := cmp("byline", b.res.Byline, byline); err != nil {
			return err
		}
		if m.Excerpt != "" {
			if err := cmp("excerpt", b.res.Excerpt, m.Excerpt); err != nil {
				return err
			}
		} else if strings.TrimSpace(b.res.Excerpt) != "" && !strings.Contains(flatText(b.res.TextContent), flatText(b.res.Excerpt)) {
			return fmt.Errorf("excerpt %q is neither in the metadata nor in the text", b.res.Excerpt)
		}
		if err := cmp("site name", b.res.SiteName, m.SiteName); err != nil {
			return err
		}
		if err := cmp("publication time", b.res.PublishedTime, m.Published); err != nil {
			return err
		}
		_, ld := refLD(c.Page)
		o.ClassIf(ld, "JSON-LD article")
		o.ClassIf(c.Opt.NoLD, "JSON-LD disabled")
		n := 0
		for _, s := range []string{m.Title, m.Byline, m.Excerpt, m.SiteName, m.Published} {
			n += b2i(s != "")
		}
		o.Class(fmt.Sprintf("%d fields", n))
		scripts := len(c.Page.all("script"))
		same := map[string]int{}
		for _, e := range c.Page.all("meta") {
			k := propName(e.attr("property"))
			if k == "" {
				k = metaName(e.attr("name"))
			}
			if k != "" && e.attr("content") != "" {
				k = k[strings.LastIndexByte(k, ':')+1:]
				same[map[string]string{"creator": "author"}[k]+k]++
			}
		}
		many := false
		for _, v := range same {
			many = many || v > 1
		}
		if id == "C07" && many || id == "C08" && (ld || scripts > 0 && n > 1) {
			o.NonTrivial()
		}
		return nil
	}
}
