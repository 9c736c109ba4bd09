package main

// A reference model of the Readability algorithm (mozilla/readability at 97db40b, the
// version the library says it is aligned with), on the trees the generators build: no
// parser, no serializer, no cached relations, everything recomputed naively.

import (
	"math"
	"regexp"
	"strings"
)

// ---------------------------------------------------------------- tree operations

func (n *N) index() int {
	for i, k := range n.up.Kids {
		if k == n {
			return i
		}
	}
	panic(harnessError("orphan in model"))
}

func (n *N) detach() {
	if n.up == nil {
		return
	}
	i := n.index()
	n.up.Kids = append(append([]*N{}, n.up.Kids[:i]...), n.up.Kids[i+1:]...)
	n.up = nil
}

func (n *N) push(k *N) {
	k.detach()
	n.Kids = append(n.Kids, k)
	k.up = n
}

// swap puts m in the place of n.
func (n *N) swap(m *N) {
	m.detach()
	i := n.index()
	p := n.up
	p.Kids = append([]*N{}, p.Kids...)
	p.Kids[i] = m
	m.up = p
	n.up = nil
}

func (n *N) next() *N {
	if n.up == nil {
		return nil
	}
	i := n.index()
	if i+1 < len(n.up.Kids) {
		return n.up.Kids[i+1]
	}
	return nil
}

func (n *N) elems() []*N {
	var out []*N
	for _, k := range n.Kids {
		if !k.isText() {
			out = append(out, k)
		}
	}
	return out
}

func (n *N) nextElem() *N {
	for m := n.next(); m != nil; m = m.next() {
		if !m.isText() {
			return m
		}
	}
	return nil
}

func (n *N) prevElem() *N {
	if n.up == nil {
		return nil
	}
	for i := n.index() - 1; i >= 0; i-- {
		if !n.up.Kids[i].isText() {
			return n.up.Kids[i]
		}
	}
	return nil
}

// following is the next element in document order, below n too unless skip.
func (n *N) following(skip bool) *N {
	if !skip {
		if e := n.elems(); len(e) > 0 {
			return e[0]
		}
	}
	for m := n; m != nil; m = m.up {
		if s := m.nextElem(); s != nil {
			return s
		}
	}
	return nil
}

func (n *N) is(tags ...string) bool {
	for _, t := range tags {
		if n.Tag == t {
			return true
		}
	}
	return false
}

func (n *N) ancestors() []*N {
	var out []*N
	for m := n.up; m != nil; m = m.up {
		out = append(out, m)
	}
	return out
}

func (n *N) hasAncestor(tag string, levels int, ok func(*N) bool) bool {
	for i, m := range n.ancestors() {
		if levels > 0 && i >= levels {
			return false
		}
		if m.Tag == tag && (ok == nil || ok(m)) {
			return true
		}
	}
	return false
}

// parsed is n as a parser sees it: adjacent texts are one, unless there is a comment
// between them or one of them is a CDATA section.
func (n *N) parsed() *N {
	c := &N{Tag: n.Tag, Text: n.Text}
	c.At = append(c.At, n.At...)
	glue := false
	add := func(s string) {
		if s == "" {
			return
		}
		if glue {
			c.Kids[len(c.Kids)-1].Text += s
		} else {
			c.Kids = append(c.Kids, tx(s))
		}
		glue = true
	}
	for _, k := range n.Kids {
		switch {
		case !k.isText():
			c.Kids = append(c.Kids, k.parsed())
			glue = false
		case k.Enc == encComment:
			i := len(k.Text) / 2
			for i < len(k.Text) && k.Text[i]&0xC0 == 0x80 {
				i++
			}
			add(k.Text[:i])
			glue = false
			add(k.Text[i:])
		case k.Enc == encCDATA && k.Text != "" && !strings.Contains(k.Text, "]]>"):
			glue = false
			add(k.Text)
			glue = false
		default:
			add(k.Text)
		}
	}
	return c.link()
}

// ---------------------------------------------------------------- text

func chars(s string) int { return len([]rune(s)) }

func isSpaceASCII(c rune) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r' }

// squeeze trims and makes one blank of every run of two or more blanks.
func squeeze(s string) string {
	s = strings.TrimSpace(s)
	var b strings.Builder
	var ws []rune
	flush := func() {
		if len(ws) == 1 {
			b.WriteRune(ws[0])
		} else if len(ws) > 1 {
			b.WriteByte(' ')
		}
		ws = ws[:0]
	}
	for _, c := range s {
		if isSpaceASCII(c) {
			ws = append(ws, c)
			continue
		}
		flush()
		b.WriteRune(c)
	}
	flush()
	return b.String()
}

func (n *N) inner() string { return squeeze(n.text()) }
func (n *N) innerLen() int { return chars(n.inner()) }
func (n *N) blank() bool   { return strings.TrimSpace(n.text()) == "" }

func isBlankASCII(s string) bool {
	for _, c := range s {
		if !isSpaceASCII(c) {
			return false
		}
	}
	return true
}

// similarity of the words of b to those of a: 1 when all of them are in a.
func similarity(a, b string) float64 {
	words := func(s string) []string {
		return strings.FieldsFunc(strings.ToLower(s), func(c rune) bool {
			return !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z')
		})
	}
	wa, wb := words(a), words(b)
	if len(wa) == 0 || len(wb) == 0 {
		return 0
	}
	in := map[string]bool{}
	for _, w := range wa {
		in[w] = true
	}
	var odd []string
	for _, w := range wb {
		if !in[w] {
			odd = append(odd, w)
		}
	}
	return 1 - float64(len(strings.Join(odd, " ")))/float64(len(strings.Join(wb, " ")))
}

// ---------------------------------------------------------------- vocabulary

func hasAny(s string, words []string) bool {
	s = strings.ToLower(s)
	for _, w := range words {
		if strings.Contains(s, w) {
			return true
		}
	}
	return false
}

var (
	wUnlikely = []string{"-ad-", "ai2html", "banner", "breadcrumbs", "combx", "comment", "community", "cover-wrap", "disqus", "extra", "footer", "gdpr", "header", "legends", "menu", "related", "remark", "replies", "rss", "shoutbox", "sidebar", "skyscraper", "social", "sponsor", "supplemental", "ad-break", "agegate", "pagination", "pager", "popup", "yom-remote"}
	wMaybe    = []string{"and", "article", "body", "column", "content", "main", "shadow"}
	wPositive = []string{"article", "body", "content", "entry", "hentry", "h-entry", "main", "page", "pagination", "post", "text", "blog", "story"}
	wNegative = []string{"-ad-", "hidden", "banner", "combx", "comment", "com-", "contact", "foot", "footer", "footnote", "gdpr", "masthead", "media", "meta", "outbrain", "promo", "related", "scroll", "share", "shoutbox", "sidebar", "skyscraper", "sponsor", "shopping", "tags", "tool", "widget"}
	wByline   = []string{"byline", "author", "dateline", "writtenby", "p-author"}
	wRoles    = []string{"menu", "menubar", "complementary", "navigation", "alert", "alertdialog", "dialog"}

	tPhrasing = []string{"abbr", "audio", "b", "bdo", "br", "button", "cite", "code", "data", "datalist", "dfn", "em", "embed", "i", "img", "input", "kbd", "label", "mark", "math", "meter", "noscript", "object", "output", "progress", "q", "ruby", "samp", "script", "select", "small", "span", "strong", "sub", "sup", "textarea", "time", "var", "wbr"}
	tBlock    = []string{"blockquote", "dl", "div", "img", "ol", "p", "pre", "table", "ul"}
	tScored   = []string{"section", "h2", "h3", "h4", "h5", "h6", "p", "td", "pre"}
	tHeadings = []string{"h1", "h2", "h3", "h4", "h5", "h6"}

	aPresentational = []string{"align", "background", "bgcolor", "border", "cellpadding", "cellspacing", "frame", "hspace", "rules", "style", "valign", "vspace"}

	rVideos = regexp.MustCompile(`(?i)//(www\.)?((dailymotion|youtube|youtube-nocookie|player\.vimeo|v\.qq)\.com|(archive|upload\.wikimedia)\.org|player\.twitch\.tv)`)
	rShare  = regexp.MustCompile(`(?i)(\b|_)(share|sharedaddy)(\b|_)`)
)

func negativeName(s string) bool {
	if hasAny(s, wNegative) {
		return true
	}
	for _, f := range strings.Split(strings.ToLower(s), " ") {
		if f == "hid" {
			return true
		}
	}
	return false
}

func oneOf(s string, list []string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- the model

type refOpts struct {
	Top       int
	Threshold int
	Keep      bool
	Classes   []string
	NoLD      bool
	Video     *regexp.Regexp
}

func defaultRef() refOpts { return refOpts{Top: 5, Threshold: 500, Video: rVideos} }

type refRun struct {
	o          refOpts
	html, body *N
	title      string
	byline     string
	lang, dir  string
	dirKnown   bool // the direction is decided by ancestors that are all still there
	strip      bool
	weigh      bool
	clean      bool
	score      map[*N]float64
	data       map[*N]bool
	passes     int
	lengths    []int
	uri        string
	uncertain  string // set when floating point or another tie decides the outcome
	lastTop    *N
	probes     map[string]int
}

func (r *refRun) probe(s string) {
	if r.probes == nil {
		r.probes = map[string]int{}
	}
	r.probes[s]++
}

// refVisible tells whether an element can be seen.
func refVisible(n *N) bool {
	st := n.attr("style")
	if cssValue(st, "display") == "none" || cssValue(st, "visibility") == "hidden" {
		return false
	}
	if n.has("hidden") {
		return false
	}
	if n.attr("aria-hidden") == "true" && !strings.Contains(n.attr("class"), "fallback-image") {
		return false
	}
	return true
}

// cssValue is the value a browser gives to a property of a style attribute: names are
// case-insensitive, the last declaration wins unless an important one is there.
func cssValue(style, prop string) string {
	val, imp := "", false
	for _, d := range strings.Split(style, ";") {
		i := strings.IndexByte(d, ':')
		if i < 0 || !strings.EqualFold(strings.TrimSpace(d[:i]), prop) {
			continue
		}
		v := strings.ToLower(strings.TrimSpace(d[i+1:]))
		important := strings.HasSuffix(v, "!important")
		v = strings.TrimSpace(strings.TrimSuffix(v, "!important"))
		if imp && !important {
			continue
		}
		val, imp = v, important
	}
	return val
}

func phrasing(n *N) bool {
	if n.isText() || n.is(tPhrasing...) {
		return true
	}
	if n.is("a", "del", "ins") {
		for _, k := range n.Kids {
			if !phrasing(k) {
				return false
			}
		}
		return true
	}
	return false
}

func isWS(n *N) bool {
	if n.isText() {
		return strings.TrimSpace(n.Text) == ""
	}
	return n.Tag == "br"
}

func (n *N) contentless() bool {
	if !n.blank() {
		return false
	}
	return len(n.elems()) == 0 || len(n.elems()) == len(n.all("br", "hr"))
}

// onlyChild is the single element child with that tag, if there is no text beside it.
func (n *N) onlyChild(tag string) *N {
	e := n.elems()
	if len(e) != 1 || e[0].Tag != tag {
		return nil
	}
	for _, k := range n.Kids {
		if k.isText() && !isBlankASCII(k.Text) {
			return nil
		}
	}
	return e[0]
}

func (n *N) hasBlockInside() bool {
	found := false
	for _, k := range n.Kids {
		k.walk(func(m *N) bool {
			found = found || m.is(tBlock...)
			return !found
		})
	}
	return found
}

func (n *N) linkDensity() float64 {
	total := n.innerLen()
	if total == 0 {
		return 0
	}
	sum := 0.0
	for _, a := range n.all("a") {
		c := 1.0
		if h := a.attr("href"); len(h) > 1 && h[0] == '#' && h[1] != '\n' {
			c = 0.3
		}
		sum += float64(a.innerLen()) * c
	}
	return sum / float64(total)
}

func (r *refRun) weight(n *N) float64 {
	if !r.weigh {
		return 0
	}
	w := 0.0
	for _, s := range []string{n.attr("class"), n.attr("id")} {
		if s == "" {
			continue
		}
		if negativeName(s) {
			w -= 25
		}
		if hasAny(s, wPositive) {
			w += 25
		}
	}
	return w
}

func (r *refRun) initial(n *N) float64 {
	w := r.weight(n)
	switch {
	case n.is("div"):
		w += 5
	case n.is("pre", "td", "blockquote"):
		w += 3
	case n.is("address", "ol", "ul", "dl", "dd", "dt", "li", "form"):
		w -= 3
	case n.is("h1", "h2", "h3", "h4", "h5", "h6", "th"):
		w -= 5
	}
	return w
}

// skipBlank is the first node from n on that is an element or has something to see.
func skipBlank(n *N) *N {
	for n != nil && n.isText() && isBlankASCII(n.Text) {
		n = n.next()
	}
	return n
}

// breaksToParagraphs makes paragraphs of what follows two or more line breaks.
func breaksToParagraphs(body *N) {
	for _, br := range body.all("br") {
		if br.up == nil {
			continue
		}
		chain := false
		for m := skipBlank(br.next()); m != nil && m.Tag == "br"; m = skipBlank(br.next()) {
			// everything between the two breaks is blank and stays where it is
			after := m
			chain = true
			after.detach()
		}
		if !chain {
			continue
		}
		p := el("p")
		br.swap(p)
		for m := p.next(); m != nil; m = p.next() {
			if m.Tag == "br" {
				if f := skipBlank(m.next()); f != nil && f.Tag == "br" {
					break
				}
			}
			if !phrasing(m) {
				break
			}
			p.push(m)
		}
		for len(p.Kids) > 0 && isWS(p.Kids[len(p.Kids)-1]) {
			p.Kids[len(p.Kids)-1].detach()
		}
		if p.up.Tag == "p" {
			p.up.Tag = "div"
		}
	}
}

func singleImage(n *N) bool {
	if n.Tag == "img" {
		return true
	}
	e := n.elems()
	if len(e) != 1 || !n.blank() {
		return false
	}
	return singleImage(e[0])
}

var rImgExt = regexp.MustCompile(`(?i)\.(jpg|jpeg|png|webp)`)

func unwrapImages(root *N) {
	for _, img := range root.all("img") {
		keep := false
		for _, a := range img.At {
			if oneOf(a.K, []string{"src", "srcset", "data-src", "data-srcset"}) || rImgExt.MatchString(a.V) {
				keep = true
			}
		}
		if !keep {
			img.detach()
		}
	}
	for _, ns := range root.all("noscript") {
		if ns.up == nil {
			continue
		}
		box := ns.merged()
		box.Tag = "div"
		box.At = nil
		box.link()
		if !singleImage(box) {
			continue
		}
		prev := ns.prevElem()
		if prev == nil || !singleImage(prev) {
			continue
		}
		old := prev
		if old.Tag != "img" {
			old = prev.all("img")[0]
		}
		img := box.all("img")[0]
		for _, a := range old.At {
			if a.V == "" || !(a.K == "src" || a.K == "srcset" || rImgExt.MatchString(a.V)) || img.attr(a.K) == a.V {
				continue
			}
			k := a.K
			if img.has(k) {
				k = "data-old-" + k
			}
			img.set(k, a.V)
		}
		prev.swap(box.elems()[0])
	}
}

// walkPage is the first phase of a pass: drop what is not part of any article, turn divs
// that are paragraphs into paragraphs, and collect what is to be scored.
func (r *refRun) walkPage() []*N {
	var scored []*N
	titleHeader := true
	n := r.html
	if n == nil {
		n = r.body
	}
	drop := func(m *N, why string) *N {
		r.probe("walk:" + why)
		f := m.following(true)
		m.detach()
		return f
	}
	for n != nil {
		if n.Tag == "html" {
			r.lang = n.attr("lang")
		}
		if n == r.html || n == r.body {
			n = n.following(false)
			continue
		}
		name := n.attr("class") + " " + n.attr("id")
		if !refVisible(n) {
			n = drop(n, "hidden")
			continue
		}
		if n.attr("aria-modal") == "true" && n.attr("role") == "dialog" {
			n = drop(n, "modal")
			continue
		}
		if r.byline == "" && (n.attr("rel") == "author" || strings.Contains(n.attr("itemprop"), "author") || hasAny(name, wByline)) {
			if t := strings.TrimSpace(n.text()); chars(t) > 0 && chars(t) < 100 {
				r.byline = t
				n = drop(n, "byline")
				continue
			}
		}
		if titleHeader && n.is("h1", "h2") && similarity(r.title, strings.TrimSpace(n.text())) > 0.75 {
			titleHeader = false
			n = drop(n, "titleheader")
			continue
		}
		if r.strip {
			if hasAny(name, wUnlikely) && !hasAny(name, wMaybe) && !n.hasAncestor("table", 4, nil) && !n.hasAncestor("code", 4, nil) && !n.is("body", "a") {
				n = drop(n, "unlikely")
				continue
			}
			if oneOf(n.attr("role"), wRoles) {
				n = drop(n, "role")
				continue
			}
		}
		if (n.is("div", "section", "header") || n.is(tHeadings...)) && n.contentless() {
			n = drop(n, "contentless")
			continue
		}
		if n.is(tScored...) {
			scored = append(scored, n)
		}
		if n.Tag == "div" {
			var p *N
			trim := func() {
				for len(p.Kids) > 0 && isWS(p.Kids[len(p.Kids)-1]) {
					p.Kids[len(p.Kids)-1].detach()
				}
			}
			for _, k := range append([]*N{}, n.Kids...) {
				if phrasing(k) {
					if p != nil {
						p.push(k)
					} else if !isWS(k) {
						p = el("p")
						k.swap(p)
						p.push(k)
						r.probe("walk:wrap")
					}
				} else if p != nil {
					trim()
					p = nil
				}
			}
			if c := n.onlyChild("p"); c != nil && n.linkDensity() < 0.25 {
				n.swap(c)
				n = c
				r.probe("walk:unwrap")
				continue
			} else if !n.hasBlockInside() {
				n.Tag = "p"
				scored = append(scored, n)
				r.probe("walk:div2p")
			}
		}
		n = n.following(false)
	}
	return scored
}

func isComma(c rune) bool {
	switch c {
	case ',', 0x060C, 0xFE50, 0xFE10, 0xFE11, 0x2E41, 0x2E34, 0x2E32, 0xFF0C:
		return true
	}
	return false
}

func (r *refRun) candidates(scored []*N) []*N {
	var cands []*N
	for _, n := range scored {
		if n.up == nil {
			continue
		}
		t := n.inner()
		if chars(t) < 25 {
			continue
		}
		anc := n.ancestors()
		inPage := false
		for _, a := range anc {
			inPage = inPage || a == r.body
		}
		if !inPage {
			continue
		}
		points := 2.0
		for _, c := range t {
			if isComma(c) {
				points++
			}
		}
		points += math.Min(float64(chars(t)/100), 3)
		for lvl, a := range anc {
			if lvl == 5 || a.up == nil {
				break
			}
			if _, ok := r.score[a]; !ok {
				r.score[a] = r.initial(a)
				cands = append(cands, a)
			}
			switch lvl {
			case 0:
				r.score[a] += points
			case 1:
				r.score[a] += points / 2
			default:
				r.score[a] += points / float64(lvl*3)
			}
			if a == r.body {
				break
			}
		}
	}
	return cands
}

// close tells that two numbers are so near that rounding may decide their order.
func near(a, b float64) bool {
	return a != b && math.Abs(a-b) < 1e-9*(1+math.Abs(a)+math.Abs(b))
}

func (r *refRun) pickTop(cands []*N) (top *N, created bool) {
	var best []*N
	for _, c := range cands {
		r.score[c] *= 1 - c.linkDensity()
		for t := 0; t < r.o.Top; t++ {
			if t < len(best) && near(r.score[c], r.score[best[t]]) {
				r.uncertain = "near tie"
			}
			if t >= len(best) || r.score[c] > r.score[best[t]] {
				best = append(best[:t], append([]*N{c}, best[t:]...)...)
				if len(best) > r.o.Top {
					best = best[:r.o.Top]
				}
				break
			}
		}
	}
	if len(best) == 0 || best[0] == r.body {
		r.probe("top:body")
		d := el("div")
		for len(r.body.Kids) > 0 {
			d.push(r.body.Kids[0])
		}
		r.body.push(d)
		r.score[d] = r.initial(d)
		return d, true
	}
	top = best[0]
	var alts [][]*N
	for _, b := range best[1:] {
		q := r.score[b] / r.score[top]
		if near(q, 0.75) {
			r.uncertain = "near 0.75"
		}
		if q >= 0.75 {
			alts = append(alts, b.ancestors())
		}
	}
	if len(alts) >= 3 {
		for p := top.up; p.Tag != "body"; p = p.up {
			count := 0
			for _, anc := range alts {
				for _, a := range anc {
					if a == p {
						count++
						break
					}
				}
			}
			if count >= 3 {
				top = p
				r.probe("top:common ancestor")
				break
			}
		}
	}
	if _, ok := r.score[top]; !ok {
		r.score[top] = r.initial(top)
	}
	last := r.score[top]
	floor := last / 3
	for p := top.up; p.Tag != "body"; p = p.up {
		s, ok := r.score[p]
		if !ok {
			continue
		}
		if near(s, floor) || near(s, last) {
			r.uncertain = "near parent score"
		}
		if s < floor {
			break
		}
		if s > last {
			top = p
			r.probe("top:better parent")
			break
		}
		last = s
	}
	for p := top.up; p.Tag != "body" && len(p.elems()) == 1; p = top.up {
		top = p
		r.probe("top:only child")
	}
	if _, ok := r.score[top]; !ok {
		r.score[top] = r.initial(top)
	}
	return top, false
}

func (r *refRun) gather(top *N) *N {
	art := el("div")
	topScore := r.score[top]
	limit := math.Max(10, topScore*0.2)
	parent := top.up
	for _, s := range parent.elems() {
		keep := s == top
		if !keep {
			bonus := 0.0
			if c := s.attr("class"); c != "" && c == top.attr("class") {
				bonus = topScore * 0.2
			}
			sc, ok := r.score[s]
			if ok && near(sc+bonus, limit) {
				r.uncertain = "near sibling limit"
			}
			if ok && sc+bonus >= limit {
				keep = true
				r.probe("sibling:score")
			} else if s.Tag == "p" {
				d := s.linkDensity()
				t := s.inner()
				l := chars(t)
				if near(d, 0.25) {
					r.uncertain = "near density"
				}
				if l > 80 && d < 0.25 {
					keep = true
					r.probe("sibling:long p")
				} else if l < 80 && d == 0 && (strings.HasSuffix(t, ".") || strings.Contains(t, ". ")) {
					keep = true
					r.probe("sibling:short p")
				}
			}
		}
		if keep {
			if !s.is("div", "article", "section", "p") {
				s.Tag = "div"
			}
			art.push(s)
		}
	}
	return art
}

// ---------------------------------------------------------------- cleaning

func stripPresentation(n *N) {
	if n.Tag == "svg" {
		return
	}
	for _, a := range aPresentational {
		n.unset(a)
	}
	if n.is("table", "th", "td", "hr", "pre") {
		n.unset("width")
		n.unset("height")
	}
	for _, k := range n.elems() {
		stripPresentation(k)
	}
}

func atoiOr1(s string) int {
	n, neg := 0, false
	if s == "" {
		return 1
	}
	for i, c := range s {
		if i == 0 && (c == '-' || c == '+') {
			neg = c == '-'
			continue
		}
		if c < '0' || c > '9' {
			return 1
		}
		n = n*10 + int(c-'0')
	}
	if neg {
		n = -n
	}
	if n == 0 {
		return 1
	}
	return n
}

// dataTable tells tables with data from those used for layout.
func dataTable(t *N) bool {
	if t.attr("role") == "presentation" || t.attr("datatable") == "0" {
		return false
	}
	if t.attr("summary") != "" {
		return true
	}
	if c := t.all("caption"); len(c) > 0 && len(c[0].Kids) > 0 {
		return true
	}
	if len(t.all("col", "colgroup", "tfoot", "thead", "th")) > 0 {
		return true
	}
	if len(t.all("table")) > 0 {
		return false
	}
	rows, cols := 0, 0
	for _, tr := range t.all("tr") {
		rows += atoiOr1(tr.attr("rowspan"))
		c := 0
		for _, td := range tr.all("td") {
			c += atoiOr1(td.attr("colspan"))
		}
		cols = max(cols, c)
	}
	return rows >= 10 || cols > 4 || rows*cols > 10
}

var (
	rB64     = regexp.MustCompile(`(?i)^data:\s*([^\s;,]+)\s*;\s*base64\s*,`)
	rB64Mark = regexp.MustCompile(`(?i)base64\s*`)
	rExtNum  = regexp.MustCompile(`(?i)\.(jpg|jpeg|png|webp)\s+\d`)
	rExtOne  = regexp.MustCompile(`(?i)^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
)

func lazyImages(root *N) {
	for _, e := range root.allByTag("img", "picture", "figure") {
		if src := e.attr("src"); src != "" {
			if m := rB64.FindStringSubmatch(src); m != nil {
				if m[1] == "image/svg+xml" {
					continue
				}
				other := false
				for _, a := range e.At {
					other = other || a.K != "src" && rImgExt.MatchString(a.V)
				}
				if other && chars(src)-(rB64Mark.FindStringIndex(src)[0]+7) < 133 {
					e.unset("src")
				}
			}
		}
		if (e.attr("src") != "" || e.attr("srcset") != "" && e.attr("srcset") != "null") && !strings.Contains(strings.ToLower(e.attr("class")), "lazy") {
			continue
		}
		for _, a := range append([]A{}, e.At...) {
			if a.K == "src" || a.K == "srcset" || a.K == "alt" {
				continue
			}
			to := ""
			if rExtNum.MatchString(a.V) {
				to = "srcset"
			} else if rExtOne.MatchString(a.V) {
				to = "src"
			}
			if to == "" {
				continue
			}
			if e.is("img", "picture") {
				e.set(to, a.V)
			} else if len(e.all("img", "picture")) == 0 {
				img := el("img").with(to, a.V)
				e.push(img)
			}
		}
	}
}

// allByTag lists the elements below n tag by tag.
func (n *N) allByTag(tags ...string) []*N {
	var out []*N
	for _, t := range tags {
		out = append(out, n.all(t)...)
	}
	return out
}

// removeIf looks at the nodes from the last to the first.
func removeIf(list []*N, f func(*N) bool) {
	for i := len(list) - 1; i >= 0; i-- {
		if list[i].up != nil && f(list[i]) {
			list[i].detach()
		}
	}
}

func (r *refRun) videoIn(e *N) bool {
	if r.o.Video == nil {
		return false
	}
	for _, a := range e.At {
		if r.o.Video.MatchString(a.V) {
			return true
		}
	}
	if e.Tag == "object" {
		var b strings.Builder
		for _, k := range e.Kids {
			k.render(&b)
		}
		return r.o.Video.MatchString(b.String())
	}
	return false
}

func (r *refRun) removeAll(art *N, tag string) {
	embed := tag == "object" || tag == "embed" || tag == "iframe"
	removeIf(art.all(tag), func(e *N) bool { return !(embed && r.videoIn(e)) })
}

func (n *N) shareOf(tags ...string) float64 {
	total := n.innerLen()
	if total == 0 {
		return 0
	}
	sum := 0
	for _, k := range n.all(tags...) {
		sum += k.innerLen()
	}
	return float64(sum) / float64(total)
}

func (r *refRun) cleanIfFishy(art *N, tag string) {
	if !r.clean {
		return
	}
	isData := func(t *N) bool { return r.data[t] }
	removeIf(art.all(tag), func(n *N) bool {
		list := tag == "ul" || n.shareOf("ul", "ol") > 0.9
		if tag == "table" && isData(n) || n.hasAncestor("table", 0, isData) || n.hasAncestor("code", 4, nil) {
			return false
		}
		w := r.weight(n)
		if w < 0 {
			r.probe("fishy:weight")
			return true
		}
		t := n.inner()
		if strings.Count(t, ",") >= 10 {
			return false
		}
		p, img, li, input := len(n.all("p")), len(n.all("img")), len(n.all("li"))-100, len(n.all("input"))
		embeds := 0
		for _, e := range n.allByTag("object", "embed", "iframe") {
			if r.videoIn(e) {
				return false
			}
			embeds++
		}
		ld := n.linkDensity()
		cl := chars(t)
		inFigure := n.hasAncestor("figure", 4, nil)
		if near(ld, 0.2) || near(ld, 0.5) {
			r.uncertain = "near link density"
		}
		bad := false
		flag := func(c bool, why string) {
			if c {
				bad = true
				r.probe("fishy:" + why)
			}
		}
		flag(img > 1 && float64(p)/float64(img) < 0.5 && !inFigure, "images")
		flag(!list && li > p, "items")
		flag(input > p/3, "inputs")
		flag(!list && n.shareOf(tHeadings...) < 0.9 && cl < 25 && (img == 0 || img > 2) && !inFigure, "short")
		flag(!list && w < 25 && ld > 0.2, "links")
		flag(w >= 25 && ld > 0.5, "many links")
		flag(embeds == 1 && cl < 75 || embeds > 1, "embeds")
		if list && bad {
			for _, k := range n.elems() {
				if len(k.elems()) > 1 {
					return bad
				}
			}
			if img == len(n.all("li")) {
				r.probe("fishy:image list kept")
				return false
			}
		}
		return bad
	})
}

func (r *refRun) prepare(art *N) {
	stripPresentation(art)
	r.data = map[*N]bool{}
	for _, t := range art.all("table") {
		r.data[t] = dataTable(t)
	}
	lazyImages(art)
	r.cleanIfFishy(art, "form")
	r.cleanIfFishy(art, "fieldset")
	for _, t := range []string{"object", "embed", "footer", "link", "aside"} {
		r.removeAll(art, t)
	}
	for _, top := range art.elems() {
		end := top.following(true)
		for m := top.following(false); m != nil && m != end; {
			if rShare.MatchString(m.attr("class")+" "+m.attr("id")) && chars(m.text()) < 500 {
				f := m.following(true)
				m.detach()
				m = f
				r.probe("share")
			} else {
				m = m.following(false)
			}
		}
	}
	for _, t := range []string{"iframe", "input", "textarea", "select", "button"} {
		r.removeAll(art, t)
	}
	removeIf(art.allByTag("h1", "h2"), func(h *N) bool { return r.weight(h) < 0 })
	r.cleanIfFishy(art, "table")
	r.cleanIfFishy(art, "ul")
	r.cleanIfFishy(art, "div")
	for _, h := range art.all("h1") {
		h.Tag = "h2"
	}
	removeIf(art.all("p"), func(p *N) bool {
		return len(p.all("img", "embed", "object", "iframe")) == 0 && p.blank()
	})
	for _, br := range art.all("br") {
		if m := skipBlank(br.next()); m != nil && m.Tag == "p" {
			br.detach()
		}
	}
	for _, t := range art.all("table") {
		body := t
		if b := t.onlyChild("tbody"); b != nil {
			body = b
		}
		row := body.onlyChild("tr")
		if row == nil {
			continue
		}
		cell := row.onlyChild("td")
		if cell == nil {
			continue
		}
		cell.Tag = "p"
		for _, k := range cell.Kids {
			if !phrasing(k) {
				cell.Tag = "div"
			}
		}
		t.swap(cell)
		r.probe("single cell")
	}
}

// ---------------------------------------------------------------- passes

// grab returns the article of the page, nil when there is no text in it.
func (r *refRun) grab() *N {
	cache := r.body.merged().Kids
	r.strip, r.weigh, r.clean = true, true, true
	bodyScore, bodyScored := 0.0, false
	var best *N
	bestLen := -1
	for {
		r.passes++
		r.score = map[*N]float64{}
		if bodyScored {
			r.score[r.body] = bodyScore
		}
		scored := r.walkPage()
		cands := r.candidates(scored)
		top, created := r.pickTop(cands)
		bodyScore, bodyScored = r.score[r.body]
		parent := top.up
		art := r.gather(top)
		r.prepare(art)
		if created {
			top.set("id", "readability-page-1")
			top.set("class", "page")
		} else {
			page := el("div").with("id", "readability-page-1").with("class", "page")
			for len(art.Kids) > 0 {
				page.push(art.Kids[0])
			}
			art.push(page)
		}
		n := art.innerLen()
		r.lengths = append(r.lengths, n)
		if n >= r.o.Threshold {
			r.dirKnown = true
			for _, a := range append([]*N{parent, top}, parent.ancestors()...) {
				if d := a.attr("dir"); d != "" {
					r.dir = d
					break
				}
			}
			return art
		}
		if n > bestLen {
			best, bestLen = art, n
		}
		r.body.Kids = nil
		for _, k := range cache {
			r.body.Kids = append(r.body.Kids, k.clone())
		}
		r.body.link()
		switch {
		case r.strip:
			r.strip = false
		case r.weigh:
			r.weigh = false
		case r.clean:
			r.clean = false
		default:
			if bestLen == 0 {
				return nil
			}
			return best
		}
	}
}

// ---------------------------------------------------------------- afterwards

func (r *refRun) neutralise(art *N) {
	for _, a := range art.all("a") {
		h := a.attr("href")
		if h == "" {
			continue
		}
		if jsURI(h) {
			if len(a.Kids) == 1 && a.Kids[0].isText() {
				a.swap(a.Kids[0])
				continue
			}
			s := el("span")
			for len(a.Kids) > 0 {
				s.push(a.Kids[0])
			}
			a.swap(s)
		}
	}
}

// jsURI: a browser skips blanks and control characters before a scheme and ignores
// tabs and line ends everywhere.
func jsURI(h string) bool {
	h = strings.TrimLeftFunc(h, func(c rune) bool { return c <= 0x20 })
	var b strings.Builder
	for _, c := range h {
		if c != '\t' && c != '\n' && c != '\r' {
			b.WriteRune(c)
		}
	}
	return strings.HasPrefix(strings.ToLower(b.String()), "javascript:")
}

func simplify(art *N) {
	for n := art; n != nil; {
		if n.up != nil && n.is("div", "section") && !strings.HasPrefix(n.attr("id"), "readability") {
			if n.contentless() {
				f := n.following(true)
				n.detach()
				n = f
				continue
			}
			c := n.onlyChild("div")
			if c == nil {
				c = n.onlyChild("section")
			}
			if c != nil {
				for _, a := range n.At {
					c.set(a.K, a.V)
				}
				n.swap(c)
				n = c
				continue
			}
		}
		n = n.following(false)
	}
}

func (r *refRun) filterClasses(n *N) {
	if n.isText() {
		return
	}
	var keep []string
	for _, c := range strings.FieldsFunc(n.attr("class"), isSpaceASCII) {
		if c == "page" || oneOf(c, r.o.Classes) {
			keep = append(keep, c)
		}
	}
	if len(keep) > 0 {
		n.set("class", strings.Join(keep, " "))
	} else {
		n.unset("class")
	}
	for _, k := range n.Kids {
		r.filterClasses(k)
	}
}

// refArticle runs the whole model on a page whose metadata give the title.
func refArticle(page *N, title string, o refOpts, fixURIs func(*N)) (*refRun, *N) {
	r := &refRun{o: o, title: title}
	root := page.parsed()
	doc := &N{Tag: "#document", Kids: []*N{root}}
	doc.link()
	root.up = nil
	if root.Tag == "html" {
		r.html = root
	}
	root.walk(func(m *N) bool {
		if m.Tag == "body" {
			r.body = m
		}
		return true
	})
	box := &N{Tag: "#box", Kids: []*N{root}}
	root.up = box
	unwrapImages(box)
	removeIf(box.all("script", "noscript"), func(*N) bool { return true })
	removeIf(box.all("style"), func(*N) bool { return true })
	root.up = nil
	breaksToParagraphs(r.body)
	for _, f := range root.all("font") {
		f.Tag = "span"
	}
	art := r.grab()
	if art == nil {
		return r, nil
	}
	art.up = nil
	r.neutralise(art)
	if fixURIs != nil {
		fixURIs(art)
	}
	simplify(art)
	if !o.Keep {
		r.filterClasses(art)
	}
	return r, art
}
