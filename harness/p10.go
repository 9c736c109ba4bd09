package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
	"pgregory.net/rapid"
)

// C10: the tree given to a serializer behaves like a DOM under any sequence of changes.

type domOp struct {
	K    string
	A, B int    `json:",omitempty"`
	S    string `json:",omitempty"`
	F    []*N   `json:",omitempty"`
}

type domCase struct {
	Page *N
	Ops  []domOp
}

func init() {
	register(&Prop{
		ID: "C10",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &domCase{}
			if g.n(3) == 0 {
				c.Page = g.page(pick(g, 15, 30))
			} else {
				c.Page = g.solidPage(func(int) []*N {
					if g.bool() {
						return []*N{g.fragment(2)}
					}
					return nil
				}).page
			}
			ops := []string{"append", "append", "append", "remove", "remove", "replace", "replace", "replace", "html", "html", "text", "attr", "attr", "unattr", "class", "id", "byid"}
			g.words += 1000
			if g.n(4) == 0 {
				c.Ops = append(c.Ops, domOp{K: "html", F: g.fragments(3, 2)}) // the article itself
			}
			for i := g.between(1, 24); i > 0; i-- {
				op := domOp{K: from(g, ops), A: g.n(64), B: g.n(64)}
				switch op.K {
				case "html":
					op.F = g.fragments(3, 2)
				case "text":
					op.S = pick(g, "", "plain "+g.word(), `a < b & c > "d" 'e' `+g.word(), "&amp; &#65; &lt;b&gt;", "é日本 "+g.word())
				case "attr":
					op.S = pick(g, "", "v", `q"uo'te & <b>`, "&amp;", "a b", "é")
				case "class":
					op.S = pick(g, "", "x y", "page", `a"b`)
				case "id", "byid":
					op.S = pick(g, "i1", "i2", "i3", "readability-page-1")
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		New:   func() Case { return &domCase{} },
		Check: checkC10,
		Shrink: func(cc Case) []func() Case {
			c := cc.(*domCase)
			var out []func() Case
			for i := range c.Ops {
				out = append(out, func() Case {
					return &domCase{Page: c.Page, Ops: append(append([]domOp{}, c.Ops[:i]...), c.Ops[i+1:]...)}
				})
			}
			for _, f := range c.Page.smaller() {
				out = append(out, func() Case { return &domCase{Page: f(), Ops: c.Ops} })
			}
			return out
		},
		Quick: 60000, Thorough: 1000000,
		Rule:   "histories of up to 25 operations (append, remove, replace, inner HTML, text, attributes, class, id, look-up; nodes from anywhere in the article, detached ones, brothers, children of the node that is replaced, nodes that are not children) on the tree of an extracted article. After every operation every node ever seen must have the children, element children, parent, brothers, element brothers, attributes, text and markup of a naive model. Non-trivial: six or more operations that changed something, of three or more kinds.",
		Assume: []string{"a node is never put inside itself", "for nodes that are not elements the element brothers are not looked at"},
	})
}

func (g *G) fragments(k, depth int) []*N {
	var out []*N
	for i := g.n(k + 1); i > 0; i-- {
		f := g.fragment(depth)
		if l := len(out); l > 0 && out[l-1].isText() && f.isText() {
			continue
		}
		out = append(out, f)
	}
	return out
}

// fragment is any well-formed content.
func (g *G) fragment(depth int) *N {
	if depth <= 0 || g.n(4) == 0 {
		return pick(g, tx(g.word()), tx(" "+g.word()+" & <x> "), el("br"), el("img").with("src", "http://h.example/1.jpg"), el("b", tx(g.word())), tx("\n"))
	}
	e := el(pick(g, "div", "p", "span", "ul", "b", "section", "custom-el", "em"))
	if g.n(4) == 0 {
		e.with("id", pick(g, "i1", "i2", "i3"))
	}
	if g.n(4) == 0 {
		e.with(pick(g, "class", "title", "data-x"), pick(g, "x y", `"q" & '`, ""))
	}
	return e.add(g.fragments(3, depth-1)...)
}

type mnode struct {
	n    *readability.Node
	tag  string // "" for texts
	at   []A
	text string
	kids []*mnode
	up   *mnode
}

func (m *mnode) inside(o *mnode) bool {
	for ; m != nil; m = m.up {
		if m == o {
			return true
		}
	}
	return false
}

func (m *mnode) detach() {
	if m.up == nil {
		return
	}
	for i, k := range m.up.kids {
		if k == m {
			m.up.kids = append(append([]*mnode{}, m.up.kids[:i]...), m.up.kids[i+1:]...)
			break
		}
	}
	m.up = nil
}

func (m *mnode) tree() *N {
	if m.tag == "" {
		return tx(m.text)
	}
	e := el(m.tag)
	e.At = append(e.At, m.at...)
	for _, k := range m.kids {
		e.add(k.tree())
	}
	return e
}

func (m *mnode) content() string {
	if m.tag == "" {
		return m.text
	}
	var b strings.Builder
	for _, k := range m.kids {
		b.WriteString(k.content())
	}
	return b.String()
}

// mirror reads what the library has into a model; the links are verified separately.
func mirror(n *readability.Node, pool *[]*mnode) *mnode {
	m := &mnode{n: n}
	*pool = append(*pool, m)
	if n.NodeType != 1 {
		m.text = n.GetTextContent()
		return m
	}
	m.tag = n.LocalName
	for _, k := range n.ChildNodes {
		c := mirror(k, pool)
		c.up = m
		m.kids = append(m.kids, c)
	}
	return m
}

// adopt gives a model to the nodes the library made for a fragment.
func adopt(n *readability.Node, f *N, pool *[]*mnode) (*mnode, error) {
	m := &mnode{n: n, tag: f.Tag, text: f.Text}
	m.at = append(m.at, f.At...)
	*pool = append(*pool, m)
	if (n.NodeType == 1) != (f.Tag != "") {
		return nil, fmt.Errorf("kind of %s", brief(f))
	}
	if len(n.ChildNodes) != len(f.Kids) {
		return nil, fmt.Errorf("%d children of %s", len(n.ChildNodes), brief(f))
	}
	for i, k := range f.Kids {
		c, err := adopt(n.ChildNodes[i], k, pool)
		if err != nil {
			return nil, err
		}
		c.up = m
		m.kids = append(m.kids, c)
	}
	return m, nil
}

// linked verifies everything that can be seen of a node.
func linked(m *mnode) error {
	n := m.n
	if m.up == nil {
		if n.ParentNode != nil || n.NextSibling != nil || n.PreviousSibling != nil || n.NextElementSibling != nil || n.PreviousElementSibling != nil {
			return fmt.Errorf("detached %s has a parent or brothers", brief(m.tree()))
		}
	} else if n.ParentNode != m.up.n {
		return fmt.Errorf("parent of %s", brief(m.tree()))
	}
	if m.tag == "" {
		if n.NodeType != 3 || len(n.ChildNodes) != 0 || len(n.Children) != 0 {
			return fmt.Errorf("a text with children or of another type")
		}
		return nil
	}
	if n.NodeType != 1 || n.LocalName != m.tag || n.TagName != strings.ToUpper(m.tag) || n.GetNodeName() != strings.ToUpper(m.tag) {
		return fmt.Errorf("name or type of %s", brief(m.tree()))
	}
	if len(n.ChildNodes) != len(m.kids) {
		return fmt.Errorf("%d children, expected %d, of %s", len(n.ChildNodes), len(m.kids), brief(m.tree()))
	}
	var els []*readability.Node
	for i, k := range m.kids {
		if n.ChildNodes[i] != k.n {
			return fmt.Errorf("child %d of %s is another node", i, brief(m.tree()))
		}
		var prev, next *readability.Node
		if i > 0 {
			prev = m.kids[i-1].n
		}
		if i+1 < len(m.kids) {
			next = m.kids[i+1].n
		}
		if k.n.PreviousSibling != prev || k.n.NextSibling != next {
			return fmt.Errorf("brothers of child %d of %s", i, brief(m.tree()))
		}
		if k.tag != "" {
			els = append(els, k.n)
		}
	}
	if len(els) != len(n.Children) {
		return fmt.Errorf("%d element children, expected %d, of %s", len(n.Children), len(els), brief(m.tree()))
	}
	for i, k := range els {
		var prev, next *readability.Node
		if i > 0 {
			prev = els[i-1]
		}
		if i+1 < len(els) {
			next = els[i+1]
		}
		if n.Children[i] != k {
			return fmt.Errorf("element child %d of %s is another node", i, brief(m.tree()))
		}
		if k.PreviousElementSibling != prev || k.NextElementSibling != next {
			return fmt.Errorf("element brothers of element child %d of %s", i, brief(m.tree()))
		}
	}
	var first, last, firstEl *readability.Node
	if l := len(m.kids); l > 0 {
		first, last = m.kids[0].n, m.kids[l-1].n
	}
	if len(els) > 0 {
		firstEl = els[0]
	}
	if n.FirstChild() != first || n.LastChild() != last || n.FirstElementChild() != firstEl {
		return fmt.Errorf("first or last child of %s", brief(m.tree()))
	}
	return nil
}

func content(m *mnode) error {
	if got := m.n.GetTextContent(); got != m.content() {
		return fmt.Errorf("text %q, expected %q", clip(got, 300), clip(m.content(), 300))
	}
	x, err := parseX(m.n.GetInnerHTML())
	if err != nil {
		return fmt.Errorf("markup: %v", err)
	}
	want := el("#root", m.tree().Kids...)
	if m.tag == "" {
		want.Kids = []*N{tx(m.text)}
	}
	if err := sameTree(want.merged(), x.merged()); err != nil {
		return fmt.Errorf("markup: %v", err)
	}
	if m.tag == "" {
		return nil
	}
	if m.n.GetAttributeLen() != len(m.at) {
		return fmt.Errorf("%d attributes of %s", m.n.GetAttributeLen(), brief(m.tree()))
	}
	for _, a := range m.at {
		if m.n.GetAttribute(a.K) != a.V || !m.n.HasAttribute(a.K) {
			return fmt.Errorf("attribute %s of %s is %q", a.K, brief(m.tree()), m.n.GetAttribute(a.K))
		}
	}
	get := func(k string) string { v, _ := (&N{At: m.at}).lookup(k); return v }
	if m.n.GetId() != get("id") || m.n.GetClassName() != get("class") || m.n.GetSrc() != get("src") || m.n.GetSrcset() != get("srcset") {
		return fmt.Errorf("id, class or source of %s", brief(m.tree()))
	}
	return nil
}

func checkC10(cc Case, o *Obs) error {
	c := cc.(*domCase)
	var failed error
	called := false
	kinds := map[string]bool{}
	changed := 0
	_, err := parsePage(c.Page.String(), docURI, Opt{Thr: ptr(1)}, readability.Serializer(func(root *readability.Node) string {
		if !called {
			called = true
			failed = c.history(root, kinds, &changed, o)
		}
		return "<div>x</div>"
	}))
	if !called || err != nil {
		o.Class("no article")
	}
	if changed >= 6 && len(kinds) >= 3 {
		o.NonTrivial()
	}
	return failed
}

func (c *domCase) history(root *readability.Node, kinds map[string]bool, changed *int, o *Obs) error {
	var pool []*mnode
	top := mirror(root, &pool)
	// Attributes can only be read one by one; take them from the markup and verify them.
	x, err := parseX(root.GetInnerHTML())
	if err != nil {
		return fmt.Errorf("the article: %v", err)
	}
	var fill func(m *mnode, n *N) error
	fill = func(m *mnode, n *N) error {
		m.at = append(m.at, n.At...)
		i := 0
		for _, k := range m.kids {
			if k.tag == "" {
				continue
			}
			for i < len(n.Kids) && n.Kids[i].isText() {
				i++
			}
			if i == len(n.Kids) {
				return fmt.Errorf("the article: markup and tree differ at %s", brief(n))
			}
			if err := fill(k, n.Kids[i]); err != nil {
				return err
			}
			i++
		}
		return nil
	}
	if err := fill(top, x); err != nil {
		return err
	}
	for _, k := range []string{"id", "class", "dir", "lang"} {
		if root.HasAttribute(k) {
			top.at = append(top.at, A{k, root.GetAttribute(k)})
		}
	}
	if root.ParentNode != nil {
		return fmt.Errorf("the article is inside of %s", root.ParentNode.LocalName)
	}
	verify := func(what string) error {
		for _, m := range pool {
			if err := linked(m); err != nil {
				return fmt.Errorf("after %s: %w", what, err)
			}
		}
		for _, m := range pool {
			if m.up == nil {
				if err := deepContent(m); err != nil {
					return fmt.Errorf("after %s: %w", what, err)
				}
			}
		}
		return nil
	}
	if err := verify("the extraction"); err != nil {
		return err
	}
	elements := func() []*mnode {
		var l []*mnode
		for _, m := range pool {
			if m.tag != "" {
				l = append(l, m)
			}
		}
		return l
	}
	for step, op := range c.Ops {
		what := fmt.Sprintf("operation %d (%s)", step+1, op.K)
		els := elements()
		e := els[op.A%len(els)]
		did := true
		switch op.K {
		case "append":
			m := pool[op.B%len(pool)]
			if m == top || e.inside(m) {
				did = false
				break
			}
			e.n.AppendChild(m.n)
			m.detach()
			m.up = e
			e.kids = append(e.kids, m)
		case "remove":
			m := pool[op.A%len(pool)]
			p := m.up
			if p == nil || op.B%6 == 0 {
				p = els[op.B%len(els)]
			}
			got, err := p.n.RemoveChild(m.n)
			if p == m.up {
				if err != nil || got != m.n {
					return fmt.Errorf("%s: removing a child gives %v and %v", what, got == m.n, err)
				}
				m.detach()
			} else {
				did = false
				if err == nil {
					return fmt.Errorf("%s: removing what is not a child is no error", what)
				}
			}
		case "replace":
			old, m := pool[op.A%len(pool)], pool[op.B%len(pool)]
			p := old.up
			if p == nil || m == top || p.inside(m) {
				// not a child: whatever happens, nothing must change
				did = false
				q := els[op.B%len(els)]
				if old.up != q && m != top && !q.inside(m) {
					func() {
						defer func() { recover() }()
						q.n.ReplaceChild(m.n, old.n)
					}()
				}
				break
			}
			if got := p.n.ReplaceChild(m.n, old.n); got != old.n {
				return fmt.Errorf("%s: the replaced node is not returned", what)
			}
			if m != old {
				m.detach()
				i := 0
				for p.kids[i] != old {
					i++
				}
				p.kids[i] = m
				m.up, old.up = p, nil
			}
		case "html":
			if voidTags[e.tag] || e.tag == "" {
				did = false
				break
			}
			var b strings.Builder
			for _, f := range op.F {
				f.render(&b)
			}
			e.n.SetInnerHTML(b.String())
			for _, k := range append([]*mnode{}, e.kids...) {
				k.detach()
			}
			if len(e.n.ChildNodes) != len(op.F) {
				return fmt.Errorf("%s: %d children for %s", what, len(e.n.ChildNodes), b.String())
			}
			for i, f := range op.F {
				m, err := adopt(e.n.ChildNodes[i], f, &pool)
				if err != nil {
					return fmt.Errorf("%s: %w for %s", what, err, b.String())
				}
				m.up = e
				e.kids = append(e.kids, m)
			}
		case "text":
			m := pool[op.A%len(pool)]
			if m.tag == "" {
				if op.B%2 == 0 {
					m.n.SetInnerHTML(strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(op.S))
				} else {
					m.n.SetTextContent(op.S)
				}
				m.text = op.S
				break
			}
			m.n.SetTextContent(op.S)
			for _, k := range append([]*mnode{}, m.kids...) {
				k.detach()
			}
			switch len(m.n.ChildNodes) {
			case 0:
			case 1:
				k := &mnode{n: m.n.ChildNodes[0], text: op.S, up: m}
				m.kids = []*mnode{k}
				pool = append(pool, k)
			default:
				return fmt.Errorf("%s: %d children after the text was set", what, len(m.n.ChildNodes))
			}
		case "attr", "class", "id":
			k := []string{"title", "data-x", "href", "src", "srcset"}[op.B%5]
			switch op.K {
			case "attr":
				e.n.SetAttribute(k, op.S)
			case "class":
				k = "class"
				e.n.SetClassName(op.S)
			case "id":
				k = "id"
				e.n.SetId(op.S)
			}
			t := &N{At: e.at}
			t.set(k, op.S)
			e.at = t.At
		case "unattr":
			k := []string{"title", "data-x", "href", "class", "id", "src"}[op.B%6]
			e.n.RemoveAttribute(k)
			t := &N{At: e.at}
			t.unset(k)
			e.at = t.At
			if e.n.HasAttribute(k) || e.n.GetAttribute(k) != "" {
				return fmt.Errorf("%s: %s is still there", what, k)
			}
		case "byid":
			did = false
			var want *readability.Node
			var find func(m *mnode)
			find = func(m *mnode) {
				if want != nil || m.tag == "" {
					return
				}
				if v, ok := (&N{At: m.at}).lookup("id"); ok && v == op.S {
					want = m.n
					return
				}
				for _, k := range m.kids {
					find(k)
				}
			}
			find(e)
			if got := e.n.GetElementById(op.S); got != want {
				return fmt.Errorf("%s: another node than the first one with id %s", what, op.S)
			}
		}
		if did {
			kinds[op.K] = true
			*changed++
			o.Class(op.K)
		} else {
			o.Class(op.K + " (nothing to change)")
		}
		if err := verify(what); err != nil {
			return err
		}
	}
	return nil
}

func deepContent(m *mnode) error {
	if err := content(m); err != nil {
		return err
	}
	for _, k := range m.kids {
		if len(k.kids) > 0 || k.tag == "" {
			if k.n.GetTextContent() != k.content() {
				return fmt.Errorf("text of %s", brief(k.tree()))
			}
		}
		if k.tag != "" {
			if k.n.GetAttributeLen() != len(k.at) {
				return fmt.Errorf("%d attributes of %s", k.n.GetAttributeLen(), brief(k.tree()))
			}
			for _, a := range k.at {
				if k.n.GetAttribute(a.K) != a.V {
					return fmt.Errorf("attribute %s of %s", a.K, brief(k.tree()))
				}
			}
		}
	}
	return nil
}
