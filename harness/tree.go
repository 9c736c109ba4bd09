package main

import (
	"context"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

type ctxT = context.Context

// N is a node of a page: an element, or a text when Tag is empty.
// It is both what the generators build and what the strict reader returns.
type N struct {
	Tag  string `json:"t,omitempty"`
	At   []A    `json:"a,omitempty"`
	Text string `json:"x,omitempty"` // the characters a reader sees
	Enc  int    `json:"e,omitempty"` // how Text is spelled in the source
	Kids []*N   `json:"k,omitempty"`

	up *N
}

// A is an attribute.
type A struct {
	K string `json:"k"`
	V string `json:"v"`
}

// Spellings of a text.
const (
	encMinimal = iota // &amp; &lt; &gt; only
	encDecimal        // &#38; for everything that is not a letter, digit or space
	encHex
	encCDATA
	encComment // minimal, with a comment in the middle
	encNamed   // also &quot; and &apos;
	numEnc
)

func el(tag string, kids ...*N) *N { return &N{Tag: tag, Kids: kids} }
func tx(s string) *N               { return &N{Text: s} }
func (n *N) with(k, v string) *N   { n.set(k, v); return n }
func (n *N) add(kids ...*N) *N     { n.Kids = append(n.Kids, kids...); return n }
func (n *N) isText() bool          { return n.Tag == "" }
func (n *N) attr(k string) string  { v, _ := n.lookup(k); return v }
func (n *N) has(k string) bool     { _, ok := n.lookup(k); return ok }
func (n *N) lookup(k string) (string, bool) {
	for _, a := range n.At {
		if a.K == k {
			return a.V, true
		}
	}
	return "", false
}
func (n *N) set(k, v string) {
	for i := range n.At {
		if n.At[i].K == k {
			n.At[i].V = v
			return
		}
	}
	n.At = append(n.At, A{k, v})
}
func (n *N) unset(k string) {
	for i := range n.At {
		if n.At[i].K == k {
			n.At = append(append([]A{}, n.At[:i]...), n.At[i+1:]...)
			return
		}
	}
}

var voidTags = map[string]bool{"area": true, "base": true, "br": true, "col": true, "command": true, "embed": true, "hr": true, "img": true, "input": true, "link": true, "meta": true, "param": true, "source": true, "wbr": true}

var escText = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;")
var escAttr = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;", "\r", "&#13;")
var escNamed = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;", "'", "&apos;")

// render writes a well-formed XHTML serialisation.
func (n *N) render(b *strings.Builder) {
	if n.isText() {
		renderText(b, n.Text, n.Enc)
		return
	}
	b.WriteByte('<')
	b.WriteString(n.Tag)
	for _, a := range n.At {
		b.WriteByte(' ')
		b.WriteString(a.K)
		b.WriteString(`="`)
		b.WriteString(escAttr.Replace(a.V))
		b.WriteByte('"')
	}
	if voidTags[n.Tag] && len(n.Kids) == 0 {
		b.WriteString("/>")
		return
	}
	b.WriteByte('>')
	for _, k := range n.Kids {
		k.render(b)
	}
	b.WriteString("</")
	b.WriteString(n.Tag)
	b.WriteByte('>')
}

func renderText(b *strings.Builder, s string, enc int) {
	switch enc {
	case encDecimal, encHex:
		for _, c := range s {
			if c == ' ' || c == '\n' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
				b.WriteRune(c)
			} else if enc == encDecimal {
				fmt.Fprintf(b, "&#%d;", c)
			} else {
				fmt.Fprintf(b, "&#x%x;", c)
			}
		}
	case encCDATA:
		if s == "" || strings.Contains(s, "]]>") {
			b.WriteString(escText.Replace(s))
			return
		}
		b.WriteString("<![CDATA[" + s + "]]>")
	case encComment:
		i := len(s) / 2
		for i < len(s) && !utf8.RuneStart(s[i]) {
			i++
		}
		b.WriteString(escText.Replace(s[:i]))
		b.WriteString("<!-- not text -->")
		b.WriteString(escText.Replace(s[i:]))
	case encNamed:
		b.WriteString(escNamed.Replace(s))
	default:
		b.WriteString(escText.Replace(s))
	}
}

func (n *N) String() string {
	var b strings.Builder
	n.render(&b)
	return b.String()
}

// text is the concatenation of all the texts below n.
func (n *N) text() string {
	if n.isText() {
		return n.Text
	}
	var b strings.Builder
	n.walk(func(m *N) bool {
		if m.isText() {
			b.WriteString(m.Text)
		}
		return true
	})
	return b.String()
}

// walk visits n and everything below in document order; f returns false to skip what is below.
func (n *N) walk(f func(*N) bool) {
	if !f(n) {
		return
	}
	for _, k := range n.Kids {
		k.walk(f)
	}
}

func (n *N) all(tags ...string) []*N {
	var out []*N
	n.walk(func(m *N) bool {
		if m != n && !m.isText() {
			for _, t := range tags {
				if m.Tag == t || t == "*" {
					out = append(out, m)
					break
				}
			}
		}
		return true
	})
	return out
}

func (n *N) link() *N {
	for _, k := range n.Kids {
		k.up = n
		k.link()
	}
	return n
}

func (n *N) clone() *N {
	c := &N{Tag: n.Tag, Text: n.Text, Enc: n.Enc}
	c.At = append(c.At, n.At...)
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return c
}

// merged is a copy of n where adjacent texts are one and empty ones are gone.
func (n *N) merged() *N {
	c := &N{Tag: n.Tag, Text: n.Text}
	c.At = append(c.At, n.At...)
	for _, k := range n.Kids {
		if k.isText() {
			if k.Text == "" {
				continue
			}
			if l := len(c.Kids); l > 0 && c.Kids[l-1].isText() {
				c.Kids[l-1].Text += k.Text
				continue
			}
		}
		c.Kids = append(c.Kids, k.merged())
	}
	return c
}

// sameTree compares two merged trees, attributes in order.
func sameTree(a, b *N) error {
	if a.Tag != b.Tag || a.Text != b.Text {
		return fmt.Errorf("node %s vs %s", brief(a), brief(b))
	}
	if len(a.At) != len(b.At) {
		return fmt.Errorf("attributes of %s vs %s", brief(a), brief(b))
	}
	for i := range a.At {
		if a.At[i] != b.At[i] {
			return fmt.Errorf("attributes of %s vs %s", brief(a), brief(b))
		}
	}
	for i := 0; i < len(a.Kids) && i < len(b.Kids); i++ {
		if err := sameTree(a.Kids[i], b.Kids[i]); err != nil {
			return fmt.Errorf("%s > %w", a.Tag, err)
		}
	}
	if len(a.Kids) != len(b.Kids) {
		return fmt.Errorf("%d vs %d children of %s and %s", len(a.Kids), len(b.Kids), brief(a), brief(b))
	}
	return nil
}

func brief(n *N) string { return clip(n.String(), 300) }

// ---------------------------------------------------------------- strict reader

// parseX reads a well-formed fragment, as the serializer is supposed to emit, into
// a node with tag "#root".  It decodes the five XML entities and numeric references.
// Everything that is not well-formed is an error.
func parseX(s string) (*N, error) {
	root := &N{Tag: "#root"}
	cur := root
	var stack []*N
	i := 0
	for i < len(s) {
		if s[i] != '<' {
			j := strings.IndexByte(s[i:], '<')
			if j < 0 {
				j = len(s)
			} else {
				j += i
			}
			raw := s[i:j]
			if k := strings.IndexByte(raw, '>'); k >= 0 {
				return nil, fmt.Errorf("raw > in text %q", clip(raw, 200))
			}
			cur.Kids = append(cur.Kids, &N{Text: decodeX(raw)})
			i = j
			continue
		}
		if strings.HasPrefix(s[i:], "</") {
			j := strings.IndexByte(s[i:], '>')
			if j < 0 {
				return nil, fmt.Errorf("unterminated end tag at %q", clip(s[i:], 100))
			}
			name := s[i+2 : i+j]
			if len(stack) == 0 || cur.Tag != name {
				return nil, fmt.Errorf("end tag %q does not close %q", name, cur.Tag)
			}
			cur = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			i += j + 1
			continue
		}
		i++
		st := i
		for i < len(s) && s[i] != ' ' && s[i] != '>' && s[i] != '/' && s[i] != '<' {
			i++
		}
		n := &N{Tag: s[st:i]}
		if n.Tag == "" || n.Tag != strings.ToLower(n.Tag) {
			return nil, fmt.Errorf("bad tag name %q at %q", n.Tag, clip(s[st-1:], 100))
		}
		for i < len(s) && s[i] == ' ' {
			i++
			st = i
			for i < len(s) && s[i] != '=' && s[i] != ' ' && s[i] != '>' && s[i] != '<' {
				i++
			}
			if i+1 >= len(s) || s[i] != '=' {
				return nil, fmt.Errorf("attribute without value at %q", clip(s[st:], 100))
			}
			k := s[st:i]
			q := s[i+1]
			if q != '"' && q != '\'' {
				return nil, fmt.Errorf("unquoted attribute at %q", clip(s[st:], 100))
			}
			i += 2
			j := strings.IndexByte(s[i:], q)
			if j < 0 {
				return nil, fmt.Errorf("unterminated attribute at %q", clip(s[st:], 100))
			}
			raw := s[i : i+j]
			if strings.ContainsAny(raw, "<>") {
				return nil, fmt.Errorf("raw < or > in attribute %q", clip(raw, 200))
			}
			if n.has(k) {
				return nil, fmt.Errorf("duplicate attribute %q", k)
			}
			n.At = append(n.At, A{k, decodeX(raw)})
			i += j + 1
		}
		cur.Kids = append(cur.Kids, n)
		if strings.HasPrefix(s[i:], "/>") {
			if !voidTags[n.Tag] {
				return nil, fmt.Errorf("self-closed %s", n.Tag)
			}
			i += 2
			continue
		}
		if i >= len(s) || s[i] != '>' {
			return nil, fmt.Errorf("unterminated tag at %q", clip(s[st:], 100))
		}
		i++
		stack = append(stack, cur)
		cur = n
	}
	if len(stack) > 0 {
		return nil, fmt.Errorf("%s not closed", cur.Tag)
	}
	return root.link(), nil
}

// decodeX resolves character references in one pass.
func decodeX(s string) string {
	if strings.IndexByte(s, '&') < 0 {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '&' {
			if j := strings.IndexByte(s[i:], ';'); j > 1 && j <= 10 {
				if r, ok := charRef(s[i+1 : i+j]); ok {
					b.WriteString(r)
					i += j + 1
					continue
				}
			}
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

func charRef(s string) (string, bool) {
	switch s {
	case "amp":
		return "&", true
	case "lt":
		return "<", true
	case "gt":
		return ">", true
	case "quot":
		return `"`, true
	case "apos":
		return "'", true
	}
	if len(s) < 2 || s[0] != '#' {
		return "", false
	}
	var n uint64
	var err error
	if s[1] == 'x' || s[1] == 'X' {
		if len(s) > 8 {
			return "", false
		}
		n, err = strconv.ParseUint(s[2:], 16, 32)
	} else {
		if len(s) > 8 {
			return "", false
		}
		n, err = strconv.ParseUint(s[1:], 10, 32)
	}
	if err != nil {
		return "", false
	}
	return string(rune(n)), true
}

// ---------------------------------------------------------------- smaller trees

// smaller lists what can be taken away from a tree.
func (n *N) smaller() []func() *N {
	var out []func() *N
	// a change at the i-th node of a copy
	at := func(i int, f func(*N)) func() *N {
		return func() *N {
			c := n.clone().link()
			j := 0
			c.walk(func(m *N) bool {
				if j == i {
					f(m)
				}
				j++
				return j <= i
			})
			return c
		}
	}
	var list []*N
	n.walk(func(m *N) bool { list = append(list, m); return true })
	for i, m := range list {
		if m == n || m.is("head", "body") {
			continue
		}
		out = append(out, at(i, func(m *N) { m.detach() }))
	}
	for i, m := range list {
		if m == n || m.is("head", "body") {
			continue
		}
		if len(m.Kids) > 0 {
			out = append(out, at(i, func(m *N) {
				j := m.index()
				kids := append([]*N{}, m.up.Kids[:j]...)
				kids = append(append(kids, m.Kids...), m.up.Kids[j+1:]...)
				m.up.Kids = kids
			}))
		}
	}
	for i, m := range list {
		for j := range m.At {
			out = append(out, at(i, func(m *N) { m.At = append(append([]A{}, m.At[:j]...), m.At[j+1:]...) }))
		}
		if m.Enc != 0 {
			out = append(out, at(i, func(m *N) { m.Enc = 0 }))
		}
		if r := []rune(m.Text); len(r) > 4 {
			out = append(out, at(i, func(m *N) { m.Text = string(r[:len(r)/2]) }))
			out = append(out, at(i, func(m *N) { m.Text = string(r[:len(r)-3]) }))
		}
	}
	return out
}
