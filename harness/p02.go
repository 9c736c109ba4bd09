package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"syscall"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

// C02: a result depends on the arguments of the call alone.

type call struct {
	Src        int  // which source
	Opt        int  // which options; the same option values are used again and again
	Readerable bool `json:",omitempty"`
}

type historyCase struct {
	Kind    string
	Sources []Raw
	URIs    []string
	Opts    []Opt
	Calls   []call
	Order   []int // in which the readers of the interleaved phase are used
	Threads int   `json:",omitempty"`
	Early   bool  `json:",omitempty"` // the threads run before anything else in the process
	Fresh   []int // calls that are also made in a process of their own
}

func init() {
	register(&Prop{
		ID: "C02",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &historyCase{Kind: "repetition"}
			k := 1
			if g.n(12) == 0 {
				c.Kind, k = "history", g.between(2, 4)
			}
			for i := 0; i < k; i++ {
				var src string
				if i > 0 && g.n(3) > 0 { // much like another one
					src = g.variant(string(c.Sources[g.n(i)]))
				} else {
					src = g.anyArticle()
				}
				if c.Kind == "history" && len(src) > 20000 {
					src = src[:20000]
				}
				c.Sources = append(c.Sources, Raw(src))
				c.URIs = append(c.URIs, pick(g, docURI, docURI, "http://other.example/a/b/c?d", "https://h.example/", "http://h.example/dir/other.html", "http://h.example/dis/page.html"))
			}
			for i := 0; i < k; i++ {
				o := g.options()
				if g.n(3) == 0 {
					o.Classes = nil
					for j := g.between(1, 4); j > 0; j-- {
						o.Classes = append(o.Classes, pick(g, "c1", "wrap", "caption", "share", "content", "x", "row", "k9"))
					}
				}
				if g.n(6) == 0 {
					o.NoLD = true
				}
				if g.n(6) == 0 {
					o.MinLen = ptr(pick(g, 0, 10, 50))
				}
				if g.n(6) == 0 {
					o.MinSc = ptr(pick(g, 0.0, 1, 5))
				}
				if g.n(8) == 0 {
					o.Max = ptr(pick(g, 1, 10, 1000))
				}
				if g.n(8) == 0 {
					o.Thr = ptr(pick(g, 0, -1, 9999, 100000))
				}
				c.Opts = append(c.Opts, o)
			}
			if g.n(3) == 0 {
				c.Opts = append(c.Opts, Opt{})
			}
			n := 3
			if c.Kind == "history" {
				n = g.between(3, 8)
				c.Threads = g.between(2, 4)
				c.Early = g.n(2) == 0
				for i := 0; i < n; i++ {
					c.Fresh = append(c.Fresh, i)
				}
			}
			for i := 0; i < n; i++ {
				if c.Kind == "repetition" {
					c.Calls = append(c.Calls, call{})
					continue
				}
				c.Calls = append(c.Calls, call{Src: g.n(len(c.Sources)), Opt: g.n(len(c.Opts)), Readerable: g.n(6) == 0})
				c.Order = append(c.Order, g.n(100))
			}
			return c
		},
		New:   func() Case { return &historyCase{} },
		Check: checkC02,
		Shrink: func(cc Case) []func() Case {
			c := cc.(*historyCase)
			if c.Kind != "history" {
				return nil
			}
			var out []func() Case
			for i := range c.Calls {
				if len(c.Calls) > 1 {
					out = append(out, func() Case {
						d := *c
						d.Calls = append(append([]call{}, c.Calls[:i]...), c.Calls[i+1:]...)
						d.Fresh = nil
						for j := range d.Calls {
							d.Fresh = append(d.Fresh, j)
						}
						return &d
					})
				}
			}
			for i := range c.Opts {
				for _, p := range c.Opts[i].smaller() {
					out = append(out, func() Case {
						d := *c
						d.Opts = append([]Opt{}, c.Opts...)
						d.Opts[i] = p
						return &d
					})
				}
			}
			return out
		},
		Setup: loadSeeds,
		Quick: 9000, Thorough: 160000,
		Rule:   "pages of every kind with random options; either three calls in a row on the same page, or a history of calls on several pages with several sets of options (the same option values used again and again, also for the readability test), made one after the other, then with all the readers made first and used in another order, and in several threads at once under the race detector (after all that, or before anything else), all in a process of its own. Every call must give what the same call gives alone in a fresh process, and the options of the caller must stay as they were. Non-trivial: a history with two or more different results, or a repeated call with an article that has classes, links and metadata.",
		Assume: []string{"the race detector sees the races of the schedules that happened", "callbacks given as options are themselves free of side effects"},
	})
}

// variant is a source with a few characters changed, or none.
func (g *G) variant(src string) string {
	b := []byte(src)
	if i := strings.Index(src, "none"); i >= 0 && g.n(3) == 0 {
		copy(b[i:], pick(g, "flex", "grid", "NONE"))
	}
	if len(b) == 0 {
		return src
	}
	for k := g.n(4) * g.n(4); k > 0; k-- {
		i := g.n(len(b))
		for j := 0; j < 40 && i+j < len(b); j++ { // the next letter or digit
			if c := b[i+j]; c >= 'a' && c <= 'z' {
				b[i+j] = byte('a' + g.n(26))
				break
			} else if c >= '0' && c <= '9' {
				b[i+j] = byte('0' + g.n(10))
				break
			}
		}
	}
	return string(b)
}

// anyArticle has a bit of everything that options and metadata act on.
func (g *G) anyArticle() string {
	switch g.n(8) {
	case 0:
		return pick(g, "", "<body>") + pick(g, g.window(), g.soup(g.between(1, 40)))
	case 1:
		return g.page(pick(g, 15, 30)).String()
	case 2, 3:
		return g.richPage().String()
	}
	s := g.solidPage(func(int) []*N {
		switch g.n(8) {
		case 0:
			return []*N{g.harmless()}
		case 1:
			return []*N{el("p", tx(g.textOf(120, 10)), el("a", tx(g.word())).with("href", g.reference()).with("class", g.classList()))}
		case 2:
			return []*N{el("p", tx(g.textOf(90, 10))).with("class", g.classList())}
		case 3:
			return []*N{g.embed()}
		case 4:
			return []*N{g.table(2)}
		}
		return nil
	})
	for i := g.n(8); i > 0; i-- {
		s.head.add(g.meta())
	}
	if g.n(3) == 0 {
		s.head.add(g.ldScript())
	}
	if g.n(4) == 0 {
		s.box.Kids = append([]*N{el("p", tx("By "+g.word())).with("class", "byline")}, s.box.Kids...)
	}
	if g.n(4) == 0 {
		s.head.add(el("base").with("href", g.baseRef()))
	}
	if g.n(4) == 0 {
		s.page.with("lang", pick(g, "en", "fr"))
	}
	return s.page.String()
}

// oneCall makes a call and writes down everything it returned.
func oneCall(src, uri string, readerable bool, opts []readability.Option) string {
	if readerable {
		return fmt.Sprint("readerable ", readability.IsProbablyReaderable(src, opts...))
	}
	r, err := readability.New(src, uri, opts...)
	if err != nil {
		return "no reader: " + err.Error()
	}
	return outcome(r)
}

func outcome(r *readability.Readability) string {
	res, err := r.Parse()
	if err != nil {
		return "error: " + err.Error()
	}
	b, _ := json.Marshal(res)
	return string(b)
}

type historyResult struct {
	First []string // one after the other
	Other []string // interleaved
	Bad   string   // first difference found
}

// history makes all the calls of a case, in all the ways.
func (c *historyCase) history() historyResult {
	var out historyResult
	var opts [][]readability.Option
	var classes, before [][]string
	for _, o := range c.Opts {
		cl := append([]string{}, o.Classes...)
		classes = append(classes, cl)
		before = append(before, append([]string{}, cl...))
		p := o
		p.Classes = nil
		l := p.list()
		if o.Classes != nil {
			l = append(l, readability.ClassesToPreserve(cl...))
		}
		opts = append(opts, l)
	}
	do := func(k call) string {
		return oneCall(string(c.Sources[k.Src]), c.URIs[k.Src], k.Readerable, opts[k.Opt])
	}
	threads := make([][]string, c.Threads)
	parallel := func() {
		var wg sync.WaitGroup
		for th := 0; th < c.Threads; th++ {
			threads[th] = make([]string, len(c.Calls))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range c.Calls {
					j := i
					if !c.Early { // early, the threads do the same things at the same time
						j = (i + th) % len(c.Calls)
					}
					threads[th][j] = do(c.Calls[j])
				}
			}()
		}
		wg.Wait()
	}
	if c.Early {
		parallel()
	}
	for _, k := range c.Calls {
		out.First = append(out.First, do(k))
	}
	// all the readers are made before the first one is used
	type pending struct {
		i, key int
		r      *readability.Readability
		s      string
	}
	var wait []pending
	for i, k := range c.Calls {
		p := pending{i: i}
		if i < len(c.Order) {
			p.key = c.Order[i]
		}
		if k.Readerable {
			p.s = do(k)
		} else {
			r, err := readability.New(string(c.Sources[k.Src]), c.URIs[k.Src], opts[k.Opt]...)
			if err != nil {
				p.s = "no reader: " + err.Error()
			}
			p.r = r
		}
		wait = append(wait, p)
	}
	out.Other = make([]string, len(c.Calls))
	for len(wait) > 0 {
		best := 0
		for j := range wait {
			if wait[j].key < wait[best].key {
				best = j
			}
		}
		p := wait[best]
		wait = append(wait[:best], wait[best+1:]...)
		if p.r != nil {
			p.s = outcome(p.r)
		}
		out.Other[p.i] = p.s
	}
	if !c.Early {
		parallel()
	}
	for th := range threads {
		for j, s := range threads[th] {
			if s != out.First[j] {
				out.Bad = fmt.Sprintf("call %d gives in parallel with others\n%s\nbut alone\n%s", j, clip(s, 600), clip(out.First[j], 600))
			}
		}
	}
	for i := range classes {
		if fmt.Sprint(classes[i]) != fmt.Sprint(before[i]) {
			out.Bad = fmt.Sprintf("the classes %v the caller asked to preserve became %v", before[i], classes[i])
		}
	}
	return out
}

// helper is this program in a process of its own.
func helper(args []string) int {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		return exitHarness
	}
	var c historyCase
	if err := json.Unmarshal(b, &c); err != nil {
		return exitHarness
	}
	var out any
	if args[0] == "history" {
		out = c.history()
	} else {
		k := c.Calls[0]
		out = oneCall(string(c.Sources[k.Src]), c.URIs[k.Src], k.Readerable, c.Opts[k.Opt].list())
	}
	json.NewEncoder(os.Stdout).Encode(out)
	return 0
}

func inProcess(mode string, c *historyCase, v any) (string, error) {
	self, err := os.Executable()
	if err != nil {
		return "", err
	}
	if mode == "history" { // built with the race detector
		if f := os.Getenv("VERIF_RACE"); f != "" {
			self = f
		}
	}
	in, err := json.Marshal(c)
	if err != nil {
		return "", err
	}
	cmd := exec.Command(self, "helper", mode)
	cmd.Stdin = bytes.NewReader(in)
	var out, serr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &serr
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Run(); err != nil {
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 66 {
			return "data race: " + clip(serr.String(), 2500), nil
		}
		if strings.Contains(serr.String(), "concurrent map") {
			return "the process dies: " + clip(serr.String(), 1500), nil
		}
		return "", fmt.Errorf("%v: %s", err, clip(serr.String(), 1500))
	}
	return "", json.Unmarshal(out.Bytes(), v)
}

var rRich = regexp.MustCompile(`class=.*href=`)

func checkC02(cc Case, o *Obs) error {
	c := cc.(*historyCase)
	o.Class(c.Kind)
	if c.Kind == "repetition" {
		first := ""
		for i := range c.Calls {
			s := oneCall(string(c.Sources[0]), c.URIs[0], false, c.Opts[0].list())
			if i == 0 {
				first = s
			} else if s != first {
				return fmt.Errorf("call %d gives\n%s\nbut the first one\n%s", i+1, clip(s, 800), clip(first, 800))
			}
		}
		vis := func(n *html.Node) bool { return true }
		a := readability.IsProbablyReaderable(string(c.Sources[0]), append(c.Opts[0].list(), readability.VisibilityChecker(vis))...)
		readability.IsProbablyReaderable(string(c.Sources[0]))
		if b := readability.IsProbablyReaderable(string(c.Sources[0]), append(c.Opts[0].list(), readability.VisibilityChecker(vis))...); a != b {
			return fmt.Errorf("the page is readable %v, then %v", a, b)
		}
		if strings.Contains(string(c.Sources[0]), "<meta") && rRich.MatchString(string(c.Sources[0])) && strings.HasPrefix(first, "{") {
			o.NonTrivial()
		}
		return nil
	}
	var h historyResult
	bad, err := inProcess("history", c, &h)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	if bad != "" {
		return fmt.Errorf("%s", bad)
	}
	if h.Bad != "" {
		return fmt.Errorf("%s", h.Bad)
	}
	results := map[string]bool{}
	for i, s := range h.First {
		results[s] = true
		if h.Other[i] != s {
			return fmt.Errorf("call %d gives\n%s\nwhen its reader is used later, but\n%s\nat once", i, clip(h.Other[i], 600), clip(s, 600))
		}
	}
	for _, i := range c.Fresh {
		if i < 0 || i >= len(c.Calls) {
			continue
		}
		d := *c
		d.Calls = []call{c.Calls[i]}
		var s string
		bad, err := inProcess("single", &d, &s)
		if err != nil {
			panic(harnessError(err.Error()))
		}
		if bad != "" {
			return fmt.Errorf("%s", bad)
		}
		if s != h.First[i] {
			return fmt.Errorf("call %d gives\n%s\nafter other calls, but\n%s\nin a fresh process", i, clip(h.First[i], 800), clip(s, 800))
		}
	}
	if len(results) >= 2 {
		o.NonTrivial()
	}
	return nil
}
