package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	readability "github.com/giulianopz/go-readability"
	"pgregory.net/rapid"
)

// C22: the command against the library, over a local server.

type cliCase struct {
	HTML  string
	Args  []string // before the address
	After []string // after the address
	Path  string   // path and query of the page
	Hops  []hop    // redirects on the way
	Frag  string
	Fault string // "", "missing", "refused", "truncated", "loop", "address"
	How   string // "plain", "chunked", "gzip", "drip"
	Head  map[string]string
	Pad   int // blanks before the end of the page, to make it large
}

type hop struct {
	Path   string
	Status int
	Form   string // "absolute", "path", "relative"
}

var cli struct {
	srv   *httptest.Server
	mu    sync.Mutex
	pages map[string]http.HandlerFunc
	n     int
	dead  string // address nobody listens at
}

func init() {
	register(&Prop{
		ID: "C22",
		Gen: func(t *rapid.T) Case {
			g := newG(t)
			c := &cliCase{Path: g.cliPath(), How: pick(g, "plain", "plain", "chunked", "gzip", "drip"), Head: map[string]string{}}
			switch g.n(8) {
			case 0:
				c.HTML = pick(g, "", "x", "<html></html>", "<p></p>", "<html><head><title>t</title></head><body></body></html>", "<html><body><p>"+g.textOf(40, 10)+"</p></body></html>")
			case 1:
				c.HTML = g.page(pick(g, 10, 25)).String()
			case 2:
				c.HTML = g.soup(g.between(3, 25))
			default:
				s := g.solidPage(func(int) []*N {
					var l []*N
					for i := g.n(3); i > 0; i-- {
						l = append(l, g.place(g.cliContent()))
					}
					return l
				})
				if g.n(4) == 0 {
					s.head.add(el("base").with("href", pick(g, "/", "sub/", "http://other.example/a/", "../x")))
				}
				c.HTML = pick(g, "", "<!DOCTYPE html>\n") + s.page.String()
			}
			switch g.n(6) {
			case 0:
				c.Args = []string{pick(g, "-o", "--o", "-output", "--output"), pick(g, "html", "text", "html")}
			case 1:
				c.Args = []string{pick(g, "-o", "--o", "-output", "--output") + "=" + pick(g, "html", "text", "html")}
			case 2:
				c.Args = []string{"-o", pick(g, "html", "text"), "-output", pick(g, "html", "text")}
			case 3:
				c.Args = []string{"-o", "html"}
			}
			if g.n(4) == 0 {
				v := pick(g, "-v", "-verbose", "--verbose", "-v=true", "-v=false")
				if g.bool() {
					c.Args = append(c.Args, v)
				} else {
					c.Args = append([]string{v}, c.Args...)
				}
			}
			if g.n(12) == 0 {
				c.Args = append(c.Args, "--")
			}
			if g.n(10) == 0 {
				c.After = []string{pick(g, "http://other.example/", "x", "html")}
			}
			if g.n(8) == 0 {
				c.Head["Content-Type"] = pick(g, "text/html; charset=utf-8", "text/plain", "application/xhtml+xml")
			}
			if g.n(30) == 0 {
				c.Pad = pick(g, 300, 3000, 40000, 600000)
			}
			switch g.n(10) {
			case 0, 1:
				for i := g.between(0, 2); i >= 0; i-- {
					c.Hops = append(c.Hops, hop{g.cliPath(), pick(g, 301, 302, 303, 307, 308), pick(g, "absolute", "path", "relative")})
				}
			case 2:
				c.Fault = pick(g, "missing", "refused", "truncated", "loop", "address", "truncated")
			case 3:
				c.Frag = pick(g, "top", "a-b", "x1")
			}
			return c
		},
		New: func() Case { return &cliCase{} }, Check: checkC22, Setup: setupC22,
		Quick: 12000, Thorough: 200000,
		Rule:   "pages (articles with links and images, bare ones, pages without an article, tag soup) served by a local server at generated paths, plain, in pieces, compressed, directly and after redirects of every kind, and faults (nobody listens, the answer breaks off, redirects without end, no or a broken address); the built command is run with every spelling of its arguments. Its output must be byte for byte the text, or markup, the library gives for the page and its final address, with status 0; where the library reports an error or the page cannot be had, it must fail with a message. Non-trivial: an article was printed.",
		Assume: []string{"HTTP over the loopback network, answers with status 200"},
	})
}

func (g *G) cliPath() string {
	s := "/"
	for i := g.between(0, 2); i >= 0; i-- {
		s += pick(g, "a", "dir", "news", "b-c", "x_1", "a%20b", "page.html", "%C3%A9")
		if i > 0 || g.n(4) == 0 {
			s += "/"
		}
	}
	return s + pick(g, "", "", "?q=1", "?a=b&c=d", "?u=http://x.example/y")
}

func (g *G) cliContent() *N {
	ref := func() string {
		return pick(g, "x.html", "/x", "../y/z", "?q", "#frag", "//o.example/p", "http://o.example/p?a=1&b=2", "./", "..", "a b")
	}
	switch g.n(5) {
	case 0:
		return el("img").with("src", ref())
	case 1:
		return el("img").with("srcset", "s.png 1x, /l.png 2x").with("src", "s.png")
	case 2:
		return el("b", tx(pick(g, "a & b < c", "\"q\" 'r'", "é ü 漢字", "%d %s %%", "back\\slash \\n")+" "+g.word()))
	default:
		return el("a", tx(g.word())).with("href", ref())
	}
}

func setupC22(string, string) error {
	if cli.srv != nil {
		return nil
	}
	if os.Getenv("VERIF_CLI") == "" {
		return fmt.Errorf("VERIF_CLI is not set")
	}
	cli.pages = map[string]http.HandlerFunc{}
	cli.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		cli.mu.Lock()
		f := cli.pages[r.URL.RequestURI()]
		cli.mu.Unlock()
		if f == nil {
			w.WriteHeader(599)
			fmt.Fprintf(w, "no page at %s", r.URL.RequestURI())
			return
		}
		f(w, r)
	}))
	// A socket that is bound and does not listen: connections to it are refused.
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return err
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		return err
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		return err
	}
	cli.dead = fmt.Sprintf("http://127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	return nil
}

func (c *cliCase) source() string {
	if i := strings.Index(c.HTML, "<body>"); i >= 0 && c.Pad > 0 {
		return c.HTML[:i+6] + strings.Repeat(" \n", c.Pad) + c.HTML[i+6:]
	}
	return c.HTML
}

func (c *cliCase) serve(w http.ResponseWriter, r *http.Request) {
	for k, v := range c.Head {
		w.Header().Set(k, v)
	}
	body := []byte(c.source())
	switch {
	case c.Fault == "truncated":
		if c.How != "chunked" {
			w.Header().Set("Content-Length", strconv.Itoa(len(body)+100))
		}
		w.Write(body)
		if f, ok := w.(http.Flusher); ok {
			f.Flush()
		}
		panic(http.ErrAbortHandler)
	case c.How == "gzip" && strings.Contains(r.Header.Get("Accept-Encoding"), "gzip"):
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		z.Write(body)
		z.Close()
		w.Header().Set("Content-Encoding", "gzip")
		w.Write(b.Bytes())
	case c.How == "chunked", c.How == "drip":
		n := len(body)/3 + 1
		for len(body) > 0 {
			if n > len(body) {
				n = len(body)
			}
			w.Write(body[:n])
			body = body[n:]
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
			if c.How == "drip" {
				time.Sleep(2 * time.Millisecond)
			}
		}
	default:
		w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		w.Write(body)
	}
}

func checkC22(cc Case, o *Obs) error {
	c := cc.(*cliCase)
	if err := setupC22("", ""); err != nil {
		panic(harnessError(err.Error()))
	}
	if !strings.HasPrefix(c.Path, "/") {
		return nil
	}
	// every case has its own part of the server
	cli.mu.Lock()
	cli.n++
	pre := fmt.Sprintf("/c%d", cli.n)
	cli.mu.Unlock()
	var used []string
	set := func(p string, f http.HandlerFunc) {
		cli.mu.Lock()
		defer cli.mu.Unlock()
		used = append(used, p)
		cli.pages[p] = f
	}
	defer func() {
		cli.mu.Lock()
		defer cli.mu.Unlock()
		for _, p := range used {
			delete(cli.pages, p)
		}
	}()
	// two redirects must not meet at one address
	paths := make([]string, 0, len(c.Hops)+1)
	for i, h := range c.Hops {
		paths = append(paths, fmt.Sprintf("%s/h%d%s", pre, i, h.Path))
	}
	paths = append(paths, pre+"/p"+c.Path)
	last := paths[len(paths)-1]
	set(last, c.serve)
	for i, h := range c.Hops {
		to := paths[i+1]
		switch h.Form {
		case "absolute":
			to = cli.srv.URL + to
		case "relative":
			up := strings.Count(strings.SplitN(paths[i], "?", 2)[0], "/") - 1
			to = strings.Repeat("../", up) + to[1:]
		}
		st := h.Status
		set(paths[i], func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("Location", to)
			w.WriteHeader(st)
		})
	}
	arg := cli.srv.URL + paths[0]
	final := cli.srv.URL + last
	if c.Frag != "" && len(c.Hops) == 0 {
		arg += "#" + c.Frag
		final = arg
	}
	args := append([]string{}, c.Args...)
	mustFail := ""
	switch c.Fault {
	case "missing":
		mustFail = "no address was given"
	case "refused":
		mustFail = "nobody listens"
		arg = cli.dead + c.Path
	case "truncated":
		mustFail = "the answer breaks off"
	case "loop":
		mustFail = "the redirects have no end"
		set(pre+"/loop", func(w http.ResponseWriter, r *http.Request) {
			http.Redirect(w, r, pre+"/loop", http.StatusFound)
		})
		arg = cli.srv.URL + pre + "/loop"
	case "address":
		mustFail = "the address is broken"
		arg = []string{"http://[::1", "nonsense://127.0.0.1/x", "/x", "http://127.0.0.1:99999/"}[len(c.HTML)%4]
	}
	if c.Fault != "missing" {
		args = append(args, arg)
		args = append(args, c.After...)
	}
	cmd := exec.Command(os.Getenv("VERIF_CLI"), args...)
	cmd.Env = []string{"PATH=/nowhere", "HOME=/nowhere", "GOTRACEBACK=single"}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	code := 0
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(harnessError(err.Error()))
		}
		code = ee.ExitCode()
	}
	what := func() string {
		return fmt.Sprintf("arguments %q, status %d, output %q, log %q", args, code, clip(so.String(), 800), clip(se.String(), 800))
	}
	if code < 0 || strings.Contains(se.String(), "panic: ") {
		return fmt.Errorf("the command crashed: %s", what())
	}
	failed := func(why string) error {
		switch {
		case code == 0:
			return fmt.Errorf("success though %s: %s", why, what())
		case so.Len()+se.Len() == 0:
			return fmt.Errorf("no message though %s: %s", why, what())
		}
		return nil
	}
	if mustFail != "" {
		o.Class("fault: " + c.Fault)
		return failed(mustFail)
	}
	r, err := readability.New(c.source(), final)
	var res *readability.Result
	if err == nil {
		res, err = r.Parse()
	}
	if err != nil {
		o.Class("the library reports an error")
		return failed("the library says " + err.Error())
	}
	if code != 0 {
		return fmt.Errorf("failure: %s", what())
	}
	want, kind := res.TextContent, "text"
	if c.markup() {
		want, kind = res.HTMLContent, "markup"
	}
	if so.String() != want {
		return fmt.Errorf("the output is not the %s of the article %q: %s", kind, clip(want, 800), what())
	}
	o.Class(kind)
	o.ClassIf(c.Pad > 0, "large page")
	o.Class(c.How)
	o.ClassIf(len(c.Hops) > 0, "redirected")
	o.ClassIf(c.Frag != "", "fragment")
	if want != "" {
		o.NonTrivial()
	}
	return nil
}

// markup: the last -o or -output before the end of the options decides.
func (c *cliCase) markup() bool {
	m := false
	for i := 0; i < len(c.Args); i++ {
		a := c.Args[i]
		if a == "--" {
			break
		}
		name, val, has := strings.Cut(strings.TrimLeft(a, "-"), "=")
		if name == "o" || name == "output" {
			if !has {
				i++
				val = c.Args[i]
			}
			m = val == "html"
		}
	}
	return m
}
