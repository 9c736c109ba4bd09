package main

import "strings"

// ---------------------------------------------------------------- RFC 3986

type uriParts struct {
	scheme, authority, path, query, fragment string
	hasScheme, hasAuth, hasQuery, hasFrag    bool
}

func splitURI(s string) uriParts {
	var u uriParts
	if i := strings.IndexByte(s, '#'); i >= 0 {
		u.fragment, u.hasFrag, s = s[i+1:], true, s[:i]
	}
	if i := strings.IndexByte(s, '?'); i >= 0 {
		u.query, u.hasQuery, s = s[i+1:], true, s[:i]
	}
	if i := strings.IndexByte(s, ':'); i > 0 && isScheme(s[:i]) {
		u.scheme, u.hasScheme, s = s[:i], true, s[i+1:]
	}
	if strings.HasPrefix(s, "//") {
		s = s[2:]
		u.hasAuth = true
		i := strings.IndexByte(s, '/')
		if i < 0 {
			i = len(s)
		}
		u.authority, s = s[:i], s[i:]
	}
	u.path = s
	return u
}

func isScheme(s string) bool {
	for i, c := range s {
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
		case i > 0 && (c >= '0' && c <= '9' || c == '+' || c == '-' || c == '.'):
		default:
			return false
		}
	}
	return s != ""
}

// removeDots is remove_dot_segments of RFC 3986, 5.2.4.
func removeDots(in string) string {
	out := ""
	pop := func() {
		if i := strings.LastIndexByte(out, '/'); i >= 0 {
			out = out[:i]
		} else {
			out = ""
		}
	}
	for in != "" {
		switch {
		case strings.HasPrefix(in, "../"):
			in = in[3:]
		case strings.HasPrefix(in, "./"):
			in = in[2:]
		case strings.HasPrefix(in, "/./"):
			in = in[2:]
		case in == "/.":
			in = "/"
		case strings.HasPrefix(in, "/../"):
			in = in[3:]
			pop()
		case in == "/..":
			in = "/"
			pop()
		case in == "." || in == "..":
			in = ""
		default:
			i := strings.IndexByte(in[1:], '/')
			if i < 0 {
				out += in
				in = ""
			} else {
				out += in[:i+1]
				in = in[i+1:]
			}
		}
	}
	return out
}

// resolve is the transform of RFC 3986, 5.2.2, with the scheme and the host in lower case
// and the path of a URI with a host never empty.
func resolve(base, ref string) string {
	b, r := splitURI(base), splitURI(ref)
	var t uriParts
	switch {
	case r.hasScheme:
		t = r
		if t.hasAuth || strings.HasPrefix(t.path, "/") {
			t.path = removeDots(r.path)
		}
	case r.hasAuth:
		t = r
		t.path = removeDots(r.path)
		t.scheme, t.hasScheme = b.scheme, b.hasScheme
	default:
		t = b
		if r.path == "" {
			if r.hasQuery {
				t.query, t.hasQuery = r.query, true
			}
		} else {
			if strings.HasPrefix(r.path, "/") {
				t.path = removeDots(r.path)
			} else {
				p := r.path
				if b.hasAuth && b.path == "" {
					p = "/" + p
				} else {
					p = b.path[:strings.LastIndexByte(b.path, '/')+1] + p
				}
				t.path = removeDots(p)
			}
			t.query, t.hasQuery = r.query, r.hasQuery
		}
	}
	t.fragment, t.hasFrag = r.fragment, r.hasFrag
	s := ""
	if t.hasScheme {
		s += strings.ToLower(t.scheme) + ":"
	}
	if t.hasAuth {
		user, host := "", t.authority
		if i := strings.LastIndexByte(host, '@'); i >= 0 {
			user, host = host[:i+1], host[i+1:]
		}
		s += "//" + user + strings.ToLower(host)
		if t.path == "" {
			t.path = "/"
		}
	}
	s += t.path
	if t.hasQuery {
		s += "?" + t.query
	}
	if t.hasFrag {
		s += "#" + t.fragment
	}
	return s
}

// pageBase is the base URI of a page: that of its base element, or its own.
func pageBase(page *N, uri string) string {
	for _, b := range page.all("base") {
		if b.has("href") {
			if b.attr("href") == "" {
				return uri
			}
			return resolve(uri, b.attr("href"))
		}
	}
	return uri
}

// absolute is what a reference in an article becomes.
func absolute(base, uri, ref string) string {
	ref = strings.TrimSpace(ref)
	if strings.HasPrefix(ref, "#") && base == uri {
		return ref
	}
	return resolve(base, ref)
}

// srcsetParts cuts a srcset into references and everything else; the references have the
// odd positions.
func srcsetParts(s string) []string {
	var out []string
	for s != "" {
		i := 0
		for i < len(s) && (isSpaceASCII(rune(s[i])) || s[i] == ',') {
			i++
		}
		out = append(out, s[:i])
		s = s[i:]
		j := 0
		for j < len(s) && !isSpaceASCII(rune(s[j])) {
			j++
		}
		url := s[:j]
		s = s[j:]
		if strings.HasSuffix(url, ",") {
			t := strings.TrimRight(url, ",")
			s = url[len(t):] + s
			out = append(out, t)
			continue
		}
		out = append(out, url)
		// the descriptor
		k := strings.IndexByte(s, ',')
		if k < 0 {
			k = len(s)
		}
		out = append(out, s[:k])
		s = s[k:]
		// merge the descriptor with the separator that follows
		i = 0
		for i < len(s) && (isSpaceASCII(rune(s[i])) || s[i] == ',') {
			i++
		}
		out[len(out)-1] += s[:i]
		s = s[i:]
		if s != "" {
			// the next reference follows immediately
			j := 0
			for j < len(s) && !isSpaceASCII(rune(s[j])) {
				j++
			}
			rest := srcsetParts(s)
			out = append(out, rest[1:]...)
			return out
		}
	}
	return out
}

func uriFixer(page *N, uri string) func(*N) {
	base := pageBase(page, uri)
	return func(art *N) {
		for _, a := range art.all("a") {
			if h := a.attr("href"); h != "" {
				a.set("href", absolute(base, uri, h))
			}
		}
		for _, m := range art.all("img", "picture", "figure", "video", "audio", "source") {
			for _, k := range []string{"src", "poster"} {
				if v := m.attr(k); v != "" {
					m.set(k, absolute(base, uri, v))
				}
			}
			if v := m.attr("srcset"); v != "" {
				p := srcsetParts(v)
				for i := 1; i < len(p); i += 2 {
					p[i] = absolute(base, uri, p[i])
				}
				m.set("srcset", strings.Join(p, ""))
			}
		}
	}
}
