package main

import (
	"encoding/json"
	"regexp"
	"strings"
)

// metaModel is what the head of a page says about the article.
type metaModel struct {
	Title, Byline, Excerpt, SiteName, Published string
}

const titleSeps = `|-\/>»`

func wordCount(s string) int {
	n, in := 1, false
	for _, c := range s {
		if isSpaceASCII(c) {
			if !in {
				n++
			}
			in = true
		} else {
			in = false
		}
	}
	return n
}

var (
	rLastPart  = regexp.MustCompile(`(.*)[|\-\\/>»] .*`)
	rFirstPart = regexp.MustCompile(`[^|\-\\/>»]*[|\-\\/>»](.*)`)
)

// refTitle derives the title of the article from the title and the headings of the page.
func refTitle(page *N) string {
	orig := ""
	for _, t := range page.all("title") {
		if s := strings.TrimSpace(t.text()); s != "" {
			orig = s
			break
		}
	}
	cur := orig
	hier, parts := false, false
	for _, c := range titleSeps {
		if strings.Contains(orig, " "+string(c)+" ") {
			parts = true
			hier = hier || c != '|' && c != '-'
		}
	}
	if parts {
		cur = rLastPart.ReplaceAllString(orig, "$1")
		if wordCount(cur) < 3 {
			cur = rFirstPart.ReplaceAllString(orig, "$1")
		}
	} else if strings.Contains(orig, ": ") {
		whole := false
		for _, h := range page.all("h1", "h2") {
			whole = whole || strings.TrimSpace(h.text()) == orig
		}
		if !whole {
			first := strings.IndexByte(orig, ':')
			cur = orig[strings.LastIndexByte(orig, ':')+1:]
			if wordCount(cur) < 3 {
				cur = orig[first+1:]
			} else if wordCount(orig[:first]) > 5 {
				cur = orig
			}
		}
	} else if l := chars(orig); l > 150 || l < 15 {
		if h := page.all("h1"); len(h) == 1 {
			cur = h[0].inner()
		}
	}
	cur = squeeze(cur)
	if n := wordCount(cur); n <= 4 {
		bare := strings.Map(func(c rune) rune {
			if strings.ContainsRune(titleSeps, c) {
				return -1
			}
			return c
		}, orig)
		if !hier || n != wordCount(bare)-1 {
			cur = orig
		}
	}
	return cur
}

// ---------------------------------------------------------------- JSON-LD

var ldTypes = []string{"AdvertiserContentArticle", "NewsArticle", "AnalysisNewsArticle", "AskPublicNewsArticle", "BackgroundNewsArticle", "OpinionNewsArticle", "ReportageNewsArticle", "ReviewNewsArticle", "Report", "SatiricalArticle", "ScholarlyArticle", "MedicalScholarlyArticle", "SocialMediaPosting", "BlogPosting", "LiveBlogPosting", "DiscussionForumPosting", "TechArticle"}

func ldArticle(v any) bool {
	s, ok := v.(string)
	if !ok {
		return false
	}
	if strings.HasPrefix(s, "Article") || strings.HasSuffix(s, "APIReference") {
		return true
	}
	for _, t := range ldTypes {
		if strings.Contains(s, t) {
			return true
		}
	}
	return false
}

func ldContext(v any) bool {
	s, ok := v.(string)
	if !ok {
		return false
	}
	return oneOf(s, []string{"http://schema.org", "https://schema.org", "http://schema.org/", "https://schema.org/"})
}

func ldName(v any) (string, bool) {
	m, ok := v.(map[string]any)
	if !ok {
		return "", false
	}
	s, ok := m["name"].(string)
	return s, ok
}

// What some publishers put around their JSON.
var rMarkers = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)

// refLD reads the metadata of the first article described by JSON-LD.
func refLD(page *N) (m metaModel, found bool) {
	for _, s := range page.all("script") {
		if s.attr("type") != "application/ld+json" {
			continue
		}
		var v map[string]any
		if json.Unmarshal([]byte(rMarkers.ReplaceAllString(s.text(), "")), &v) != nil {
			continue
		}
		if !ldContext(v["@context"]) {
			continue
		}
		if _, ok := v["@type"]; !ok {
			if graph, ok := v["@graph"].([]any); ok {
				for _, e := range graph {
					if em, ok := e.(map[string]any); ok && ldArticle(em["@type"]) {
						v = em
						break
					}
				}
			}
		}
		if !ldArticle(v["@type"]) {
			continue
		}
		name, isName := v["name"].(string)
		head, isHead := v["headline"].(string)
		switch {
		case isName && isHead && name != head:
			t := refTitle(page)
			m.Title = name
			if similarity(head, t) > 0.75 && !(similarity(name, t) > 0.75) {
				m.Title = head
			}
		case isName:
			m.Title = strings.TrimSpace(name)
		case isHead:
			m.Title = strings.TrimSpace(head)
		}
		if n, ok := ldName(v["author"]); ok {
			m.Byline = strings.TrimSpace(n)
		} else if list, ok := v["author"].([]any); ok && len(list) > 0 {
			if _, ok := ldName(list[0]); ok {
				var names []string
				for _, a := range list {
					if n, ok := ldName(a); ok {
						names = append(names, strings.TrimSpace(n))
					}
				}
				m.Byline = strings.Join(names, ", ")
			}
		}
		if d, ok := v["description"].(string); ok {
			m.Excerpt = strings.TrimSpace(d)
		}
		if n, ok := ldName(v["publisher"]); ok {
			m.SiteName = strings.TrimSpace(n)
		}
		if d, ok := v["datePublished"].(string); ok {
			m.Published = strings.TrimSpace(d)
		}
		return m, true
	}
	return m, false
}

// ---------------------------------------------------------------- meta elements

var (
	metaPrefixes = []string{"dc", "dcterm", "og", "twitter", "weibo:article", "weibo:webpage"}
	metaKeys     = []string{"author", "creator", "description", "title", "site_name"}
	propPrefixes = []string{"article", "dc", "dcterm", "og", "twitter"}
	propKeys     = []string{"author", "creator", "description", "published_time", "title", "site_name"}
)

// metaName is the canonical name of a recognised meta name, empty for others.
func metaName(s string) string {
	s = strings.ToLower(strings.Trim(s, " \t\n\f\r"))
	for _, k := range metaKeys {
		if s == k {
			return k
		}
		rest, ok := strings.CutSuffix(s, k)
		if !ok {
			continue
		}
		rest = strings.TrimRightFunc(rest, isSpaceASCII)
		if l := len(rest); l > 0 && (rest[l-1] == '.' || rest[l-1] == ':') {
			rest = strings.TrimRightFunc(rest[:l-1], isSpaceASCII)
			if oneOf(rest, metaPrefixes) {
				return rest + ":" + k
			}
		}
	}
	return ""
}

// propName is the canonical name of the first recognised property of a list of properties.
func propName(s string) string {
	for _, f := range strings.FieldsFunc(strings.ToLower(s), isSpaceASCII) {
		for _, p := range propPrefixes {
			for _, k := range propKeys {
				if f == p+":"+k {
					return f
				}
			}
		}
	}
	return ""
}

func refMeta(page *N, noLD bool) metaModel {
	v := map[string]string{}
	for _, m := range page.all("meta") {
		content := m.attr("content")
		if content == "" {
			continue
		}
		name := propName(m.attr("property"))
		if name == "" {
			name = metaName(m.attr("name"))
		}
		if name != "" {
			v[name] = strings.TrimSpace(content)
		}
	}
	var ld metaModel
	if !noLD {
		ld, _ = refLD(page)
	}
	first := func(ld string, keys ...string) string {
		if ld != "" {
			return decodeX(ld)
		}
		for _, k := range keys {
			if v[k] != "" {
				return decodeX(v[k])
			}
		}
		return ""
	}
	m := metaModel{
		Title:     first(ld.Title, "dc:title", "dcterm:title", "og:title", "weibo:article:title", "weibo:webpage:title", "title", "twitter:title"),
		Byline:    first(ld.Byline, "dc:creator", "dcterm:creator", "author"),
		Excerpt:   first(ld.Excerpt, "dc:description", "dcterm:description", "og:description", "weibo:article:description", "weibo:webpage:description", "description", "twitter:description"),
		SiteName:  first(ld.SiteName, "og:site_name"),
		Published: first(ld.Published, "article:published_time"),
	}
	if m.Title == "" {
		m.Title = decodeX(refTitle(page))
	}
	return m
}
