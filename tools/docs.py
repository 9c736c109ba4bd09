#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json; run by hand after the table below was edited."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, H, C, S = "inputs", "histories", "configurations", "schedules"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))

RD, DP, RR, OP, RX, UT, CL = "readability.go", "domparser.go", "readerable.go", "options.go", "regexps.go", "util.go", "cmd/readability/readability.go"
FIX = "The tests compare about 130 saved pages, read with one set of options, with saved results"

prop("C01", "Every call returns: no input, URI or option makes the library crash or hang",
  "For every source (well-formed, damaged, random bytes, deeply or widely nested), every page URI and every combination of option values, creating a reader, reading the article and asking whether the page is readable return in bounded time and memory, with exactly one of a result and an error. None of them panics, exits the process or recurses without end.",
  [I, C], "all byte strings as source and URI, all option values",
  FIX+"; none of them is malformed in the ways the crashes need (style declarations without a colon, content outside of the body, empty texts, odd names).",
  [DP, RD, RR], [("reading of tokens until the end of the input", DP+": readNode"), ("retries with fewer filters end", RD+": grabArticle"), ("errors instead of panics", RD+": New, Parse")],
  "fuzzing with structured generators (pages, damaged pages, tag soup, bytes, windows of real pages) against a crash/termination oracle, in supervised processes",
  "generated inputs only; time and memory bounds are 30 s of processor time, 3 GB of heap, 256 MB of stack per case")

prop("C02", "A result depends on the arguments of the call alone",
  "The result of a call is a function of source, URI and options: it is the same when the call is repeated, whatever calls with whatever options were made before, in whatever order readers are created and used, and when calls run in parallel in several goroutines. No call changes the values the caller passed or the defaults of later calls, and parallel calls on different readers have no data race.",
  [I, H, S, C], "all sequences and interleavings of calls on independent readers with all options, all schedules of parallel calls",
  "Every test makes one call with its own options; nothing is called twice, with other options before it, or in parallel.",
  [OP, RD, DP, RX], [("defaults are made per call", OP+": defaultOpts"), ("state lives in the reader", RD+": Readability"), ("package variables are never written", RX)],
  "stateful property-based testing: random histories of calls replayed sequentially, interleaved and in parallel under the race detector, compared with the same call in a fresh process",
  "histories of up to eight calls on up to four pages; the race detector sees only the schedules that happened")

prop("C03", "Content, text and length of a result describe the same article",
  "The content of a result is what the serializer in effect returns for the article, the text content is the text of that content with its references decoded (or what the custom converter makes of it), and the length is the number of characters of that text. With the default serializer the article is one element with the id and class of the page wrapper, holding some text, and its markup is well-formed.",
  [I, C], "all pages, with and without custom serializer and text converter",
  FIX+" for a handful of fields, with the default serializer; lengths and text of escaped or non-ASCII content are not looked at.",
  [RD, DP], [("result is put together", RD+": Parse"), ("serialisation and text", DP+": GetInnerHTML, GetTextContent")],
  "property-based testing: relations between the fields of every result, strict re-reading of the markup",
  "generated pages and soup; exotic named references in texts are kept as they are, as documented in DESIGN.md")

prop("C04", "The article is inert",
  "Whatever is in the page, the content of an article has no script, noscript, style, link, form control, footer, aside, h1 or font element, no link to a javascript: URI in any spelling, no presentational attributes, and no sizes on tables and their like, when a browser parses it. The text and images of neutralised links are still there.",
  [I, C], "all pages, well-formed or not; all spellings of javascript: URIs; content inside SVG, MathML, tables, lists, noscript",
  FIX+", which have scripts in the usual places and links in the usual spelling only.",
  [RD, DP], [("scripts and styles are removed", RD+": removeScripts, prepDocument"), ("links are neutralised", RD+": fixRelativeUris"), ("presentation is removed", RD+": cleanStyles, prepArticle"), ("raw text is no markup", DP+": readNode")],
  "fuzzing and property-based testing: invariant over the article as a second HTML parser reads it, plus model of the text of neutralised links",
  "trusts golang.org/x/net/html to read markup as a browser does; event handler attributes are outside of what the library promises")

prop("C05", "Hidden elements never reach the article, look-alikes always count as visible",
  "No text of an element hidden by the hidden attribute, by an inline display:none or visibility:hidden in any spelling, or by aria-hidden=true is in the article, whatever the element, its place and the number of retries. Elements that only look hidden (other values, overridden declarations, similar names, fallback images) are treated like any other element.",
  [I, C], "all ways to hide and not to hide, on all elements, at all levels, under thresholds that cause retries",
  FIX+"; few of them have hidden elements, none has overridden or important declarations or hidden elements met on retries.",
  [RD, DP], [("visibility", RD+": isProbablyVisible"), ("hidden elements are removed in every attempt", RD+": grabArticle"), ("value of a declaration", DP+": getStyleValue")],
  "property-based testing: unique words in hidden elements and look-alikes, against an independent model of CSS declarations and of the algorithm",
  "style sheets are not considered; marks on html and body are not considered")

prop("C06", "References in the article are absolute and resolved as RFC 3986 says",
  "Every link, image, poster, media source and source-set candidate of the article points to the resource it points to in the page: resolved against the base URI of the page (base element resolved against the page URI, or the page URI) as RFC 3986 prescribes; fragments-only links of pages without another base and values that are no URIs are kept. Descriptors and order of source sets are preserved.",
  [I, C], "all page URIs, base elements and references of the URI grammar, all elements that carry references",
  FIX+", all of them with the same page URI and without dot segments, empty parts or odd source sets.",
  [RD, DP], [("references are made absolute", RD+": fixRelativeUris, toAbsoluteURI"), ("base URI", DP+": getBaseURI"), ("source sets", RX+": srcsetUrl")],
  "property-based testing against an independent implementation of RFC 3986 section 5, elements traced by unique attributes",
  "references that net/url normalises differently although equivalent (empty segments next to dots) are left out")

prop("C07", "Metadata come from meta elements by fixed precedence, in any spelling",
  "Title, author, description, site name and publication time are taken from the meta elements of the page by vocabulary in a fixed order of precedence, whatever the order, case, separators, blanks and repetition of their names and properties. Unrecognised or empty ones are ignored, values are decoded and trimmed, and what no meta element gives falls back to the title of the page, the byline and the first paragraph.",
  [I], "all heads with any number of meta elements of all vocabularies",
  FIX+", whose heads have common combinations only.",
  [RD, RX], [("precedence", RD+": getArticleMetadata"), ("names and properties", RX+": namePattern, propertyPattern")],
  "property-based testing against an independent model of the precedence rules",
  "of a list of properties only the first recognised one counts, as in the original")

prop("C08", "JSON-LD metadata are used when they describe an article, and only then",
  "The first JSON-LD block that describes an article of a known type in the schema.org context overrides the meta elements, field by field; blocks of other types or contexts, broken JSON and fields of unexpected JSON types are ignored and never fail the call. With JSON-LD disabled nothing is taken from it.",
  [I, C], "all JSON documents in all positions, with JSON-LD enabled or not",
  FIX+"; a dozen of them have JSON-LD, all with the expected types of values.",
  [RD, RX], [("JSON-LD", RD+": getJSONLD"), ("types of articles", RX+": jsonLdArticleTypes")],
  "property-based testing with generated JSON against an independent model",
  "types are generated from the exact vocabulary")

prop("C09", "The title is the page title without the name of the site, by fixed rules",
  "The title of an article is derived from the title of the page alone and its headings by fixed rules: the last or first part at a separator is cut off, the part after a colon is used unless a heading repeats the title, very short or long titles are replaced by the only main heading, and a result of too few words gives the full title back. Blanks are normalised; no title at all is not an error.",
  [I], "all page titles and headings",
  FIX+", with some thirty different shapes of titles.",
  [RD, RX], [("title", RD+": getArticleTitle"), ("separators", RX+": titleFinalPart, titleFirstPart, titleSeparators")],
  "property-based testing against an independent model of the title rules",
  "trusts the model, which follows the published algorithm")

prop("C10", "The node tree given to serializers stays consistent under any changes",
  "For every node handed to a serializer and every sequence of appending, removing and replacing nodes, setting markup, text and attributes, parents, children, element children, brothers and element brothers of every node agree with each other and with the sequence, moved nodes leave their old place, and failed removals change nothing. Markup, text, attributes and look-up by id always reflect the current tree.",
  [H, I], "all sequences of operations on all trees",
  "The tests make a dozen fixed changes to three fixed trees and look at single links.",
  [DP], [("links are updated by every operation", DP+": AppendChild, RemoveChild, ReplaceChild, SetInnerHTML, SetTextContent")],
  "stateful model-based testing: random operation sequences, every node compared with a naive tree after each step",
  "histories of up to 25 operations; nodes are never put inside themselves")

prop("C11", "Reading and writing markup are inverse to each other",
  "Well-formed markup, however it is spelled, is read as the tree it denotes, and what is written for a tree is well-formed, is read as the same tree with the same text and attributes by the library and by a browser, and does not change when it is read and written again. Any string can be set as text or attribute value and comes back unchanged.",
  [I], "all trees, all strings, all spellings of names, attributes, references, comments and CDATA sections",
  "The tests read and write a few dozen fixed strings.",
  [DP, RX], [("tokens to nodes", DP+": readNode"), ("references", DP+": decodeHTML, encodeHTML"), ("writing", DP+": GetInnerHTML")],
  "property-based round-trip testing (tree to markup to tree), differential against golang.org/x/net/html and a strict reader",
  "elements with raw text content hold plain text only; of the named references only those of XML are decoded in texts")

prop("C12", "Exactly the classes asked for are preserved",
  "Every element of an article keeps exactly those of its classes that the library always preserves or the caller named, in their order, and loses the class attribute when none is left. When all classes are to be kept, every class attribute is as in the page.",
  [I, C], "all class lists, all sets of classes to preserve, all elements",
  "One test names one class, another keeps all; similar names, repetition, case and blanks are not looked at.",
  [RD, OP], [("classes are filtered", RD+": cleanClasses"), ("names of the caller are added to the defaults", OP+": ClassesToPreserve")],
  "property-based testing, elements traced by unique attributes and compared with the set semantics of class lists",
  "elements that are created by the library are not traced")

prop("C13", "The readability test follows its rule on every page",
  "A page is probably readable exactly when the visible blocks of text (paragraphs, preformatted texts, articles, containers with line breaks, each counted once) that are long enough, have no suspicious name and are no paragraphs of list items have a score, the sum of the roots of what they exceed the minimum length by, above the limit. Minimum length, limit and the notion of visibility are those of the caller, if given.",
  [I, C], "all pages, all limits, all visibility functions",
  FIX+" and a few fixed texts around the default limits.",
  [RR, UT], [("rule", RR+": IsProbablyReaderable"), ("visibility", RR+": isNodeVisible")],
  "property-based testing against an independent evaluation of the rule, with lengths chosen at and around every limit",
  "trusts golang.org/x/net/html for the tree; scores that equal the limit up to rounding are not judged")

prop("C14", "The article is made of the words of the page: none invented, moved or repeated",
  "The words of an article are a subsequence of the words of the page: nothing is invented, reordered or repeated, and texts are never torn apart or glued to others. The paragraphs of an unmistakable article, with their inline markup, are in it completely, through all the transformations of containers, line breaks, tables and retries.",
  [I, C], "all pages with distinguishable words, all options",
  FIX+"; a word lost or repeated elsewhere is not seen.",
  [RD, DP], [("nodes are moved, never copied", RD+": grabArticle"), ("containers become paragraphs", RD+": setNodeTag, replaceBrs")],
  "property-based testing with unique words: subsequence and completeness invariants over every article",
  "completeness is judged on pages whose article is beyond doubt")

prop("C15", "The character threshold selects the first sufficient attempt, else the longest",
  "An article is looked for with fewer and fewer filters until its text reaches the threshold; the result is the first attempt that does, or the one with the longest text when none does, and an error when no attempt has any text. Raising the threshold never makes the article shorter, and a result that already reaches the higher threshold stays the same.",
  [I, C], "all pages and thresholds",
  "Two tests set a threshold, on one page each.",
  [RD], [("attempts and threshold", RD+": grabArticle")],
  "property-based testing: metamorphic relation between thresholds plus model of the attempts, with thresholds at and around the length of every attempt",
  "thresholds of at least one")

prop("C16", "The limit on the number of elements is exact and has no other effect",
  "A page is refused with an error exactly when it has more elements than a positive limit. A limit that is not exceeded, zero or negative changes nothing in the result.",
  [I, C], "all pages, all limits",
  "One test with a limit of one.",
  [RD, OP], [("limit", RD+": Parse")],
  "property-based testing: boundary search around the exact number of elements, metamorphic comparison with the unlimited result",
  "elements are counted on the generated tree")

prop("C17", "Language and direction of the article are those the page declares",
  "The language of a result is the lang attribute of the document, whatever other elements declare. The direction of an article that reached the threshold is the one declared by the element around its main part, else by that part itself, else by the nearest element further up that declares one, the root included.",
  [I], "all placements of language and direction attributes",
  FIX+"; a few have a direction, on the outermost elements.",
  [RD], [("language", RD+": grabArticle"), ("direction", RD+": grabArticle")],
  "property-based testing against a model of the containers of the article",
  "an article below the threshold has no direction, as in the original")

prop("C18", "Allowed videos survive, other embedded objects do not",
  "An embedded object, embed or iframe of an article stays exactly when it is a video of an allowed site: one of its attribute values, or for objects the markup inside, matches the allowed pattern, by default that of the known video sites, or the one the caller gave. Where a container is judged for removal, an allowed video in it saves it.",
  [I, C], "all embedded elements, attribute values and patterns, at all places of an article",
  FIX+"; the allowed sites and the pattern of the caller are tried on one video each.",
  [RD, RX], [("embeds are filtered", RD+": clean"), ("allowed sites", RX+": videos"), ("containers with videos are kept", RD+": cleanConditionally")],
  "property-based testing, embeds traced by unique attributes, direct oracle for the pattern and model for containers",
  "iframes inside objects and other exotic nestings only through the model")

prop("C19", "Data tables survive with all their cells, layout tables become plain content",
  "A table that holds data (caption, header cells, column groups, summary, size, explicit role) is kept as a table with all its rows, cells and their text, even when its content looks unlike an article. A table of a single cell becomes a paragraph or container with the content of the cell, and layout tables are treated like containers.",
  [I], "all shapes of tables with all the marks of data and layout, nested, in all places",
  FIX+"; the limits on rows and columns and nested tables are not looked at.",
  [RD], [("data tables", RD+": markDataTables"), ("single cells", RD+": prepArticle"), ("exemption from cleaning", RD+": cleanConditionally")],
  "property-based testing with unique words per cell and traced tables against an independent model of the table rules",
  "limits of rows and columns follow the published algorithm")

prop("C20", "Lazy and noscript images become real images",
  "An image of an article whose real source waits in another attribute or in a following noscript element has that source in the article, as source or source set according to its form, and keeps its other attributes; small embedded placeholders give way, images that already have a source are left alone. Images without any source and noscript elements with anything else leave no trace.",
  [I], "all images, pictures and figures with sources in any attributes, with and without noscript",
  FIX+"; sizes of placeholders, letter case and several attributes are not varied.",
  [RD, RX], [("lazy images", RD+": fixLazyImages"), ("noscript images", RD+": unwrapNoscriptImages"), ("forms of sources", RX+": imgExtensions, b64DataUrl")],
  "property-based testing, images traced by unique attributes, against an independent model of the two rules",
  "sources are generated from a grammar of URLs with and without image extensions")

prop("C21", "Runs of line breaks separate paragraphs, single ones stay",
  "Where two or more line breaks, with nothing but blanks between them, separate inline content, the content after them up to the next run becomes a paragraph of its own with all its text and inline elements in order. Single line breaks stay, except at the start or end of a paragraph and directly before one.",
  [I], "all sequences of texts, inline elements, line breaks and blocks",
  "The tests have four fixed sequences.",
  [RD], [("runs of line breaks", RD+": replaceBrs"), ("what is left of them", RD+": prepArticle")],
  "property-based testing with unique words: grammar of break sequences, direct oracle for the resulting paragraphs plus model",
  "inside paragraphs and other containers of an unmistakable article")

prop("C22", "The command prints the article of the page it was given",
  "For every page served over HTTP the command prints exactly the text of the article, or its markup when asked for with either spelling of the option, as the library extracts it with the address the page was finally found at, and exits with success; logging never mixes with the output. A missing or broken address, a server that cannot be reached, an answer that breaks off, redirects without end and a page without an article end in a message and a failure status.",
  [I, C], "all pages, all addresses, all combinations of arguments",
  "There are no tests of the command.",
  [CL], [("arguments, request and output", CL+": main")],
  "property-based differential testing of the built command against the library, over a local HTTP server with generated pages and faults",
  "loopback HTTP only, no TLS")

prop("C23", "Boilerplate is removed, look-alikes are kept",
  "Elements around and inside an article that are navigation, advertisement, comments, sharing or the like by their name or role, and a heading that repeats the title, are not in the article when it is long enough without them. Elements whose names merely resemble those, that have names that speak for content, or that are inside of tables or code, are not removed for their names.",
  [I, C], "all names, roles and headings of the vocabulary in all spellings, at all places",
  FIX+"; each name of the vocabulary and its exceptions occur by chance, if at all.",
  [RD, RX], [("unlikely names and roles", RD+": grabArticle"), ("sharing elements", RD+": prepArticle"), ("heading that repeats the title", RD+": headerDuplicatesTitle")],
  "property-based testing with unique words per decorated element against a direct oracle of the naming rules and the model of the algorithm",
  "the words of names are those of the published algorithm")

prop("C24", "The article is, node by node, the one the published algorithm finds",
  "For every well-formed page and all options the content of the article is exactly the tree the published algorithm (scoring of paragraphs and their ancestors, choice of the top candidate, its siblings, conditional cleaning, simplification) yields. No heuristic weight, limit or order of steps differs.",
  [I, C], "all well-formed pages and options",
  FIX+"; a changed weight or limit that does not matter for these pages is not seen.",
  [RD, RX, DP], [("algorithm", RD+": grabArticle, cleanConditionally, prepArticle, simplifyNestedElements")],
  "property-based differential testing against an independently written reference model of the whole algorithm",
  "trusts the model, which was written from the published algorithm; ties decided by rounding are skipped")

prop("C25", "Author and description fall back to the byline and the first paragraph",
  "When no metadata name an author, the author is the text of the first element that is marked as a byline by rel, itemprop, class or id, if it is short enough and not empty, trimmed, and that element is not in the article. When no metadata give a description, it is the text of the first paragraph of the article, trimmed.",
  [I], "all pages with any number of bylines, empty, long, hidden, nested, before or after other content",
  FIX+", most of which have metadata or one byline.",
  [RD, RX], [("byline", RD+": isValidByline, grabArticle"), ("excerpt", RD+": Parse")],
  "property-based testing against a direct oracle for the first valid byline and first paragraph plus the model",
  "the byline is taken out in the first attempt only, as in the original")

prop("C26", "Equivalent spellings of a page give the same result",
  "Letter case of names, prefixes of element names, kind of quotes, blanks inside tags, order of attributes, way of escaping characters, comments, CDATA sections, the form of empty elements, blanks before the end of a tag, a document type and blanks outside of the body do not change any field of the result. Neither do additional attributes without meaning, nor, but for the line ends inside of texts, the line ends of another system.",
  [I], "all pages and all pairs of equivalent spellings",
  "The tests have each page in one spelling.",
  [DP, RD], [("tokens to nodes", DP+": readNode, makeElementNode"), ("names are compared in one case", DP+": newElement")],
  "metamorphic property-based testing: every page is read in several random spellings and all results are compared",
  "well-formed pages; the order of attributes of the article follows that of the page and is not compared, nor is a plain span around the text of a neutralised link")

done = set(re.findall(r'ID:\s+"(C\d\d)"', "".join(open(os.path.join(here, "harness", f)).read() for f in sorted(os.listdir(os.path.join(here, "harness"))) if f.endswith(".go"))))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] not in done:
            continue
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=["result of the public API"], hook_needed=None)), ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
  notes="No hooks in /repo: the checks use the public API only. VERIF_SEED selects the cases; replay files are evaluated with: bash check.sh ID replay FILE")
for p in P:
    if p["id"] in done:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough", technique=p["technique"], level="exploration", level_note=p["note"]))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(sorted(done), "missing:", [p["id"] for p in P if p["id"] not in done], "unknown:", done - {p["id"] for p in P})
