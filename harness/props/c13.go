package props

import (
	"regexp"

	docx "github.com/fumiama/go-docx"

	"verif/oox"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C13",
		Level: "exploration",
		Rule:  "documents (built, parsed from foreign packages, results of appending, pieces) are split by random sets of paragraphs and by generated regular expressions; the saved pieces are compared in full detail with the partition of the saved original, and their other parts byte for byte; non-trivial: at least two pieces",
		Subs: []pbt.Sub{
			{Name: "rule", Quick: 2500, Weight: 3, Fn: c13rule},
			{Name: "regex", Quick: 2500, Weight: 2, Fn: c13regex},
			{Name: "history", Quick: 700, Weight: 2, Fn: c13},
			{Name: "structures", Quick: 800, Weight: 2, Fn: c13structures},
			large("large", 16, c13large),
			wideSub("wide", 80, c13wide),
		},
	})
}

func c13rule(t *pbt.T) {
	w := newWorld(t)
	b := fill(w.add(), 12)
	if t.Chance(1, 4) {
		w.append(b, fill(w.add(), 6))
	}
	if t.Chance(1, 4) {
		w.check(b)
		b.reopen("before splitting")
	}
	if t.Chance(1, 12) {
		b.d.Document.Body.Items, b.Items = nil, nil
		t.Logf("body emptied")
	}
	rule, m := randomRule(t, b)
	ps := w.split(b, rule, m)
	if len(ps) >= 2 {
		t.NonTrivial()
	}
	for i, n := range ps {
		if len(n.d.Document.Body.Items) == 0 {
			t.Failf("empty-piece", "piece %d is empty", i)
		}
		if i > 0 {
			if _, ok := n.d.Document.Body.Items[0].(*docx.Paragraph); !ok {
				t.Failf("pieces", "piece %d begins with %T", i, n.d.Document.Body.Items[0])
			}
		}
		checkPlain(t, "piece in memory", n.Items, n.d, false)
	}
	if len(ps) == 0 {
		return
	}
	// pieces are documents of their own
	i := t.Int(0, len(ps)-1)
	before := make([][]byte, len(ps))
	for k, n := range ps {
		before[k] = save(t, n.d)
	}
	src := save(t, b.d)
	if t.Bool() {
		ps[i].reopen("piece")
	}
	fill(ps[i], 6)
	w.check(ps[i])
	for k, n := range ps {
		if k != i {
			sameParts(t, "piece-changed", "a piece after editing another", before[k], save(t, n.d))
		}
	}
	sameParts(t, "source-changed", "the original after editing a piece", src, save(t, b.d))
}

// regex makes an expression which matches some of the texts.
func regex(t *pbt.T, texts []string) *regexp.Regexp {
	some := ""
	if len(texts) > 0 {
		some = texts[t.Int(0, len(texts)-1)]
	}
	rs := []rune(some)
	i := t.Int(0, len(rs))
	j := i + t.Int(0, min(len(rs)-i, 6))
	e := ""
	switch t.Int(0, 9) {
	case 0:
		e = "^" + regexp.QuoteMeta(some) + "$"
	case 1, 2:
		e = regexp.QuoteMeta(string(rs[i:j]))
	case 3:
		e = "^" + regexp.QuoteMeta(string(rs[:j]))
	case 4:
		e = regexp.QuoteMeta(string(rs[i:])) + "$"
	case 5:
		e = pbt.Pick(t, "^$", ".", "^.$", "x^", "[a-z]", "[0-9]+", `^\s*$`, "(?i)CHAPTER", `\t`, `\n`, `(?m)^a`)
	case 6:
		e = pbt.Pick(t, `\]\(http`, `\]\(`, `!\[`, `!\[inlnim`, `!\[anch`, `\([0-9a-f]{32}\)`, `图片 [0-9]`, `!\[.*sp `)
	case 7:
		e = "[" + regexp.QuoteMeta(string(rs[i:j])) + "q]"
	case 8:
		e = "^[^" + regexp.QuoteMeta(string(rs[i:j])) + "q]*$"
	default:
		e = ".{" + itoa(t.Int(0, 12)) + ",}"
	}
	re, err := regexp.Compile(e)
	if err != nil {
		return regexp.MustCompile("[a-m]")
	}
	return re
}

func c13regex(t *pbt.T) {
	w := newWorld(t)
	b := fill(w.add(), 12)
	_, p := w.check(b)
	var texts []string
	items := p.Body(oox.Opt{Brief: true})
	if len(items) != len(b.d.Document.Body.Items) {
		t.Failf("items", "%d items saved, %d in memory", len(items), len(b.d.Document.Body.Items))
	}
	for _, c := range items {
		if c.Name == "w:p" {
			texts = append(texts, plainPara(c))
		}
	}
	re := regex(t, texts)
	t.Logf("expression %q", re)
	m := map[*docx.Paragraph]bool{}
	for i, c := range items {
		if x, ok := b.d.Document.Body.Items[i].(*docx.Paragraph); ok && c.Name == "w:p" && re.MatchString(plainPara(c)) {
			m[x] = true
		}
	}
	rule := docx.SplitDocxByPlainTextRegex(re)
	for i, c := range items {
		if x, ok := b.d.Document.Body.Items[i].(*docx.Paragraph); ok && rule(x) != m[x] {
			t.Failf("regex", "the rule for %q says %v for a paragraph with plain text %q", re, rule(x), plainPara(c))
		}
	}
	ps := w.split(b, rule, m)
	if len(ps) >= 2 {
		t.NonTrivial()
	}
	for i, n := range ps {
		// names of pictures and shapes are numbered anew
		pics := false
		for _, c := range n.Items {
			pics = pics || hasDrawing(c)
		}
		if pics {
			continue
		}
		for k, it := range n.d.Document.Body.Items {
			x, ok := it.(*docx.Paragraph)
			if k > 0 && ok && rule(x) {
				t.Failf("separator", "item %d of piece %d (%q) matches", k, i, short(x.String()))
			}
			if k == 0 && i > 0 && !(ok && rule(x)) {
				t.Failf("separator", "piece %d does not begin with a match but with %q", i, short(stringItem(it)))
			}
		}
		if again := n.d.SplitByParagraph(rule); len(again) != 1 {
			t.Failf("separator", "splitting piece %d again gives %d pieces", i, len(again))
		}
	}
}

func c13(t *pbt.T) {
	w := newWorld(t)
	w.wSplit = 8
	w.run(t.Int(2, 4+t.Size/8))
	if w.Splits > 0 {
		t.NonTrivial()
	}
}
