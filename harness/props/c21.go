package props

import (
	"bytes"
	"runtime"
	"strings"
	"sync"

	docx "github.com/fumiama/go-docx"

	"verif/oox"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C21",
		Level: "exploration",
		Race:  true,
		Rule:  "the harness runs with the race detector; counters are asked by several goroutines released together, programs on different documents are run one after the other and then all at once, and one document is saved, rendered and queried by several goroutines; non-trivial: at least two goroutines really work on something with at least two paragraphs, or ask for a name of another one",
		Assumptions: []string{
			"schedules are those the Go scheduler produces on this machine, widened by yields; the race detector reports unordered accesses also when they do no harm in the schedule at hand",
		},
		Subs: []pbt.Sub{
			{Name: "counter", Quick: 300, Weight: 2, Workers: 4, Fn: c21counter},
			{Name: "documents", Quick: 110, Weight: 2, Workers: 3, Fn: c21documents},
			{Name: "one-document", Quick: 150, Weight: 2, Workers: 3, Fn: c21one},
		},
	})
}

// together runs functions at the same time; the first failure counts.
func together(t *pbt.T, fns ...func() *pbt.Failure) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	fails := make([]*pbt.Failure, len(fns))
	for i, f := range fns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			fails[i] = f()
		}()
	}
	close(start)
	wg.Wait()
	for i, f := range fails {
		if f != nil {
			t.Failf("concurrent:"+f.Kind, "goroutine %d of %d: %s", i, len(fns), f.Msg)
		}
	}
}

// guard turns panics into failures.
func guard(like *pbt.T, f func()) *pbt.Failure {
	return pbt.Again(nil, like, func(*pbt.T) { f() })
}

func c21counter(t *pbt.T) {
	d := docx.New()
	k := t.Int(2, 8)
	names := []string{"a", "图片", "", "b", "A", " a", "a ", "1", "a1"}[:t.Int(1, 9)]
	each := t.Int(1, 20+2*t.Size)
	if t.Chance(1, 8) { // many names
		for n := t.Int(10, 400); n > 0; n-- {
			names = append(names, "name "+itoa(n))
		}
		each = 3 * len(names)
	}
	plans := make([][]string, k)
	total := map[string]int{}
	users := map[string]int{}
	for i := range plans {
		mine := map[string]bool{}
		for n := each; n > 0; n-- {
			nm := pbt.Pick(t, names...)
			plans[i] = append(plans[i], nm)
			total[nm]++
			mine[nm] = true
		}
		for nm := range mine {
			users[nm]++
		}
	}
	yield := t.Bool()
	got := make([][]uintptr, k)
	var fns []func() *pbt.Failure
	for i := range plans {
		got[i] = make([]uintptr, len(plans[i]))
		fns = append(fns, func() *pbt.Failure {
			return guard(t, func() {
				for j, n := range plans[i] {
					got[i][j] = d.IncreaseID(n)
					if yield && j%3 == i%3 {
						runtime.Gosched()
					}
				}
			})
		})
	}
	t.Logf("%d goroutines ask for %v", k, total)
	together(t, fns...)
	for n, c := range users {
		if c >= 2 {
			t.NonTrivial()
		}
		seen := make([]bool, total[n]+1)
		for i := range plans {
			last := uintptr(0)
			for j, x := range plans[i] {
				if x != n {
					continue
				}
				v := got[i][j]
				if v < 1 || v > uintptr(total[n]) {
					t.Failf("counter", "of %d requests for %q one got %d", total[n], n, v)
				}
				if seen[v] {
					t.Failf("counter", "the number %d of %q was given out twice", v, n)
				}
				if v <= last {
					t.Failf("counter", "a goroutine got %d of %q after %d", v, n, last)
				}
				seen[v], last = true, v
			}
		}
	}
}

// parts of a package as one string.
func partsString(t *pbt.T, data []byte) string {
	p := openZip(t, data)
	var sb strings.Builder
	for _, n := range p.Names {
		sb.WriteString(n + "\n" + oox.Sum(p.Parts[n]) + "\n")
		if n == oox.DocPart || n == oox.RelsPart {
			sb.Write(p.Parts[n])
			sb.WriteByte('\n')
		}
	}
	return sb.String()
}

// c21job is a program of its own; what it sees is returned.
func c21job(t *pbt.T) string {
	var out strings.Builder
	var d *docx.Docx
	if t.Chance(1, 3) {
		in := foreign(t, nil, true, nil)
		d = parse(t, in.Zip)
	} else {
		b := newB(t)
		for n := t.Int(2, 4+t.Size/8); n > 0; n-- {
			b.step()
			runtime.Gosched()
		}
		d = b.d
	}
	out.WriteString(plainAll(d))
	for n := t.Int(1, 4); n > 0; n-- {
		switch t.Int(0, 5) {
		case 0:
			data := save(t, d)
			out.WriteString(partsString(t, data))
			d = parse(t, data)
		case 1:
			for _, p := range paragraphs(d) {
				m := p.MergeText(docx.MergeSamePropRuns)
				out.WriteString(m.String() + "\n")
			}
		case 2:
			for _, x := range d.SplitByParagraph(func(p *docx.Paragraph) bool { return len(p.Children)%2 == 1 }) {
				out.WriteString(partsString(t, save(t, x)))
			}
		case 3:
			e := withTemplate(docx.New())
			e.AppendFile(d)
			out.WriteString(partsString(t, save(t, e)))
		case 4:
			d.Document.Body.DropDrawingOf(dropName(t))
		case 5:
			out.WriteString(state(d))
		}
		runtime.Gosched()
	}
	out.WriteString(partsString(t, save(t, d)))
	return out.String()
}

func c21documents(t *pbt.T) {
	k := t.Int(2, 4)
	choices := make([][]uint64, k)
	want := make([]string, k)
	for i := range choices {
		t.Logf("program %d", i)
		choices[i] = t.Span(func(t *pbt.T) { want[i] = c21job(t) })
	}
	twice := t.Bool() // the same program twice at once
	var fns []func() *pbt.Failure
	for i := range choices {
		run := func() *pbt.Failure {
			return pbt.Again(choices[i], t, func(c *pbt.T) {
				if got := c21job(c); got != want[i] {
					c.Failf("differs", "program %d gives something else at the same time as others: %s", i, oox.DiffText(want[i], got))
				}
			})
		}
		fns = append(fns, run)
		if twice {
			fns = append(fns, run)
		}
	}
	together(t, fns...)
	t.NonTrivial()
}

// c21one reads one document from several goroutines.
func c21one(t *pbt.T) {
	d := someDoc(t)
	t.Logf("%d body items", len(d.Document.Body.Items))
	wantParts, wantState := partsString(t, save(t, d)), state(d)
	if len(d.Document.Body.Items) >= 2 {
		t.NonTrivial()
	}
	type named struct {
		n string
		c uintptr
	}
	fresh := "c21 " + pbt.Pick(t, "x", "y")
	ids := make(chan named, 64)
	var fns []func() *pbt.Failure
	for k := t.Int(2, 5); k > 0; k-- {
		var ops []int
		for n := t.Int(1, 3); n > 0; n-- {
			ops = append(ops, t.Weighted(4, 3, 2, 1))
		}
		fns = append(fns, func() *pbt.Failure {
			return pbt.Again(nil, t, func(c *pbt.T) {
				for _, op := range ops {
					switch op {
					case 0:
						var buf bytes.Buffer
						if _, err := d.WriteTo(&buf); err != nil {
							c.Failf("save-error", "WriteTo: %v", err)
						}
						if s := partsString(c, buf.Bytes()); s != wantParts {
							c.Failf("saved", "the document saved at the same time differs: %s", oox.DiffText(wantParts, s))
						}
					case 1:
						if s := state(d); s != wantState {
							c.Failf("rendered", "the document rendered at the same time differs: %s", oox.DiffText(wantState, s))
						}
					case 2:
						_ = d.RangeRelationships(func(r *docx.Relationship) error {
							if x, err := d.ReferTarget(r.ID); err != nil {
								c.Failf("lookup", "relationship %q: %v", r.ID, err)
							} else if _, err := d.ReferID(x); err != nil {
								c.Failf("lookup", "target %q: %v", x, err)
							}
							return nil
						})
						_ = d.Media("image1.png")
					case 3:
						ids <- named{fresh, d.IncreaseID(fresh)}
					}
				}
			})
		})
	}
	together(t, fns...)
	close(ids)
	seen := map[uintptr]bool{}
	for x := range ids {
		if seen[x.c] {
			t.Failf("counter", "the number %d of %q was given out twice", x.c, x.n)
		}
		seen[x.c] = true
	}
	if s := partsString(t, save(t, d)); s != wantParts {
		t.Failf("changed", "the document has changed: %s", oox.DiffText(wantParts, s))
	}
}
