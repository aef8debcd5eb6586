package props

import (
	"archive/zip"
	"bytes"
	"errors"
	"io"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C08",
		Level: "fault_enumeration",
		Rule:  "a random package is damaged in one way (cut short, XML cut short inside an intact zip, payload bytes of a part altered, read errors at a position or call); parsing or saving must fail, or what is saved must equal what the undamaged package gives; non-trivial: the damage hits a part or call that is really read",
		Subs: []pbt.Sub{
			{Name: "cut-package", Quick: 1500, Fn: c08cut},
			{Name: "cut-xml", Quick: 3000, Weight: 2, Fn: c08xml},
			{Name: "cut-xml-everywhere", Quick: 30, Fn: c08all},
			{Name: "altered", Quick: 3000, Weight: 2, Fn: c08alter},
			{Name: "reader", Quick: 3000, Weight: 2, Fn: c08reader},
			wideSub("long", 40, c08long),
		},
	})
}

// outcome of parsing and saving.
func outcome(r io.ReaderAt, size int64) ([]byte, error) {
	d, err := docx.Parse(r, size)
	if err != nil {
		return nil, err
	}
	var b bytes.Buffer
	if _, err = d.WriteTo(&b); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

// sameOutcome: the damaged package was accepted, so it must give the same.
func sameOutcome(t *pbt.T, what string, want *oox.Pkg, got []byte) {
	g, err := oox.Open(got)
	if err != nil {
		t.Failf("quiet", "%s: no error, but what is saved cannot be read: %v", what, err)
	}
	if d := oox.Diff(want.Body(oox.Opt{}), g.Body(oox.Opt{})); d != "" {
		t.Failf("quiet", "%s: no error, but the content differs: %s", what, d)
	}
	for _, n := range want.Names {
		if n == oox.DocPart || n == oox.RelsPart {
			continue
		}
		if !bytes.Equal(want.Parts[n], g.Parts[n]) {
			t.Failf("quiet-part", "%s: no error, but part %q differs", what, n)
		}
	}
	if len(want.Names) != len(g.Names) {
		t.Failf("quiet-part", "%s: no error, but there are %d parts and not %d", what, len(g.Names), len(want.Names))
	}
	for _, r := range want.Rels {
		if g.ByID[r.ID] != r {
			t.Failf("quiet-rel", "%s: no error, but relationship %+v became %+v", what, r, g.ByID[r.ID])
		}
	}
}

func c08base(t *pbt.T, extra bool) (*docgen.Package, *oox.Pkg) {
	in := foreign(t, nil, extra, nil)
	out, err := outcome(bytes.NewReader(in.Zip), int64(len(in.Zip)))
	if err != nil {
		t.Failf("refused", "the undamaged package is refused: %v", err)
	}
	return in, open(t, out)
}

func c08cut(t *pbt.T) {
	in, want := c08base(t, t.Bool())
	n := t.Int(0, len(in.Zip)-1)
	if t.Chance(1, 4) {
		n = len(in.Zip) - 1 - t.Int(0, min(len(in.Zip)-1, 400))
	}
	t.Logf("cut to %d of %d bytes", n, len(in.Zip))
	t.NonTrivial()
	size := int64(n)
	if t.Chance(1, 3) { // the size is that of the whole
		size = int64(len(in.Zip))
	}
	out, err := outcome(bytes.NewReader(in.Zip[:n]), size)
	if err != nil {
		return
	}
	sameOutcome(t, "package cut short", want, out)
}

func c08xml(t *pbt.T) {
	in, want := c08base(t, false)
	part := oox.DocPart
	if t.Chance(1, 3) {
		part = oox.RelsPart
	}
	x := in.Part(part)
	if t.Chance(1, 4) || x == nil {
		x = (&docgen.Style{SelfClose: 1}).Marshal(in.Doc)
		part = oox.DocPart
	}
	n := t.Int(0, len(x)-1)
	switch t.Int(0, 3) {
	case 1: // behind a tag
		if i := bytes.LastIndexByte(x[:n], '>'); i >= 0 {
			n = i + 1
		}
	case 2: // before the last end tags
		n = len(x) - 1 - t.Int(0, min(len(x)-1, 60))
		if i := bytes.LastIndexByte(x[:n], '>'); i >= 0 {
			n = i + 1
		}
	}
	c08one(t, in, want, part, x, n)
}

func c08one(t *pbt.T, in *docgen.Package, want *oox.Pkg, part string, x []byte, n int) {
	t.Logf("%s ends after %d of %d bytes: …%s", part, n, len(x), x[max(0, n-60):n])
	if n > 60 {
		t.NonTrivial()
	}
	var b []byte
	if part == oox.DocPart {
		b = respell(in, x[:n:n], nil)
	} else {
		b = respell(in, nil, x[:n:n])
	}
	out, err := outcome(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return
	}
	sameOutcome(t, part+" cut short", want, out)
}

// c08all cuts a small document at every byte.
func c08all(t *pbt.T) {
	t.Size = t.Size / 10
	in, want := c08base(t, false)
	for _, part := range []string{oox.DocPart, oox.RelsPart} {
		x := in.Part(part)
		if len(x) > 4000 || x == nil {
			continue
		}
		for n := range x {
			c08one(t, in, want, part, x, n)
		}
	}
}

func c08alter(t *pbt.T) {
	in, want := c08base(t, t.Bool())
	z := in.Zip
	if t.Bool() {
		z = docgen.WriteZip(in.Parts, t.Bool(), false)
	}
	zr, err := zip.NewReader(bytes.NewReader(z), int64(len(z)))
	if err != nil {
		t.Failf("harness", "%v", err)
	}
	var files []*zip.File
	for _, f := range zr.File {
		if f.CompressedSize64 > 0 && !strings.HasSuffix(f.Name, "/") {
			files = append(files, f)
		}
	}
	f := files[t.Int(0, len(files)-1)]
	if t.Bool() { // the generated parts
		for _, x := range files {
			if x.Name == pbt.Pick(t, oox.DocPart, oox.RelsPart) {
				f = x
			}
		}
	}
	off, err := f.DataOffset()
	if err != nil {
		t.Failf("harness", "%v", err)
	}
	b := append([]byte(nil), z...)
	n := int(f.CompressedSize64)
	for k := 0; k == 0 || t.More(k, 5, 1); k++ {
		i := t.Int(0, n-1)
		switch t.Int(0, 2) {
		case 0:
			b[int(off)+i] ^= 1 << t.Int(0, 7)
		case 1:
			b[int(off)+i] = byte(t.Int(0, 255))
		default:
			for j := i; j < min(n, i+16); j++ {
				b[int(off)+j] = 0
			}
		}
	}
	t.Logf("bytes of %s altered (stored: %v)", f.Name, f.Method == zip.Store)
	if !bytes.Equal(b, z) {
		t.NonTrivial()
	}
	t.Label(map[bool]string{true: "generated", false: "other"}[f.Name == oox.DocPart || f.Name == oox.RelsPart])
	out, err := outcome(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return
	}
	sameOutcome(t, "bytes of "+f.Name+" altered", want, out)
}

// faultReader fails at a call or for a range of bytes.
type faultReader struct {
	b      []byte
	n, at  int
	once   bool
	lo, hi int64
	part   bool
	hit    bool
	err    error
}

func (r *faultReader) ReadAt(p []byte, off int64) (int, error) {
	r.n++
	fail := r.at > 0 && (r.n == r.at || !r.once && r.n > r.at)
	if r.hi > r.lo && off < r.hi && off+int64(len(p)) > r.lo && !(r.once && r.hit) {
		fail = true
	}
	if !fail {
		return bytes.NewReader(r.b).ReadAt(p, off)
	}
	r.hit = true
	if r.part && len(p) > 1 {
		n, _ := bytes.NewReader(r.b).ReadAt(p[:len(p)/2], off)
		return n, r.err
	}
	return 0, r.err
}

func c08reader(t *pbt.T) {
	in, want := c08base(t, t.Bool())
	// how many reads there are
	cnt := &faultReader{b: in.Zip}
	if _, err := outcome(cnt, int64(len(in.Zip))); err != nil {
		t.Failf("harness", "%v", err)
	}
	r := &faultReader{b: in.Zip, once: t.Bool(), part: t.Bool(), err: pbt.Pick(t, errors.New("read failed"), io.ErrUnexpectedEOF, io.EOF)}
	if t.Bool() {
		r.at = t.Int(1, cnt.n)
		t.Logf("read %d of %d fails, once=%v, partly=%v: %v", r.at, cnt.n, r.once, r.part, r.err)
	} else {
		r.lo = int64(t.Int(0, len(in.Zip)-1))
		r.hi = r.lo + int64(t.Int(1, 200))
		t.Logf("bytes %d to %d of %d cannot be read, once=%v: %v", r.lo, r.hi, len(in.Zip), r.once, r.err)
	}
	out, err := outcome(r, int64(len(in.Zip)))
	if r.hit {
		t.NonTrivial()
	}
	if err != nil {
		if !r.hit {
			t.Failf("error", "nothing failed, but there is an error: %v", err)
		}
		return
	}
	sameOutcome(t, "failing reader", want, out)
}
