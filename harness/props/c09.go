package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"time"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C09",
		Level: "fault_enumeration",
		Rule:  "a built or parsed document is saved to a destination that fails or writes short at a position or call, or from template files that cannot be opened or read; the save must fail, leave the document as it was and succeed with an equal package afterwards; non-trivial: the fault really happened",
		Subs: []pbt.Sub{
			{Name: "writer", Quick: 2500, Weight: 2, Fn: c09writer},
			{Name: "writer-everywhere", Quick: 60, Fn: c09every},
			{Name: "template", Quick: 2500, Weight: 2, Fn: c09template},
			{Name: "source", Quick: 1500, Fn: c09source},
			wideSub("long", 40, c09long),
		},
	})
}

var errFault = errors.New("no space left")

// faultWriter fails at a byte or call.
type faultWriter struct {
	buf   bytes.Buffer
	calls int
	limit int // bytes it takes, -1 for all
	at    int // call at which it fails, 0 for none
	short bool
	once  bool
	hit   bool
	err   error // the error it gives, errFault if not set
}

func (w *faultWriter) fault() error {
	if w.err == nil {
		return errFault
	}
	return w.err
}

// someFault is an error of any kind.
func someFault(t *pbt.T) error {
	return pbt.Pick[error](t, errFault, io.ErrUnexpectedEOF, io.EOF, io.ErrShortWrite, io.ErrClosedPipe, fs.ErrNotExist, fs.ErrClosed, &fs.PathError{Op: "write", Path: "x", Err: fs.ErrPermission}, fmt.Errorf("wrapped: %w", io.EOF))
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.at > 0 && (w.calls == w.at || !w.once && w.calls > w.at) && len(p) > 0 {
		w.hit = true
		n := len(p) / 2
		if w.calls%2 == 0 {
			n = 0
		}
		w.buf.Write(p[:n])
		if w.short {
			return n, nil
		}
		return n, w.fault()
	}
	if w.limit >= 0 && w.buf.Len()+len(p) > w.limit && !(w.once && w.hit) {
		n := w.limit - w.buf.Len()
		if n < 0 {
			n = 0
		}
		w.hit = true
		w.buf.Write(p[:n])
		if w.short {
			return n, nil
		}
		return n, w.fault()
	}
	return w.buf.Write(p)
}

// sameParts compares two saved packages part by part.
func sameParts(t *pbt.T, kind, what string, a, b []byte) {
	pa, err := oox.OpenZip(a)
	if err != nil {
		t.Failf(kind, "%s: %v", what, err)
	}
	pb, err := oox.OpenZip(b)
	if err != nil {
		t.Failf(kind, "%s: %v", what, err)
	}
	samePartsOf(t, kind, what, pa, pb)
}

func samePartsOf(t *pbt.T, kind, what string, pa, pb *oox.Pkg) {
	for _, n := range pa.Names {
		x, ok := pb.Parts[n]
		if !ok {
			t.Failf(kind, "%s: part %q is missing", what, n)
		}
		if !bytes.Equal(pa.Parts[n], x) {
			t.Failf(kind, "%s: part %q differs: %s", what, n, oox.DiffText(string(pa.Parts[n]), string(x)))
		}
	}
	for _, n := range pb.Names {
		if _, ok := pa.Parts[n]; !ok {
			t.Failf(kind, "%s: there is an additional part %q", what, n)
		}
	}
}

// state of a document as far as it can be seen without saving.
func state(d *docx.Docx) string {
	var b bytes.Buffer
	b.WriteString(plainAll(d))
	_ = d.RangeRelationships(func(r *docx.Relationship) error {
		fmt.Fprintf(&b, "%+v\n", *r)
		if i := len("media/"); len(r.Target) > i {
			if m := d.Media(r.Target[i:]); m != nil {
				b.WriteString(oox.Sum(m.Data) + "\n")
			}
		}
		return nil
	})
	return b.String()
}

// someDoc is any document.
func someDoc(t *pbt.T) *docx.Docx {
	if t.Bool() {
		b := newB(t)
		for n := t.Int(0, 4+t.Size/8); n > 0; n-- {
			b.step()
		}
		return b.d
	}
	in := foreign(t, nil, t.Bool(), nil)
	d := parse(t, in.Zip)
	if t.Bool() {
		b := wrapB(t, d, nil)
		for n := t.Int(1, 4); n > 0; n-- {
			c04edit(b)
		}
	}
	return d
}

func (w *faultWriter) String() string {
	return fmt.Sprintf("limit %d bytes, call %d, short=%v, once=%v", w.limit, w.at, w.short, w.once)
}

func c09try(t *pbt.T, d *docx.Docx, ref []byte, st string, w *faultWriter) {
	if w.short { // a writer that never takes anything and gives no error is not a writer
		w.once = true
	}
	n, err := d.WriteTo(w)
	if err == nil && n != int64(w.buf.Len()) {
		t.Failf("count", "saving reports %d bytes written, the destination got %d", n, w.buf.Len())
	}
	// bytes not taken by a short write may be offered again, which makes it complete
	if w.hit && err == nil && !w.short {
		t.Failf("quiet", "the destination failed (%v), but saving gives no error", w)
	}
	if err == nil {
		sameParts(t, "incomplete", "saved without error", ref, w.buf.Bytes())
	} else if !w.hit {
		t.Failf("error", "nothing failed, but saving gives the error %v", err)
	}
	if s := state(d); s != st {
		t.Failf("changed", "the failed save changed the document: %s", oox.DiffText(st, s))
	}
	if w.hit {
		t.NonTrivial()
	}
}

func c09writer(t *pbt.T) {
	d := someDoc(t)
	ok := &faultWriter{limit: -1}
	if n, err := io.Copy(ok, d); err != nil {
		t.Failf("save-error", "io.Copy: %v", err)
	} else if n != int64(ok.buf.Len()) {
		t.Failf("count", "copying reports %d bytes written, the destination got %d", n, ok.buf.Len())
	}
	ref, st := ok.buf.Bytes(), state(d)
	for k := t.Int(1, 4); k > 0; k-- {
		w := &faultWriter{limit: -1, short: t.Bool(), once: t.Bool(), err: someFault(t)}
		switch t.Int(0, 3) {
		case 0:
			w.limit = t.Int(0, len(ref)-1)
		case 1: // near the end: the directory
			w.limit = len(ref) - 1 - t.Int(0, min(len(ref)-1, 300))
		case 2:
			w.at = t.Int(1, ok.calls)
		default:
			w.at = ok.calls - t.Int(0, min(ok.calls-1, 3))
		}
		t.Logf("%v of %d bytes, %d calls", w, len(ref), ok.calls)
		c09try(t, d, ref, st, w)
	}
	sameParts(t, "retry", "saved after failures", ref, save(t, d))
}

func c09every(t *pbt.T) {
	t.Size /= 8
	d := someDoc(t)
	ok := &faultWriter{limit: -1}
	if _, err := d.WriteTo(ok); err != nil {
		t.Failf("save-error", "WriteTo: %v", err)
	}
	ref, st := ok.buf.Bytes(), state(d)
	step := max(1, len(ref)/40)
	for i := t.Int(0, step-1); i < len(ref); i += step {
		c09try(t, d, ref, st, &faultWriter{limit: i, short: t.Bool(), once: t.Bool(), err: someFault(t)})
	}
	for i := 1; i <= min(ok.calls, 80); i++ {
		c09try(t, d, ref, st, &faultWriter{limit: -1, at: i, short: i%2 == 0, once: true})
	}
	sameParts(t, "retry", "saved after failures", ref, save(t, d))
}

// memFS is a template in memory which counts and fails.
type memFS struct {
	files  map[string][]byte
	opened int
	closed int
	log    []string
	// faults
	failOpen, failRead string
	failErr            error
	both               bool // failErr comes with the last bytes
	bare               bool // failErr is given by reading as it is
	after              int
	armed              bool
	hit                bool
	asked              map[string]int
	chunk              int
}

type memFile struct {
	fs     *memFS
	name   string
	data   []byte
	pos    int
	closed bool
	bad    bool
}

func (m *memFS) Open(name string) (fs.File, error) {
	if m.asked == nil {
		m.asked = map[string]int{}
	}
	m.asked[name]++
	if m.armed && name == m.failOpen {
		m.hit = true
		return nil, &fs.PathError{Op: "open", Path: name, Err: m.failErr}
	}
	d, ok := m.files[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	m.opened++
	return &memFile{fs: m, name: name, data: d, bad: m.armed && name == m.failRead}, nil
}

func (f *memFile) Stat() (fs.FileInfo, error) { return memInfo{f.name, int64(len(f.data))}, nil }
func (f *memFile) Close() error {
	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	f.fs.closed++
	return nil
}

func (f *memFile) Read(p []byte) (int, error) {
	if f.closed {
		return 0, fs.ErrClosed
	}
	if f.bad && f.pos >= f.fs.after {
		f.fs.hit = true
		if f.fs.bare {
			return 0, f.fs.failErr
		}
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: f.fs.failErr}
	}
	if f.pos >= len(f.data) {
		return 0, io.EOF
	}
	if c := f.fs.chunk; c > 0 && len(p) > c {
		p = p[:c]
	}
	if f.bad && len(p) > f.fs.after-f.pos {
		p = p[:f.fs.after-f.pos]
	}
	n := copy(p, f.data[f.pos:])
	f.pos += n
	if f.bad && f.pos >= f.fs.after && f.fs.both && n > 0 {
		f.fs.hit = true
		return n, f.fs.failErr
	}
	return n, nil
}

type memInfo struct {
	name string
	size int64
}

func (i memInfo) Name() string       { return i.name }
func (i memInfo) Size() int64        { return i.size }
func (i memInfo) Mode() fs.FileMode  { return 0o444 }
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return false }
func (i memInfo) Sys() any           { return nil }

// template makes a template folder and its list.
func template(t *pbt.T) (name string, list []string, m *memFS) {
	m = &memFS{files: map[string][]byte{}, chunk: pbt.Pick(t, 0, 1, 100)}
	name = pbt.Pick(t, "default", "", "mine", docgen.Word(t)+"/sub")
	pre := ""
	if name != "" {
		pre = "xml/" + name + "/"
	}
	put := func(n string, b []byte) {
		if _, ok := m.files[pre+n]; ok {
			return
		}
		list = append(list, n)
		m.files[pre+n] = b
	}
	put(oox.CTPart, []byte(`<?xml version="1.0"?><Types xmlns="`+oox.CT+`"><Default Extension="xml" ContentType="application/xml"/><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/></Types>`))
	put("_rels/.rels", []byte(`<Relationships xmlns="`+oox.REL+`"/>`))
	put("word/styles.xml", []byte("<styles/>"))
	put("word/theme/theme1.xml", []byte("<theme/>"))
	put("word/fontTable.xml", []byte("<fonts/>"))
	for k := 0; t.More(k, 6, 2); k++ {
		put(pbt.Pick(t, "word/", "docProps/", "", "customXml/")+docgen.Word(t)+pbt.Pick(t, ".xml", ".bin", ""), docgen.Bytes(t))
	}
	// files of the folder that are not listed, and files elsewhere
	for k := 0; t.More(k, 3, 1); k++ {
		n := pre + "extra/" + docgen.Word(t) + ".xml"
		m.files[n] = docgen.Bytes(t)
	}
	m.files["xml/other/word/styles.xml"] = []byte("<other/>")
	for i := len(list) - 1; i > 0; i-- {
		j := t.Int(0, i)
		list[i], list[j] = list[j], list[i]
	}
	return
}

func c09template(t *pbt.T) {
	b := newB(t)
	for n := t.Int(0, 6); n > 0; n-- {
		b.step()
	}
	name, list, m := template(t)
	pre := ""
	if name != "" {
		pre = "xml/" + name + "/"
	}
	d := b.d.UseTemplate(name, list, m)
	ref, st := save(t, d), state(d)
	for k := t.Int(1, 3); k > 0; k-- {
		f := list[t.Int(0, len(list)-1)]
		m.failOpen, m.failRead, m.hit, m.armed = "", "", false, true
		m.failErr = pbt.Pick(t, errFault, fs.ErrPermission, fs.ErrNotExist, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe)
		m.bare, m.both = t.Bool(), t.Chance(1, 3)
		var w faultWriter
		w.limit = -1
		gone := false
		switch t.Int(0, 2) {
		case 0:
			m.failOpen = pre + f
			t.Logf("%q cannot be opened: %v", m.failOpen, m.failErr)
		case 1:
			m.failRead = pre + f
			m.after = 0
			if n := len(m.files[pre+f]); n > 0 {
				m.after = t.Int(0, n-1)
			}
			t.Logf("%q cannot be read after %d bytes: %v", m.failRead, m.after, m.failErr)
		default:
			gone = true
			t.Logf("%q is not listed in the file system", pre+f)
		}
		var keep []byte
		if gone {
			keep = m.files[pre+f]
			delete(m.files, pre+f)
			m.hit = true
		}
		_, err := d.WriteTo(&w)
		if gone {
			m.files[pre+f] = keep
		}
		if m.hit {
			t.NonTrivial()
			if err == nil {
				t.Failf("quiet", "template file %q cannot be read, but saving gives no error", f)
			}
		} else if err == nil {
			sameParts(t, "incomplete", "saved without error", ref, w.buf.Bytes())
		}
		m.armed = false
		if s := state(d); s != st {
			t.Failf("changed", "the failed save changed the document: %s", oox.DiffText(st, s))
		}
		if t.Bool() {
			sameParts(t, "retry", "saved after failures", ref, save(t, d))
		}
	}
	sameParts(t, "retry", "saved after failures", ref, save(t, d))
}

// c09source: the package the document was parsed from cannot be read while saving.
func c09source(t *pbt.T) {
	in := foreign(t, nil, true, nil)
	r := &faultReader{b: in.Zip, once: t.Bool(), part: t.Bool(), err: errFault}
	d, err := docx.Parse(r, int64(len(in.Zip)))
	if err != nil {
		t.Failf("parse-error", "Parse: %v", err)
	}
	n0 := r.n
	ref, st := save(t, d), state(d)
	n1 := r.n - n0
	if n1 == 0 {
		return
	}
	for k := t.Int(1, 3); k > 0; k-- {
		r.at, r.hit = r.n+t.Int(1, n1), false
		t.Logf("read %d of %d while saving fails, once=%v, partly=%v", r.at-r.n, n1, r.once, r.part)
		var b bytes.Buffer
		_, err := d.WriteTo(&b)
		if r.hit {
			t.NonTrivial()
		}
		if err == nil {
			if r.hit && !r.once {
				t.Failf("quiet", "reading the original failed, but saving gives no error")
			}
			sameParts(t, "incomplete", "saved without error", ref, b.Bytes())
		} else if !r.hit {
			t.Failf("error", "nothing failed, but saving gives the error %v", err)
		}
		r.at = 0
		if s := state(d); s != st {
			t.Failf("changed", "the failed save changed the document: %s", oox.DiffText(st, s))
		}
	}
	sameParts(t, "retry", "saved after failures", ref, save(t, d))
}
