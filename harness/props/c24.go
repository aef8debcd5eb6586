package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C24",
		Level: "exploration",
		Rule:  "the command-line tool is run as a process on built and foreign documents in scratch folders with all kinds of names, with any combination of its flags; its output and every file it writes are compared with an independent reading of the input; non-trivial: a flag besides -a is given and the document has at least two body items",
		Subs: []pbt.Sub{
			{Name: "analyze", Quick: 900, Weight: 3, Fn: c24analyze},
			{Name: "sample", Quick: 40, Fn: c24sample},
			{Name: "faults", Quick: 250, Fn: c24faults},
		},
	})
}

// tool runs the command-line tool.
func tool(t *pbt.T, dir string, args ...string) (string, error) {
	cmd := exec.Command(filepath.Join(Scratch, "docxcmd"), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		t.Discard()
	}
	tm := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	defer tm.Stop()
	if err := cmd.Wait(); err != nil {
		return out.String(), fmt.Errorf("%v: %s", err, short(errb.String()))
	}
	return out.String(), nil
}

// listing is all files below a folder.
func listing(dir string) map[string][]byte {
	m := map[string][]byte{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			m[r] = b
		}
		return nil
	})
	return m
}

// dropNoPic drops the drawings without a picture from a brief body.
func dropNoPic(l []*oox.C) {
	for _, c := range l {
		if c.Name == "w:r" {
			var kids []*oox.C
			for _, k := range c.Kids {
				if k.Name == "drawing" && k.At["kind"] != "pic" {
					continue
				}
				kids = append(kids, k)
			}
			c.Kids = kids
			continue
		}
		dropNoPic(c.Kids)
	}
}

// dropPPr drops the properties of the paragraphs of body and cells.
func dropPPr(l []*oox.C) {
	for _, c := range l {
		switch c.Name {
		case "w:p":
			var kids []*oox.C
			for _, k := range c.Kids {
				if k.Name != "w:pPr" {
					kids = append(kids, k)
				}
			}
			c.Kids = kids
		case "w:tbl", "w:tr", "w:tc":
			dropPPr(c.Kids)
		}
	}
}

func stripNames(l []*oox.C) []*oox.C {
	var out []*oox.C
	var strip func(c *oox.C)
	strip = func(c *oox.C) {
		if c.Name == "wp:docPr" || strings.HasSuffix(c.Name, ":cNvPr") {
			delete(c.At, "id")
			delete(c.At, "name")
		}
		for _, k := range c.Kids {
			strip(k)
		}
	}
	for _, c := range l {
		c = c.Clone()
		strip(c)
		out = append(out, c.Norm())
	}
	return out
}

func c24analyze(t *pbt.T) {
	var data []byte
	if t.Bool() {
		b := newB(t)
		for n := t.Int(0, 4+t.Size/6); n > 0; n-- {
			b.step()
		}
		data = save(t, b.d)
	} else {
		data = foreign(t, nil, t.Bool(), nil).Zip
	}
	in := open(t, data)
	brief, whole := in.Body(oox.Opt{Brief: true}), in.Body(oox.Opt{})

	dir := filepath.Join(Scratch, "c24-"+strconv.FormatUint(t.Draw(1<<62), 36))
	defer os.RemoveAll(dir)
	folder := pbt.Pick(t, "", "", "a", "a.b", "a/b.c/d", "dir with blank", "文")
	base := pbt.Pick(t, "f", "file", "a b", "x.y", "文档", "unmarshal_f", "dup_x", "-f")
	ext := pbt.Pick(t, ".docx", ".docx", "", ".zip", ".d.ocx")
	name := filepath.Join(folder, base+ext)
	if ext == ".d.ocx" { // the extension is what follows the last dot
		base, ext = base+".d", ".ocx"
	}
	if ext == "" {
		if i := strings.LastIndexByte(base, '.'); i >= 0 {
			base, ext = base[:i], base[i:]
		}
	}
	if os.MkdirAll(filepath.Join(dir, folder), 0o755) != nil || os.WriteFile(filepath.Join(dir, name), data, 0o644) != nil {
		t.Discard()
	}
	defer os.RemoveAll(dir)
	f := name
	switch t.Int(0, 3) {
	case 1:
		f = filepath.Join(dir, name)
	case 2:
		f = "./" + name
	}
	args := []string{"-a", "-f=" + f}
	clean, drop, unm := t.Chance(1, 3), t.Chance(1, 3), t.Chance(1, 2)
	if clean {
		args = append(args, "-c")
		var cnt [2]int
		dropNoPic(brief)
		dropBody(whole, dropKinds["NilPicture"], &cnt)
	}
	if drop {
		args = append(args, "-p")
		dropPPr(brief)
		dropPPr(whole)
	}
	whole, brief = norm(whole, true), norm(brief, true)
	if unm {
		args = append(args, "-u")
	}
	expr, dup := "", 0
	var texts []string
	for _, c := range brief {
		if c.Name == "w:p" {
			texts = append(texts, plainPara(c))
		}
	}
	at := []int{}
	if t.Chance(1, 2) {
		re := regex(t, texts)
		expr = re.String()
		if expr != "" && !strings.ContainsRune(expr, 0) {
			args = append(args, "-s="+expr)
			for i, c := range brief {
				if i == 0 || c.Name == "w:p" && re.MatchString(plainPara(c)) {
					at = append(at, i)
				}
			}
		} else {
			expr = ""
		}
	}
	if t.Chance(1, 2) {
		dup = t.Int(0, 5)
		args = append(args, "-d="+itoa(dup))
	}
	if (clean || drop || unm || expr != "" || dup > 1) && len(brief) >= 2 {
		t.NonTrivial()
	}
	// leftovers of another run are replaced
	if t.Chance(1, 4) {
		for _, n := range []string{"unmarshal_" + base + ext, "unmarshal_" + base + "_split0" + ext, "dup_" + base + ext} {
			_ = os.WriteFile(filepath.Join(dir, folder, n), bytes.Repeat([]byte("old "), 5000), 0o644)
		}
	}
	had := listing(dir)
	t.Logf("%q", args)
	out, err := tool(t, dir, args...)
	if err != nil {
		t.Failf("tool-fails", "%v", err)
	}
	// printed
	var sb strings.Builder
	sb.WriteString("Plain text:\n")
	for _, c := range brief {
		if c.Name == "w:p" || c.Name == "w:tbl" {
			sb.WriteString(plainItem(c) + "\n")
		}
	}
	if !strings.Contains(out, sb.String()) {
		t.Failf("printed", "expected the output %q, got %q", short(sb.String()), short(out))
	}
	// files
	has := listing(dir)
	if !bytes.Equal(has[name], data) {
		t.Failf("input-changed", "the input file has been changed")
	}
	file := func(n string) *oox.Pkg {
		n = filepath.Join(folder, n)
		b, ok := has[n]
		delete(has, n)
		if !ok {
			var l []string
			for x := range has {
				l = append(l, x)
			}
			t.Failf("no-file", "there is no file %q, but %q", n, l)
		}
		return open(t, b)
	}
	if unm {
		p := file("unmarshal_" + base + ext)
		same(t, "unmarshal", "unmarshalled file", whole, p.Body(oox.Opt{}))
		samePassThrough(t, in, p, false)
	}
	bare := stripNames(whole)
	if expr != "" {
		for i := range at {
			hi := len(bare)
			if i+1 < len(at) {
				hi = at[i+1]
			}
			p := file("unmarshal_" + base + "_split" + itoa(i) + ext)
			same(t, "split", "piece "+itoa(i), bare[at[i]:hi], full(p))
		}
	}
	if dup > 1 {
		want := []*oox.C{oox.E("w:sectPr").Add(oox.E("w:pgSz", "w:w", "11906", "w:h", "16838"))}
		for i := 0; i < dup; i++ {
			want = append(want, bare...)
		}
		p := file("dup_" + base + ext)
		same(t, "copies", itoa(dup)+" copies", want, full(p))
	}
	delete(has, name)
	for n, b := range has {
		if old, ok := had[n]; !ok || !bytes.Equal(old, b) {
			t.Failf("more-files", "the file %q is written, too", n)
		}
	}
}

// c24sample: without -a the sample document is written first.
func c24sample(t *pbt.T) {
	dir := filepath.Join(Scratch, "c24-"+strconv.FormatUint(t.Draw(1<<62), 36))
	defer os.RemoveAll(dir)
	if os.MkdirAll(filepath.Join(dir, "testdata"), 0o755) != nil {
		t.Discard()
	}
	pics := map[string]bool{}
	for _, n := range []string{"fumiama.JPG", "fumiama2x.webp", "fumiamayoko.png"} {
		b := docgen.Image(t)
		pics[oox.Sum(b)] = true
		if os.WriteFile(filepath.Join(dir, "testdata", n), b, 0o644) != nil {
			t.Discard()
		}
	}
	f := pbt.Pick(t, "new-file.docx", "x/y.docx", "a")
	_ = os.Mkdir(filepath.Join(dir, "x"), 0o755)
	if t.Bool() {
		_ = os.WriteFile(filepath.Join(dir, f), bytes.Repeat([]byte("old"), 100000), 0o644)
	}
	args := []string{"-f", f}
	if f == "new-file.docx" && t.Bool() {
		args = nil
	}
	out, err := tool(t, dir, args...)
	if err != nil {
		t.Failf("tool-fails", "%v", err)
	}
	b, err := os.ReadFile(filepath.Join(dir, f))
	if err != nil {
		t.Failf("no-file", "%v", err)
	}
	p := open(t, b)
	var sb strings.Builder
	sb.WriteString("Plain text:\n")
	for _, c := range p.Body(oox.Opt{Brief: true}) {
		if c.Name == "w:p" || c.Name == "w:tbl" {
			sb.WriteString(plainItem(c) + "\n")
		}
	}
	if !strings.Contains(out, sb.String()) {
		t.Failf("printed", "expected the output %q, got %q", short(sb.String()), short(out))
	}
	for s := range pics {
		found := false
		for n, x := range p.Parts {
			found = found || isMedia(n) && oox.Sum(x) == s
		}
		if !found {
			t.Failf("sample", "a picture is missing in the sample document")
		}
	}
	t.NonTrivial()
}

// c24faults: what cannot be read, written or understood makes the tool fail.
func c24faults(t *pbt.T) {
	b := newB(t)
	b.addText(b.addPara())
	for n := t.Int(0, 4); n > 0; n-- {
		b.step()
	}
	data := save(t, b.d)
	p := open(t, data)
	pieces := 0
	for i, c := range p.Body(oox.Opt{Brief: true}) {
		if i == 0 || c.Name == "w:p" {
			pieces++
		}
	}
	dir := filepath.Join(Scratch, "c24-"+strconv.FormatUint(t.Draw(1<<62), 36))
	defer os.RemoveAll(dir)
	folder := pbt.Pick(t, "", "a")
	if os.MkdirAll(filepath.Join(dir, folder), 0o755) != nil {
		t.Discard()
	}
	name := filepath.Join(folder, "f.docx")
	in := data
	args := []string{"-a", "-f=" + name}
	outs := []string{}
	if t.Bool() {
		args, outs = append(args, "-u"), append(outs, "unmarshal_f.docx")
	}
	if t.Bool() {
		args = append(args, "-s=") // an empty expression is none
	} else if t.Bool() {
		args = append(args, "-s=^") // every paragraph
		for i := 0; i < pieces; i++ {
			outs = append(outs, "unmarshal_f_split"+itoa(i)+".docx")
		}
	}
	if t.Bool() {
		args, outs = append(args, "-d=2"), append(outs, "dup_f.docx")
	}
	fault := ""
	blocked := ""
	block := func(n string) { // n can be opened but not written, or not even opened
		blocked = n
		n = filepath.Join(dir, folder, n)
		var err error
		if t.Chance(1, 3) {
			err = os.Mkdir(n, 0o755)
			fault = "a folder in place of the output"
		} else {
			err = os.Symlink("/dev/full", n)
			fault = "no space for the output"
		}
		if err != nil {
			t.Discard()
		}
	}
	switch t.Int(0, 5) {
	case 0:
	case 1:
		in = data[:t.Int(0, len(data)-23)] // without the end of the directory
		fault = "cut input"
	case 2:
		in = nil
		fault = "no input"
	case 3:
		args = append(args, "-s="+pbt.Pick(t, "(", "[", "a**", "*", "\\", "(?P<", "x{2,1}"))
		fault = "no regular expression"
	default:
		if len(outs) == 0 {
			break
		}
		block(outs[t.Int(0, len(outs)-1)])
	}
	if fault != "no input" {
		if os.WriteFile(filepath.Join(dir, name), in, 0o644) != nil {
			t.Discard()
		}
	}
	t.Logf("%q: %s %s", args, fault, blocked)
	out, err := tool(t, dir, args...)
	if (err != nil) != (fault != "") {
		t.Failf("exit", "%s %s: the tool exits with %v", fault, blocked, err)
	}
	if fault != "" && strings.Contains(out, "End of main") {
		t.Failf("exit", "%s %s: the tool claims to be at its end", fault, blocked)
	}
	has := listing(dir)
	if !bytes.Equal(has[name], in) {
		t.Failf("input-changed", "the input file has been changed")
	}
	if fault == "" {
		for _, n := range outs {
			if _, ok := has[filepath.Join(folder, n)]; !ok {
				t.Failf("no-file", "there is no file %q", n)
			}
		}
	}
	if blocked != "" {
		t.NonTrivial()
	}
}
