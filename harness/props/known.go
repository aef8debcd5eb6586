package props

import (
	"bytes"
	"fmt"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
)

// fixed inputs of recorded findings

func miniZip(body string, rels []oox.Rel, more ...docgen.Part) []byte {
	parts := []docgen.Part{
		{Name: oox.CTPart, Data: []byte(`<Types xmlns="` + oox.CT + `"><Default Extension="xml" ContentType="application/xml"/></Types>`)},
		{Name: oox.DocPart, Data: []byte(`<w:document xmlns:w="` + oox.W + `" xmlns:r="` + oox.R + `" xmlns:wp="` + oox.WP + `" xmlns:a="` + oox.A + `" xmlns:pic="` + oox.PIC + `" xmlns:wps="` + oox.WPS + `"><w:body>` + body + `</w:body></w:document>`)},
		{Name: oox.RelsPart, Data: docgen.RelsXML(rels)},
	}
	return docgen.WriteZip(append(parts, more...), false, false)
}

func roundTrip(in []byte) (want, got []*oox.C, err error) {
	a, err := oox.Open(in)
	if err != nil {
		return nil, nil, err
	}
	d, err := docx.Parse(bytes.NewReader(in), int64(len(in)))
	if err != nil {
		return nil, nil, err
	}
	var b bytes.Buffer
	if _, err = d.WriteTo(&b); err != nil {
		return nil, nil, err
	}
	o, err := oox.Open(b.Bytes())
	if err != nil {
		return nil, nil, err
	}
	return a.Body(oox.Opt{}), o.Body(oox.Opt{}), nil
}

func knownBody(body string, rels ...oox.Rel) func() error {
	return func() error {
		w, g, err := roundTrip(miniZip(body, rels))
		if err != nil {
			return err
		}
		if d := oox.Diff(w, g); d != "" {
			return fmt.Errorf("%s", d)
		}
		return nil
	}
}

func knownK1(string) pbt.Known {
	return pbt.Known{ID: "K1", What: "a number of paragraph or run spacing given as 0 is not saved", Fn: knownBody(`<w:p><w:pPr><w:spacing w:before="0" w:line="240"/></w:pPr></w:p>`)}
}

var knownK2 = pbt.Known{ID: "K2", What: "a hyperlink of two runs is saved with one run", Fn: knownBody(`<w:p><w:hyperlink r:id="rId1"><w:r><w:t>a</w:t></w:r><w:r><w:t>b</w:t></w:r></w:hyperlink></w:p>`, oox.Rel{ID: "rId1", Type: oox.RLnk, Target: "http://a", Mode: "External"})}
