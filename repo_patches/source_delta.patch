From 2096e2b55f680992a1b5e8b4d7c1ffcceff9c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:04 +0000
Subject: [PATCH 01/55] fix: keep all character data of a text element

A comment, processing instruction or CDATA section splits the text of <w:t>
into several tokens, of which only the last one was kept.
---
 structtext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structtext.go b/structtext.go
index 5dc4796..1cf0892 100644
--- a/structtext.go
+++ b/structtext.go
@@ -136,7 +136,7 @@ func (r *Text) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 
 		if tt, ok := t.(xml.CharData); ok {
-			r.Text = string(tt) // implicitly copy
+			r.Text += string(tt) // text may come in several tokens
 		}
 	}
 
-- 
2.43.0


From 3cc3ef6aae59fc69bb71c3a1f309552c88d03ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 02/55] fix: read the numbering of a paragraph

<w:numPr> was written but skipped on parsing, so numbered paragraphs lost
their numbering when a document was reopened.
---
 structpara.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structpara.go b/structpara.go
index 8b5d31e..7962184 100644
--- a/structpara.go
+++ b/structpara.go
@@ -73,6 +73,13 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 					return err
 				}
 				p.Spacing = &value
+			case "numPr":
+				var value NumProperties
+				err = d.DecodeElement(&value, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
+				p.NumProperties = &value
 			case "ind":
 				var value Ind
 				err = d.DecodeElement(&value, &tt)
-- 
2.43.0


From 88ebb714d1839979209b2e809a3e3adf6d3be0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 03/55] fix: report errors of the last writes of a saved
 package

The zip writer buffers its output and writes the central directory on
closing, but the error of Close was thrown away.
---
 docx.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/docx.go b/docx.go
index c7753f4..b6ff527 100644
--- a/docx.go
+++ b/docx.go
@@ -151,9 +151,12 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 // WriteTo allows to save a docx to a writer
 func (f *Docx) WriteTo(writer io.Writer) (_ int64, err error) {
 	zipWriter := zip.NewWriter(writer)
-	defer zipWriter.Close()
 
-	return 0, f.pack(zipWriter)
+	err = f.pack(zipWriter)
+	if err != nil {
+		return 0, err
+	}
+	return 0, zipWriter.Close()
 }
 
 // Read is a fake function and cannot be used
-- 
2.43.0


From 4943eca70f84be8fdd8f667263337abdca220083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 04/55] fix: save packages that contain folder entries

Folder entries of the parsed zip were listed as files to copy, which made
every later save fail.
---
 unpack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpack.go b/unpack.go
index 8b7f8a9..4c4fc36 100644
--- a/unpack.go
+++ b/unpack.go
@@ -58,6 +58,9 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 			}
 			continue
 		}
+		if strings.HasSuffix(f.Name, "/") {
+			continue // a folder, not a file
+		}
 		if strings.HasPrefix(f.Name, MEDIA_FOLDER) {
 			err = docx.parseMedia(f)
 			if err != nil {
-- 
2.43.0


From 3d5731fec86d11fcbd099dfb3ec203e20c78f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 05/55] fix: MergeText lost and moved text of mixed runs

Text following a tab, break or drawing of a merged-in run was replaced by the
last text of that run, runs were joined across links so that their order
changed, xml:space was dropped and field instructions were lost.
---
 structtext.go | 97 +++++++++++++++++++--------------------------------
 1 file changed, 36 insertions(+), 61 deletions(-)

diff --git a/structtext.go b/structtext.go
index 1cf0892..6def188 100644
--- a/structtext.go
+++ b/structtext.go
@@ -245,70 +245,45 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 	np = *p
 	np.Children = make([]interface{}, 0, 64)
 	for _, c := range p.Children {
-		switch o := c.(type) {
-		case *Run:
+		o, ok := c.(*Run)
+		if !ok {
+			prevrun = nil // runs on both sides of another element are not contiguous
+			np.Children = append(np.Children, c)
+			continue
+		}
+		// a field instruction is written ahead of the children of its run,
+		// so that it cannot be moved into the previous run
+		if prevrun == nil || o.InstrText != "" || !canmerge(prevrun, o) {
 			r := *o
 			r.Children = make([]interface{}, 0, 16)
-			t := &Text{}
-			for _, c := range o.Children {
-				switch x := c.(type) {
-				case *Text:
-					if x.Text != "" {
-						t.Text += x.Text
-					}
-				default:
-					if t.Text != "" {
-						r.Children = append(r.Children, t)
-						t = &Text{}
-					}
-					r.Children = append(r.Children, x)
-				}
-			}
-			if t.Text != "" {
-				r.Children = append(r.Children, t)
-			}
-			if prevrun != nil && canmerge(prevrun, &r) {
-				var prevtext *Text
-				noappend := false
-				if len(prevrun.Children) == 0 {
-					prevtext = &Text{}
-				} else {
-					i := len(prevrun.Children) - 1
-					if t, ok := prevrun.Children[i].(*Text); ok {
-						prevtext = t
-						noappend = true
-					} else {
-						prevtext = &Text{}
-					}
-				}
-				for _, c := range r.Children {
-					switch x := c.(type) {
-					case *Text:
-						if x.Text != "" {
-							prevtext.Text += x.Text
-						}
-					default:
-						if prevtext.Text != "" {
-							if noappend {
-								noappend = false
-							} else {
-								prevrun.Children = append(prevrun.Children, t)
-							}
-							prevtext = &Text{}
-						}
-						prevrun.Children = append(prevrun.Children, x)
-					}
-				}
-				if prevtext.Text != "" && !noappend {
-					prevrun.Children = append(prevrun.Children, t)
-				}
-			} else {
-				prevrun = &r
-				np.Children = append(np.Children, &r)
-			}
-		default:
-			np.Children = append(np.Children, o)
+			prevrun = &r
+			np.Children = append(np.Children, &r)
+		}
+		for _, c := range o.Children {
+			prevrun.mergeChild(c)
 		}
 	}
 	return
 }
+
+// mergeChild appends a child to a run made by MergeText, whose texts can be modified
+func (r *Run) mergeChild(c interface{}) {
+	x, ok := c.(*Text)
+	if !ok {
+		r.Children = append(r.Children, c)
+		return
+	}
+	if x.Text == "" {
+		return
+	}
+	if len(r.Children) > 0 {
+		if t, ok := r.Children[len(r.Children)-1].(*Text); ok {
+			t.Text += x.Text
+			if x.XMLSpace != "" {
+				t.XMLSpace = x.XMLSpace
+			}
+			return
+		}
+	}
+	r.Children = append(r.Children, &Text{XMLSpace: x.XMLSpace, Text: x.Text})
+}
-- 
2.43.0


From cff4ed6679c18fd841b0c71375fe97fdf6f918ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 06/55] fix: accept content inside elements read by attributes
 only

These elements expected their end tag as the very next token, so Parse
failed on whitespace, comments or child elements in them, like the
<a:hlinkClick> or <a:extLst> other programs put into <wp:docPr>.
---
 structdrawing.go | 15 ++++++---------
 structeffects.go | 20 ++++++++------------
 structrun.go     |  5 ++---
 structsect.go    | 20 ++++++++------------
 structshape.go   | 20 ++++++++------------
 structtable.go   | 30 ++++++++++++------------------
 structtext.go    | 10 ++++------
 7 files changed, 48 insertions(+), 72 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 78e348e..07e2ca8 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -364,9 +364,8 @@ func (r *WPExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			return err
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // WPEffectExtent represents the effect extent of a drawing in a Word document.
@@ -396,9 +395,8 @@ func (r *WPEffectExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) er
 			return err
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // WPDocPr represents the document properties of a drawing in a Word document.
@@ -425,9 +423,8 @@ func (r *WPDocPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // WPCNvGraphicFramePr represents the non-visual properties of a graphic frame.
diff --git a/structeffects.go b/structeffects.go
index bfe85aa..3c29653 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -144,9 +144,8 @@ func (s *Shade) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // AdjustRightInd ...
@@ -272,9 +271,8 @@ func (r *NonVisualProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // Spacing ...
@@ -319,9 +317,8 @@ func (s *Spacing) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err erro
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // Ind ...
@@ -392,7 +389,6 @@ func (i *Ind) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return
+	// Consume everything up to the end element
+	return d.Skip()
 }
diff --git a/structrun.go b/structrun.go
index 1c97952..ac1c694 100644
--- a/structrun.go
+++ b/structrun.go
@@ -342,7 +342,6 @@ func (f *RunFonts) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			f.Hint = attr.Value
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
diff --git a/structsect.go b/structsect.go
index cc66873..53282ad 100644
--- a/structsect.go
+++ b/structsect.go
@@ -132,9 +132,8 @@ func (pgsz *PgSz) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // UnmarshalXML ...
@@ -182,9 +181,8 @@ func (pgmar *PgMar) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // UnmarshalXML ...
@@ -202,9 +200,8 @@ func (cols *Cols) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // UnmarshalXML ...
@@ -224,7 +221,6 @@ func (dg *DocGrid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
diff --git a/structshape.go b/structshape.go
index 9298006..70c5831 100644
--- a/structshape.go
+++ b/structshape.go
@@ -204,9 +204,8 @@ func (l *ASPLocks) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // ABlipFill represents a fill that contains a reference to an image.
@@ -317,9 +316,8 @@ func (t *ATile) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 			return err
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // ALine represents a line element in a Word document.
@@ -494,9 +492,8 @@ func (r *AHeadEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // ATailEnd ...
@@ -521,9 +518,8 @@ func (r *ATailEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // WPSTextBox ...
diff --git a/structtable.go b/structtable.go
index 5a2727c..bcf8f66 100644
--- a/structtable.go
+++ b/structtable.go
@@ -232,9 +232,8 @@ func (tp *WTablePositioningProperties) UnmarshalXML(d *xml.Decoder, start xml.St
 		}
 	}
 
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // WTableStyle represents the style of a table in a Word document.
@@ -256,9 +255,8 @@ func (t *WTableStyle) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // WTableWidth represents the width of a table in a Word document.
@@ -286,9 +284,8 @@ func (t *WTableWidth) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // WTableLook represents the look of a table in a Word document.
@@ -328,9 +325,8 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // WTableGrid is a structure that represents the table grid of a Word document.
@@ -393,9 +389,8 @@ func (g *WGridCol) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // WTableRow represents a row within a table.
@@ -806,9 +801,8 @@ func (t *WTableBorder) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			t.Color = attr.Value
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // WGridSpan represents the number of grid columns this cell should span.
diff --git a/structtext.go b/structtext.go
index 6def188..defeb91 100644
--- a/structtext.go
+++ b/structtext.go
@@ -83,9 +83,8 @@ func (t *Tab) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			}
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // BarterRabbet is <br> , if with type=page , add pagebreaks
@@ -102,9 +101,8 @@ func (f *BarterRabbet) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			break
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume everything up to the end element
+	return d.Skip()
 }
 
 // Text object contains the actual text
-- 
2.43.0


From e6a167562b3ffc5aeaf45f9ec4ce065148d6f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:53 +0000
Subject: [PATCH 07/55] fix: do not reuse the name of an existing media file

The image counter restarts at the same number whenever a document is parsed,
so a picture added to a document that was saved, parsed and extended before,
or that was made by LoadBodyItems, replaced a picture it already had.
---
 image.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/image.go b/image.go
index 93183c2..a7ddf3a 100644
--- a/image.go
+++ b/image.go
@@ -27,7 +27,11 @@ import (
 
 // addImage add image to docx and return its rId
 func (f *Docx) addImage(format string, data []byte) string {
-	m := Media{Name: "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format, Data: data}
+	name := ""
+	for name == "" || f.Media(name) != nil { // never take the name of an existing media
+		name = "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format
+	}
+	m := Media{Name: name, Data: data}
 	f.addMedia(m)
 	return f.addImageRelation(m)
 }
-- 
2.43.0


From 3ed8b4c1afcc63b8fbbead302882452869217935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 08/55] fix: give drawings added to a parsed document ids it
 does not use yet

The counter started at 100000 for every parsed document, also for those that
had been extended and saved before and held drawings with such ids.
---
 id.go            | 8 ++++++++
 structdrawing.go | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/id.go b/id.go
index 31b6157..636e934 100644
--- a/id.go
+++ b/id.go
@@ -29,3 +29,11 @@ func (f *Docx) IncreaseID(name string) (n uintptr) {
 	f.slowIDsMu.Unlock()
 	return
 }
+
+// useDocID notes that a drawing of the document has the id,
+// which is not given to another one then
+func (f *Docx) useDocID(id int) {
+	if f != nil && id > 0 && f.docID < uintptr(id) {
+		f.docID = uintptr(id)
+	}
+}
diff --git a/structdrawing.go b/structdrawing.go
index 07e2ca8..33eb1f1 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -198,6 +198,7 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				r.file.useDocID(r.DocPr.ID)
 			case "cNvGraphicFramePr":
 				var value WPCNvGraphicFramePr
 				err = d.DecodeElement(&value, &tt)
@@ -1285,6 +1286,7 @@ func (r *WPAnchor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				r.file.useDocID(r.DocPr.ID)
 			case "cNvGraphicFramePr":
 				r.CNvGraphicFramePr = new(WPCNvGraphicFramePr)
 				err = d.DecodeElement(r.CNvGraphicFramePr, &tt)
-- 
2.43.0


From 13c191b5e2c9991255de5406aaa9734e32cd90fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 09/55] fix: plain text, append and split of documents with
 added pictures

Pictures added through the API did not know their document, so that
Paragraph.String, AppendFile and SplitByParagraph panicked on them.
---
 apidrawing.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apidrawing.go b/apidrawing.go
index e2e7c61..604e440 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -48,7 +48,9 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 		w = A4_EMU_MAX_WIDTH / 2
 	}
 	d := &Drawing{
+		file: p.file,
 		Inline: &WPInline{
+			file: p.file,
 			// AnchorID: fmt.Sprintf("%08X", rand.Uint32()),
 			// EditID:   fmt.Sprintf("%08X", rand.Uint32()),
 
@@ -151,7 +153,9 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 		w = A4_EMU_MAX_WIDTH / 2
 	}
 	d := &Drawing{
+		file: p.file,
 		Anchor: &WPAnchor{
+			file:         p.file,
 			LayoutInCell: 1,
 			AllowOverlap: 1,
 
-- 
2.43.0


From 9e3fd9745bbcf426f2b42ddb3f0fde2148b76bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 10/55] fix: append and split of documents with pictures inside
 links

The run of a parsed link did not know its document, so that copying a
picture in it panicked.
---
 apilink.go    | 1 +
 structpara.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/apilink.go b/apilink.go
index 7ab24ee..b857d4a 100644
--- a/apilink.go
+++ b/apilink.go
@@ -37,6 +37,7 @@ func (p *Paragraph) AddLink(text string, link string) *Hyperlink {
 				},
 			},
 			InstrText: text,
+			file:      p.file,
 		},
 	}
 
diff --git a/structpara.go b/structpara.go
index 7962184..6ab708d 100644
--- a/structpara.go
+++ b/structpara.go
@@ -263,6 +263,7 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 			switch tt.Name.Local {
 			case "hyperlink":
 				var value Hyperlink
+				value.Run.file = p.file
 				err = d.DecodeElement(&value, &tt)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
-- 
2.43.0


From 1dbe5ae9f650d81729d405d52ddfac2d8bf179b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:59 +0000
Subject: [PATCH 11/55] fix: refuse pictures without width or height

Adding a picture whose header says zero pixels divided by zero.
---
 apidrawing.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/apidrawing.go b/apidrawing.go
index 604e440..6ff198d 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -22,6 +22,7 @@ package docx
 
 import (
 	"bytes"
+	"errors"
 	"os"
 	"strconv"
 	"sync/atomic"
@@ -29,12 +30,18 @@ import (
 	"github.com/fumiama/imgsz"
 )
 
+// ErrInvalidPictureSize is returned for pictures without width or height
+var ErrInvalidPictureSize = errors.New("invalid picture size")
+
 // AddInlineDrawing adds inline drawing to paragraph
 func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 	sz, format, err := imgsz.DecodeSize(bytes.NewReader(pic))
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, ErrInvalidPictureSize
+	}
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
@@ -140,6 +147,9 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, ErrInvalidPictureSize
+	}
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
-- 
2.43.0


From ae9d4f2f0f6000421a1deee71817a81ea19205b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 12/55] fix: plain text of drawings with missing parts

Rendering panicked on inline drawings without graphic, pictures without
picture fill and pictures whose relationship does not lead to a media file.
---
 link.go          | 23 +++++++++++++++++++++++
 structdrawing.go | 15 +++++++++------
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/link.go b/link.go
index 46718f8..2c1d3e5 100644
--- a/link.go
+++ b/link.go
@@ -22,7 +22,9 @@ package docx
 
 import (
 	"errors"
+	"path"
 	"strconv"
+	"strings"
 	"sync/atomic"
 )
 
@@ -74,6 +76,27 @@ func (f *Docx) ReferTarget(id string) (string, error) {
 	return "", ErrRefIDNotFound
 }
 
+// referMedia gets the media for a reference
+func (f *Docx) referMedia(id string) (*Media, error) {
+	if f == nil {
+		return nil, ErrRefIDNotFound
+	}
+	tgt, err := f.ReferTarget(id)
+	if err != nil {
+		return nil, err
+	}
+	if !path.IsAbs(tgt) {
+		tgt = "/word/" + tgt
+	}
+	tgt = path.Clean(tgt)
+	if strings.HasPrefix(tgt, "/"+MEDIA_FOLDER) {
+		if m := f.Media(tgt[len("/"+MEDIA_FOLDER):]); m != nil {
+			return m, nil
+		}
+	}
+	return nil, ErrRefTargetNotFound
+}
+
 // ReferID gets the rId from target
 func (f *Docx) ReferID(target string) (string, error) {
 	for _, a := range f.docRelation.Relationship {
diff --git a/structdrawing.go b/structdrawing.go
index 33eb1f1..5f18803 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -229,6 +229,9 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 // String ...
 func (r *WPInline) String() string {
 	sb := strings.Builder{}
+	if r.Graphic == nil || r.Graphic.GraphicData == nil {
+		return "![inln?](unknown)"
+	}
 	if r.Graphic.GraphicData.Pic != nil {
 		sb.WriteString("![inlnim ")
 		switch {
@@ -236,16 +239,16 @@ func (r *WPInline) String() string {
 			sb.WriteString(r.DocPr.Name)
 		case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-		default:
+		case r.Graphic.GraphicData.Pic.BlipFill != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 		}
 		sb.WriteString("](")
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+			m, err := r.file.referMedia(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
 				sb.WriteString(err.Error())
 			} else {
-				h := md5.Sum(r.file.Media(tgt[6:]).Data)
+				h := md5.Sum(m.Data)
 				sb.WriteString(hex.EncodeToString(h[:]))
 			}
 		}
@@ -1323,16 +1326,16 @@ func (r *WPAnchor) String() string {
 				sb.WriteString(r.DocPr.Name)
 			case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-			default:
+			case r.Graphic.GraphicData.Pic.BlipFill != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			}
 			sb.WriteString("](")
 			if r.Graphic.GraphicData.Pic.BlipFill != nil {
-				tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+				m, err := r.file.referMedia(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 				if err != nil {
 					sb.WriteString(err.Error())
 				} else {
-					h := md5.Sum(r.file.Media(tgt[6:]).Data)
+					h := md5.Sum(m.Data)
 					sb.WriteString(hex.EncodeToString(h[:]))
 				}
 			}
-- 
2.43.0


From 2de3c7c85c2d22b37a3522cfb88b9c0a33b500d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 13/55] fix: keep groups and all pictures when appending or
 splitting documents

Copying a drawing to another document dropped groups, kept relationship ids
of the old document in canvases, text boxes and picture fills, dropped the
transparency of pictures, repeated the drawing ids of shapes, and panicked on
drawings without graphic, non-visual properties or a media target.
---
 structcanvas.go  |  31 ++++++++
 structdrawing.go | 201 +++++++++++++++++++++++++----------------------
 structeffects.go |  14 ++++
 structgroup.go   |  16 ++++
 structshape.go   |  19 +++++
 5 files changed, 187 insertions(+), 94 deletions(-)

diff --git a/structcanvas.go b/structcanvas.go
index fe08bb9..6c8e746 100644
--- a/structcanvas.go
+++ b/structcanvas.go
@@ -98,6 +98,37 @@ func (c *WordprocessingCanvas) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 	return nil
 }
 
+func (c *WordprocessingCanvas) copymedia(from, to *Docx) *WordprocessingCanvas {
+	nc := *c
+	nc.file = to
+	nc.Items = copyelems(c.Items, from, to)
+	return &nc
+}
+
+// copyelems copies the drawing objects of a canvas or group
+func copyelems(elems []interface{}, from, to *Docx) []interface{} {
+	nelems := make([]interface{}, 0, len(elems))
+	for _, e := range elems {
+		switch o := e.(type) {
+		case *Picture:
+			if p := o.copymedia(from, to); p != nil {
+				nelems = append(nelems, p)
+			}
+		case *WordprocessingShape:
+			nelems = append(nelems, o.copymedia(from, to))
+		case *WordprocessingCanvas:
+			nelems = append(nelems, o.copymedia(from, to))
+		case *WordprocessingGroup:
+			nelems = append(nelems, o.copymedia(from, to))
+		case *WPGGroupShape:
+			nelems = append(nelems, o.copymedia(from, to))
+		default:
+			nelems = append(nelems, e)
+		}
+	}
+	return nelems
+}
+
 // WPCBackground ...
 type WPCBackground struct {
 	XMLName xml.Name  `xml:"wpc:bg,omitempty"`
diff --git a/structdrawing.go b/structdrawing.go
index 5f18803..cb6a5f7 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -25,6 +25,7 @@ import (
 	"encoding/hex"
 	"encoding/xml"
 	"io"
+	"path"
 	"strconv"
 	"strings"
 	"sync/atomic"
@@ -288,61 +289,53 @@ func (r *WPInline) String() string {
 }
 
 func (r *WPInline) copymedia(to *Docx) *WPInline {
-	if r.Graphic.GraphicData.Pic != nil {
-		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
-			if err != nil {
-				return nil
-			}
-			format := tgt[strings.LastIndex(tgt, ".")+1:]
-			idn := int(atomic.AddUintptr(&to.docID, 1))
-			id := int(to.IncreaseID("图片"))
-			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
-			if m == nil {
-				return nil
-			}
-			rid := to.addImage(format, m.Data)
-			inln := *r
-			grph := *r.Graphic
-			inln.Graphic = &grph
-			grphdata := *r.Graphic.GraphicData
-			grph.GraphicData = &grphdata
-			pic := *r.Graphic.GraphicData.Pic
-			grphdata.Pic = &pic
-			grphdata.file = to
-			grph.file = to
-			inln.file = to
-
-			inln.DocPr = &WPDocPr{
-				ID:   idn,
-				Name: "图片 " + ids,
-			}
-			pic.NonVisualPicProperties = &PICNonVisualPicProperties{
+	inln := *r
+	inln.file = to
+	if r.DocPr != nil {
+		inln.DocPr = &WPDocPr{
+			ID:   int(atomic.AddUintptr(&to.docID, 1)),
+			Name: r.DocPr.Name,
+		}
+	}
+	if r.Graphic == nil || r.Graphic.GraphicData == nil {
+		return &inln
+	}
+	grph := *r.Graphic
+	grph.file = to
+	inln.Graphic = &grph
+	grphdata := *r.Graphic.GraphicData
+	grphdata.file = to
+	grph.GraphicData = &grphdata
+	if grphdata.Pic != nil {
+		grphdata.Pic = grphdata.Pic.copymedia(r.file, to)
+		if grphdata.Pic == nil {
+			return nil
+		}
+		id := int(to.IncreaseID("图片"))
+		name := "图片 " + strconv.Itoa(id)
+		if inln.DocPr != nil {
+			inln.DocPr.Name = name
+		}
+		if grphdata.Pic.NonVisualPicProperties != nil {
+			grphdata.Pic.NonVisualPicProperties = &PICNonVisualPicProperties{
 				NonVisualDrawingProperties: NonVisualProperties{
 					ID:   id,
-					Name: "图片 " + ids,
-				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
-			}
-			pic.BlipFill = &PICBlipFill{
-				Blip: ABlip{
-					Embed:  rid,
-					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
+					Name: name,
 				},
-				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
+				CNvPicPr: grphdata.Pic.NonVisualPicProperties.CNvPicPr,
 			}
-			return &inln
 		}
-		return nil
 	}
-	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r
+	if grphdata.Shape != nil {
+		grphdata.Shape = grphdata.Shape.copymedia(r.file, to)
 	}
-	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
-		return r
+	if grphdata.Canvas != nil {
+		grphdata.Canvas = grphdata.Canvas.copymedia(r.file, to)
 	}
-	return nil
+	if grphdata.Group != nil {
+		grphdata.Group = grphdata.Group.copymedia(r.file, to)
+	}
+	return &inln
 }
 
 // WPExtent represents the extent of a drawing in a Word document.
@@ -663,6 +656,21 @@ func (p *Picture) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	return nil
 }
 
+// copymedia returns nil if the media cannot be found
+func (p *Picture) copymedia(from, to *Docx) *Picture {
+	np := *p
+	if p.BlipFill != nil {
+		fill := *p.BlipFill
+		blip := fill.Blip.copymedia(from, to)
+		if blip == nil {
+			return nil
+		}
+		fill.Blip = *blip
+		np.BlipFill = &fill
+	}
+	return &np
+}
+
 // PICNonVisualPicProperties represents the non-visual properties of a picture in a Word document.
 type PICNonVisualPicProperties struct {
 	XMLName                    xml.Name            `xml:"pic:nvPicPr,omitempty"`
@@ -856,6 +864,19 @@ func (a *ABlip) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	return nil
 }
 
+// copymedia returns nil if the media cannot be found
+func (a *ABlip) copymedia(from, to *Docx) *ABlip {
+	nb := *a
+	if a.Embed != "" {
+		m, err := from.referMedia(a.Embed)
+		if err != nil {
+			return nil
+		}
+		nb.Embed = to.addImage(strings.TrimPrefix(path.Ext(m.Name), "."), m.Data)
+	}
+	return &nb
+}
+
 // AAlphaModFix ...
 type AAlphaModFix struct {
 	XMLName xml.Name `xml:"a:alphaModFix,omitempty"`
@@ -1376,61 +1397,53 @@ func (r *WPAnchor) String() string {
 }
 
 func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
-	if r.Graphic.GraphicData.Pic != nil {
-		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
-			if err != nil {
-				return nil
-			}
-			format := tgt[strings.LastIndex(tgt, ".")+1:]
-			idn := int(atomic.AddUintptr(&to.docID, 1))
-			id := int(to.IncreaseID("图片"))
-			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
-			if m == nil {
-				return nil
-			}
-			rid := to.addImage(format, m.Data)
-			anch := *r
-			grph := *r.Graphic
-			anch.Graphic = &grph
-			grphdata := *r.Graphic.GraphicData
-			grph.GraphicData = &grphdata
-			pic := *r.Graphic.GraphicData.Pic
-			grphdata.Pic = &pic
-			grphdata.file = to
-			grph.file = to
-			anch.file = to
-
-			anch.DocPr = &WPDocPr{
-				ID:   idn,
-				Name: "图片 " + ids,
-			}
-			pic.NonVisualPicProperties = &PICNonVisualPicProperties{
+	anch := *r
+	anch.file = to
+	if r.DocPr != nil {
+		anch.DocPr = &WPDocPr{
+			ID:   int(atomic.AddUintptr(&to.docID, 1)),
+			Name: r.DocPr.Name,
+		}
+	}
+	if r.Graphic == nil || r.Graphic.GraphicData == nil {
+		return &anch
+	}
+	grph := *r.Graphic
+	grph.file = to
+	anch.Graphic = &grph
+	grphdata := *r.Graphic.GraphicData
+	grphdata.file = to
+	grph.GraphicData = &grphdata
+	if grphdata.Pic != nil {
+		grphdata.Pic = grphdata.Pic.copymedia(r.file, to)
+		if grphdata.Pic == nil {
+			return nil
+		}
+		id := int(to.IncreaseID("图片"))
+		name := "图片 " + strconv.Itoa(id)
+		if anch.DocPr != nil {
+			anch.DocPr.Name = name
+		}
+		if grphdata.Pic.NonVisualPicProperties != nil {
+			grphdata.Pic.NonVisualPicProperties = &PICNonVisualPicProperties{
 				NonVisualDrawingProperties: NonVisualProperties{
 					ID:   id,
-					Name: "图片 " + ids,
+					Name: name,
 				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
+				CNvPicPr: grphdata.Pic.NonVisualPicProperties.CNvPicPr,
 			}
-			pic.BlipFill = &PICBlipFill{
-				Blip: ABlip{
-					Embed:  rid,
-					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
-				},
-				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
-			}
-			return &anch
 		}
-		return nil
 	}
-	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r
+	if grphdata.Shape != nil {
+		grphdata.Shape = grphdata.Shape.copymedia(r.file, to)
 	}
-	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
-		return r
+	if grphdata.Canvas != nil {
+		grphdata.Canvas = grphdata.Canvas.copymedia(r.file, to)
 	}
-	return nil
+	if grphdata.Group != nil {
+		grphdata.Group = grphdata.Group.copymedia(r.file, to)
+	}
+	return &anch
 }
 
 // WPSimplePos represents the position of an object in a Word document.
diff --git a/structeffects.go b/structeffects.go
index 3c29653..abd39db 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -250,6 +250,20 @@ func (w *ShapeProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElement) e
 	return nil
 }
 
+func (w *ShapeProperties) copymedia(from, to *Docx) *ShapeProperties {
+	if w == nil || w.BlipFill == nil || w.BlipFill.Blip == nil {
+		return w
+	}
+	nw := *w
+	fill := *w.BlipFill
+	fill.Blip = fill.Blip.copymedia(from, to)
+	nw.BlipFill = &fill
+	if fill.Blip == nil { // media is missing
+		nw.BlipFill = nil
+	}
+	return &nw
+}
+
 // NonVisualProperties is an element that represents the non-visual properties of a content control.
 type NonVisualProperties struct {
 	ID   int    `xml:"id,attr"`
diff --git a/structgroup.go b/structgroup.go
index 725515d..1dc9d43 100644
--- a/structgroup.go
+++ b/structgroup.go
@@ -106,6 +106,14 @@ func (w *WordprocessingGroup) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 	return nil
 }
 
+func (w *WordprocessingGroup) copymedia(from, to *Docx) *WordprocessingGroup {
+	nw := *w
+	nw.file = to
+	nw.GroupShapeProperties = w.GroupShapeProperties.copymedia(from, to)
+	nw.Elems = copyelems(w.Elems, from, to)
+	return &nw
+}
+
 // WPGcNvGrpSpPr represents the non-visual properties of a group shape.
 type WPGcNvGrpSpPr struct {
 	XMLName xml.Name `xml:"wpg:cNvGrpSpPr,omitempty"`
@@ -227,3 +235,11 @@ func (w *WPGGroupShape) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	}
 	return nil
 }
+
+func (w *WPGGroupShape) copymedia(from, to *Docx) *WPGGroupShape {
+	nw := *w
+	nw.file = to
+	nw.GroupShapeProperties = w.GroupShapeProperties.copymedia(from, to)
+	nw.Elems = copyelems(w.Elems, from, to)
+	return &nw
+}
diff --git a/structshape.go b/structshape.go
index 70c5831..283f433 100644
--- a/structshape.go
+++ b/structshape.go
@@ -101,6 +101,25 @@ func (w *WordprocessingShape) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 	return nil
 }
 
+func (w *WordprocessingShape) copymedia(from, to *Docx) *WordprocessingShape {
+	nw := *w
+	nw.file = to
+	nw.SpPr = w.SpPr.copymedia(from, to)
+	if w.TextBox != nil {
+		nw.TextBox = &WPSTextBox{file: to}
+		if w.TextBox.Content != nil {
+			nw.TextBox.Content = &WTextBoxContent{file: to}
+			for i := range w.TextBox.Content.Paragraphs {
+				nw.TextBox.Content.Paragraphs = append(
+					nw.TextBox.Content.Paragraphs,
+					w.TextBox.Content.Paragraphs[i].copymedia(to),
+				)
+			}
+		}
+	}
+	return &nw
+}
+
 // WPSCNvCnPr represents the non-visual drawing properties of a connector.
 type WPSCNvCnPr struct {
 	XMLName        xml.Name  `xml:"wps:cNvCnPr,omitempty"`
-- 
2.43.0


From 0fb3b019ee5ad0d4103b9e9618213d69af0c2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 14/55] fix: always declare the drawing namespaces that are
 used

A parsed document that declares the a or pic prefix on an outer element, uses
another prefix for these namespaces, or holds pictures in groups was saved
with undeclared prefixes.
---
 structcanvas.go  |  1 -
 structdrawing.go | 15 ++++-----------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/structcanvas.go b/structcanvas.go
index 6c8e746..a1c31ad 100644
--- a/structcanvas.go
+++ b/structcanvas.go
@@ -76,7 +76,6 @@ func (c *WordprocessingCanvas) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
-				value.XMLPIC = getAtt(tt.Attr, "pic")
 				c.Items = append(c.Items, &value)
 			case "wgp":
 				var value WordprocessingGroup
diff --git a/structdrawing.go b/structdrawing.go
index cb6a5f7..883a093 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -432,6 +432,7 @@ type WPCNvGraphicFramePr struct {
 
 // UnmarshalXML ...
 func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
+	w.Locks.XMLA = XMLNS_DRAWINGML_MAIN // may be declared outside
 	for {
 		t, err := d.Token()
 		if err == io.EOF {
@@ -444,7 +445,6 @@ func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "graphicFrameLocks":
-				w.Locks.XMLA = getAtt(tt.Attr, "a")
 				v := getAtt(tt.Attr, "noChangeAspect")
 				if v == "" {
 					continue
@@ -482,15 +482,8 @@ type AGraphic struct {
 }
 
 // UnmarshalXML ...
-func (a *AGraphic) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
-	for _, attr := range start.Attr {
-		switch attr.Name.Local {
-		case "a":
-			a.XMLA = attr.Value
-		default:
-			// ignore other attributes
-		}
-	}
+func (a *AGraphic) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
+	a.XMLA = XMLNS_DRAWINGML_MAIN // may be declared outside
 	for {
 		t, err := d.Token()
 		if err == io.EOF {
@@ -563,7 +556,6 @@ func (a *AGraphicData) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
-				value.XMLPIC = getAtt(tt.Attr, "pic")
 				a.Pic = &value
 			case "wsp":
 				var value WordprocessingShape
@@ -612,6 +604,7 @@ type Picture struct {
 
 // UnmarshalXML ...
 func (p *Picture) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
+	p.XMLPIC = XMLNS_DRAWINGML_PICTURE // may be declared outside
 	for {
 		t, err := d.Token()
 		if err == io.EOF {
-- 
2.43.0


From 60e91d13cf47a23337daf733eb5434e56c688de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 15/55] fix: accept whitespace and comments in alternate
 content

Anything but a start tag within <mc:AlternateContent> made the parser skip
the rest of it and of the run around it.
---
 structrun.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/structrun.go b/structrun.go
index ac1c694..8596acf 100644
--- a/structrun.go
+++ b/structrun.go
@@ -169,9 +169,11 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 					break
 				}
 			}
-			err = d.Skip() // skip unsupported tags
-			if err != nil {
-				return nil, err
+			if _, ok := tok.(xml.StartElement); ok {
+				err = d.Skip() // skip unsupported tags
+				if err != nil {
+					return nil, err
+				}
 			}
 		}
 	default:
-- 
2.43.0


From 29e1c4973aa29ad68b59dda6da71e50a88a6d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 16/55] fix: keep the value of bold and italic

<w:b w:val="0"/>, which switches bold off, was read as bold, and a strike
without value was saved with an empty one.
---
 structeffects.go | 4 +++-
 structrun.go     | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/structeffects.go b/structeffects.go
index abd39db..daf9d97 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -60,11 +60,13 @@ type SizeCs struct {
 // Bold ...
 type Bold struct {
 	XMLName xml.Name `xml:"w:b,omitempty"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Italic ...
 type Italic struct {
 	XMLName xml.Name `xml:"w:i,omitempty"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Underline ...
@@ -113,7 +115,7 @@ type VertAlign struct {
 // Strike ...
 type Strike struct {
 	XMLName xml.Name `xml:"w:strike,omitempty"`
-	Val     string   `xml:"w:val,attr"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Shade is an element that represents a shading pattern applied to a document element.
diff --git a/structrun.go b/structrun.go
index 8596acf..86ed41d 100644
--- a/structrun.go
+++ b/structrun.go
@@ -242,11 +242,11 @@ func (r *RunProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				}
 				r.Fonts = &value
 			case "b":
-				r.Bold = &Bold{}
+				r.Bold = &Bold{Val: getAtt(tt.Attr, "val")}
 			case "iCs":
 				r.ICs = &struct{}{}
 			case "i":
-				r.Italic = &Italic{}
+				r.Italic = &Italic{Val: getAtt(tt.Attr, "val")}
 			case "u":
 				var value Underline
 				value.Val = getAtt(tt.Attr, "val")
-- 
2.43.0


From 567462d935a915cc6875dcd1c6cf6b479236fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 17/55] fix: do not write empty types and modes

An empty bwMode, table width type or grid type is not valid; without a value
the attribute has to be left out.
---
 structeffects.go | 2 +-
 structsect.go    | 2 +-
 structtable.go   | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/structeffects.go b/structeffects.go
index daf9d97..8cef5a6 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -176,7 +176,7 @@ type OverflowPunct struct {
 
 // ShapeProperties is a container element that represents the visual properties of a shape.
 type ShapeProperties struct {
-	BWMode string `xml:"bwMode,attr"`
+	BWMode string `xml:"bwMode,attr,omitempty"`
 
 	Xfrm      AXfrm
 	PrstGeom  APrstGeom
diff --git a/structsect.go b/structsect.go
index 53282ad..036d78a 100644
--- a/structsect.go
+++ b/structsect.go
@@ -57,7 +57,7 @@ type Cols struct {
 
 // DocGrid show the document grid
 type DocGrid struct {
-	Type      string `xml:"w:type,attr"`
+	Type      string `xml:"w:type,attr,omitempty"`
 	LinePitch int    `xml:"w:linePitch,attr"`
 }
 
diff --git a/structtable.go b/structtable.go
index bcf8f66..6138b71 100644
--- a/structtable.go
+++ b/structtable.go
@@ -263,7 +263,7 @@ func (t *WTableStyle) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 type WTableWidth struct {
 	XMLName xml.Name `xml:"w:tblW,omitempty"`
 	W       int64    `xml:"w:w,attr"`
-	Type    string   `xml:"w:type,attr"`
+	Type    string   `xml:"w:type,attr,omitempty"`
 }
 
 // UnmarshalXML ...
@@ -661,7 +661,7 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 type WTableCellWidth struct {
 	XMLName xml.Name `xml:"w:tcW,omitempty"`
 	W       int64    `xml:"w:w,attr"`
-	Type    string   `xml:"w:type,attr"`
+	Type    string   `xml:"w:type,attr,omitempty"`
 }
 
 // WvMerge element is used to specify whether a table cell
-- 
2.43.0


From c88ba7f2a86b731b9a1d74a8d0ef87750d1a44d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:04 +0000
Subject: [PATCH 18/55] fix: read the adjustments of shapes and the type of
 unset cell widths

<a:avLst> of a shape and the type of a cell width without number were lost.
---
 structeffects.go | 5 ++++-
 structtable.go   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/structeffects.go b/structeffects.go
index 8cef5a6..ddaef41 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -216,7 +216,10 @@ func (w *ShapeProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElement) e
 					return err
 				}
 			case "prstGeom":
-				w.PrstGeom.Prst = getAtt(tt.Attr, "prst")
+				err = d.DecodeElement(&w.PrstGeom, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
 			case "solidFill":
 				var value ASolidFill
 				err = d.DecodeElement(&value, &tt)
diff --git a/structtable.go b/structtable.go
index 6138b71..9ac0ca5 100644
--- a/structtable.go
+++ b/structtable.go
@@ -601,6 +601,7 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 			switch tt.Name.Local {
 			case "tcW":
 				r.TableCellWidth = new(WTableCellWidth)
+				r.TableCellWidth.Type = getAtt(tt.Attr, "type")
 				v := getAtt(tt.Attr, "w")
 				if v == "" {
 					continue
@@ -609,7 +610,6 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 				if err != nil {
 					return err
 				}
-				r.TableCellWidth.Type = getAtt(tt.Attr, "type")
 			case "vMerge":
 				r.VMerge = &WvMerge{Val: getAtt(tt.Attr, "val")}
 			case "gridSpan":
-- 
2.43.0


From 26397d6791db0cc2f1aeede86349f96642bc5a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 19/55] fix: notice altered bytes of the document and its
 relationships

The XML decoder stops at the end of the root element, before the zip reader
compares the checksum, so that damaged parts were taken for good ones.
---
 unpack.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/unpack.go b/unpack.go
index 4c4fc36..72ec04d 100644
--- a/unpack.go
+++ b/unpack.go
@@ -101,6 +101,10 @@ func (f *Docx) parseDocument(file *zip.File) error {
 	//TODO: find last docID
 	f.docID = 100000
 	err = xml.NewDecoder(zf).Decode(&f.Document)
+	if err != nil {
+		return err
+	}
+	_, err = io.Copy(io.Discard, zf) // the checksum is verified at the end
 	return err
 }
 
@@ -117,6 +121,10 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	if err != nil {
 		return err
 	}
+	_, err = io.Copy(io.Discard, zf) // the checksum is verified at the end
+	if err != nil {
+		return err
+	}
 	for _, r := range f.docRelation.Relationship {
 		if !strings.HasPrefix(r.ID, "rId") {
 			return errors.New("invalid rel ID: " + r.ID)
-- 
2.43.0


From a1490d3755e21a78a88b07697b0f463a318b0c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 20/55] fix: keep leading and trailing blanks of added text

Without xml:space="preserve" they are dropped by word processors.
---
 apitext.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apitext.go b/apitext.go
index 6e3b879..5541f47 100644
--- a/apitext.go
+++ b/apitext.go
@@ -52,9 +52,11 @@ func (p *Paragraph) AddText(text string) *Run {
 				c = append(c, &Tab{})
 			}
 			if k != "" {
-				c = append(c, &Text{
-					Text: k,
-				})
+				t := &Text{Text: k}
+				if strings.TrimSpace(k) != k {
+					t.XMLSpace = "preserve" // or else outer blanks are ignored
+				}
+				c = append(c, t)
 			}
 		}
 	}
-- 
2.43.0


From 1e4f58a0acc9b2673ccd758bcc003ab1ff50d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 21/55] fix: do not write a preset geometry without preset

Groups have none, but were saved with an empty one, which is not valid.
---
 structdrawing.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/structdrawing.go b/structdrawing.go
index 883a093..dc845e2 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -1135,6 +1135,15 @@ func (a *APrstGeom) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	return nil
 }
 
+// MarshalXML leaves out the geometry if there is no preset, as in groups
+func (a APrstGeom) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	if a.Prst == "" {
+		return nil
+	}
+	type prstgeom APrstGeom
+	return e.EncodeElement(prstgeom(a), start)
+}
+
 /*
 // AAvLst is a struct representing the <a:avLst> element in OpenXML,
 // which describes the adjustments to the shape's preset geometry.
-- 
2.43.0


From 6d2953c55a67fc41efa8e699c198628f3e56401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 22/55] fix: keep links to bookmarks

The anchor of a parsed link was saved as a relationship id that does not
exist, replaced the id of links that have both, and the link with its text
was left out when appending or splitting documents.
---
 structdoc.go  | 16 ++++++++++------
 structlink.go | 15 +++++++++++++++
 structpara.go |  3 ++-
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index 4265fa4..376eb36 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -315,14 +315,18 @@ func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 			continue
 		}
 		if h, ok := pc.(*Hyperlink); ok {
-			tgt, err := p.file.ReferTarget(h.ID)
-			if err != nil {
-				continue
+			rid := h.ID
+			if h.Anchor == "" || h.ID != h.Anchor { // not a bookmark of the document
+				tgt, err := p.file.ReferTarget(h.ID)
+				if err != nil {
+					continue
+				}
+				rid = to.addLinkRelation(tgt)
 			}
-			rid := to.addLinkRelation(tgt)
 			np.Children = append(np.Children, &Hyperlink{
-				ID:  rid,
-				Run: *h.Run.copymedia(to),
+				ID:     rid,
+				Anchor: h.Anchor,
+				Run:    *h.Run.copymedia(to),
 			})
 			continue
 		}
diff --git a/structlink.go b/structlink.go
index 3132b7d..f1d4d01 100644
--- a/structlink.go
+++ b/structlink.go
@@ -30,9 +30,24 @@ import (
 type Hyperlink struct {
 	XMLName xml.Name `xml:"w:hyperlink,omitempty"`
 	ID      string   `xml:"r:id,attr"`
+	Anchor  string   `xml:"w:anchor,attr,omitempty"` // Anchor is a bookmark in the target or, without ID, in this document
 	Run     Run
 }
 
+// MarshalXML leaves out the ID of a link to a bookmark in this document,
+// since it is the name of the bookmark but not a relationship then
+func (r *Hyperlink) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	start.Name = xml.Name{Local: "w:hyperlink"}
+	if r.Anchor == "" || r.ID != r.Anchor {
+		type hyperlink Hyperlink
+		return e.EncodeElement((*hyperlink)(r), start)
+	}
+	return e.EncodeElement(struct {
+		Anchor string `xml:"w:anchor,attr"`
+		Run    Run
+	}{r.Anchor, r.Run}, start)
+}
+
 // UnmarshalXML ...
 func (r *Hyperlink) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	for {
diff --git a/structpara.go b/structpara.go
index 6ab708d..a193127 100644
--- a/structpara.go
+++ b/structpara.go
@@ -273,7 +273,8 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if id != "" {
 					value.ID = id
 				}
-				if anchor != "" {
+				value.Anchor = anchor
+				if id == "" {
 					value.ID = anchor
 				}
 				elem = &value
-- 
2.43.0


From 3e8645d0dce6813d570c03be1de52dceb142fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:42 +0000
Subject: [PATCH 23/55] fix: plain text of links made by other programs

Their caption is an ordinary text of the run, which was left out.
---
 structpara.go | 22 ++--------------------
 structrun.go  | 25 +++++++++++++++++++++++++
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/structpara.go b/structpara.go
index a193127..bca6704 100644
--- a/structpara.go
+++ b/structpara.go
@@ -195,7 +195,7 @@ func (p *Paragraph) String() string {
 		switch o := c.(type) {
 		case *Hyperlink:
 			id := o.ID
-			text := o.Run.InstrText
+			text := o.Run.InstrText + o.Run.text()
 			link, err := p.file.ReferTarget(id)
 			sb.WriteString("[")
 			sb.WriteString(text)
@@ -207,25 +207,7 @@ func (p *Paragraph) String() string {
 			}
 			sb.WriteByte(')')
 		case *Run:
-			for _, c := range o.Children {
-				switch x := c.(type) {
-				case *Text:
-					sb.WriteString(x.Text)
-				case *Tab:
-					sb.WriteByte('\t')
-				case *BarterRabbet:
-					sb.WriteByte('\n')
-				case *Drawing:
-					if x.Inline != nil {
-						sb.WriteString(x.Inline.String())
-						continue
-					}
-					if x.Anchor != nil {
-						sb.WriteString(x.Anchor.String())
-						continue
-					}
-				}
-			}
+			sb.WriteString(o.text())
 		default:
 			continue
 		}
diff --git a/structrun.go b/structrun.go
index 86ed41d..ffc39cc 100644
--- a/structrun.go
+++ b/structrun.go
@@ -182,6 +182,31 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 	return
 }
 
+// text of all children
+func (r *Run) text() string {
+	sb := strings.Builder{}
+	for _, c := range r.Children {
+		switch x := c.(type) {
+		case *Text:
+			sb.WriteString(x.Text)
+		case *Tab:
+			sb.WriteByte('\t')
+		case *BarterRabbet:
+			sb.WriteByte('\n')
+		case *Drawing:
+			if x.Inline != nil {
+				sb.WriteString(x.Inline.String())
+				continue
+			}
+			if x.Anchor != nil {
+				sb.WriteString(x.Anchor.String())
+				continue
+			}
+		}
+	}
+	return sb.String()
+}
+
 // KeepElements keep named elems amd removes others
 //
 // names: *docx.Text *docx.Drawing *docx.Tab *docx.BarterRabbet
-- 
2.43.0


From ef9d02d765b8075562f0a46dfec1a59e25bfdcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 24/55] fix: close the template files after saving

Every save with a template from the disk left its files open.
---
 pack.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pack.go b/pack.go
index b864691..68bc135 100644
--- a/pack.go
+++ b/pack.go
@@ -34,20 +34,17 @@ import (
 func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 	files := make(map[string]io.Reader, 64)
 
+	prefix := ""
 	if f.template != "" {
-		for _, name := range f.tmpfslst {
-			files[name], err = f.tmplfs.Open("xml/" + f.template + "/" + name)
-			if err != nil {
-				return
-			}
-		}
-	} else {
-		for _, name := range f.tmpfslst {
-			files[name], err = f.tmplfs.Open(name)
-			if err != nil {
-				return
-			}
+		prefix = "xml/" + f.template + "/"
+	}
+	for _, name := range f.tmpfslst {
+		file, err := f.tmplfs.Open(prefix + name)
+		if err != nil {
+			return err
 		}
+		defer file.Close()
+		files[name] = file
 	}
 
 	files["word/_rels/document.xml.rels"] = marshaller{data: &f.docRelation}
-- 
2.43.0


From 582fa520e0d3dc91c4521527aa37376b0499970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 25/55] fix: keep the relationships of a split document to its
 other parts

The pieces of a parsed document had the relationships of the default template
instead, so that numbering, settings, notes and so on were no longer found,
and parts were referred to that do not exist.
---
 structdoc.go | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index 376eb36..3b0e863 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -242,28 +242,14 @@ newdoclop:
 		ndoc.Document.XMLName.Local = "document"
 		ndoc.Document.Body.file = ndoc
 
-		ndoc.docRelation = Relationships{
-			Xmlns: XMLNS_REL,
-			Relationship: []Relationship{
-				{
-					ID:     "rId1",
-					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles`,
-					Target: "styles.xml",
-				},
-				{
-					ID:     "rId2",
-					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme`,
-					Target: "theme/theme1.xml",
-				},
-				{
-					ID:     "rId3",
-					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/fontTable`,
-					Target: "fontTable.xml",
-				},
-			},
+		// the pieces have all parts of the template, but only their own pictures and links
+		ndoc.docRelation.Xmlns = XMLNS_REL
+		for _, rel := range f.docRelation.Relationship {
+			if rel.Type != REL_IMAGE && rel.Type != REL_HYPERLINK {
+				ndoc.docRelation.Relationship = append(ndoc.docRelation.Relationship, rel)
+			}
 		}
-
-		ndoc.rID = 3
+		ndoc.rID = f.rID
 
 		for i, item := range items {
 			switch o := item.(type) {
-- 
2.43.0


From 2871c945b4bd44c462c0f2cf8b484038e8930958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:22 +0000
Subject: [PATCH 26/55] fix: write the copies of a file next to it

With a folder in the file location the name had an extra slash, naming a
file in a folder dup_ that does not exist.
---
 cmd/main/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/main/main.go b/cmd/main/main.go
index ea83c3d..98db9d6 100644
--- a/cmd/main/main.go
+++ b/cmd/main/main.go
@@ -248,8 +248,8 @@ func main() {
 	if *dupnum > 1 {
 		a := strings.LastIndex(*fileLocation, "/")
 		name := "dup_" + (*fileLocation)
-		if a > 0 {
-			name = (*fileLocation)[:a+1] + "dup_" + (*fileLocation)[a:]
+		if a >= 0 {
+			name = (*fileLocation)[:a+1] + "dup_" + (*fileLocation)[a+1:]
 		}
 		f, err := os.Create(name)
 		if err != nil {
@@ -263,6 +263,10 @@ func main() {
 		if err != nil {
 			panic(err)
 		}
+		err = f.Close()
+		if err != nil {
+			panic(err)
+		}
 	}
 	fmt.Println("End of main")
 }
-- 
2.43.0


From 78f86ab9b26cc54a7a9c2fc99be15efc4be11f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:23 +0000
Subject: [PATCH 27/55] fix: read all spellings of boolean values

Boolean attributes may be written as true, false, on and off, and a toggle
element without value is on. Parse failed on the former, or read nonsense for
the look of tables, and dropped the latter.
---
 helper.go        | 11 +++++++++++
 structdrawing.go | 18 +++++++++---------
 structpara.go    | 24 ++++--------------------
 structshape.go   | 10 +++++-----
 structtable.go   | 17 ++++++++++-------
 5 files changed, 39 insertions(+), 41 deletions(-)

diff --git a/helper.go b/helper.go
index d91ad81..a16197c 100644
--- a/helper.go
+++ b/helper.go
@@ -68,3 +68,14 @@ func GetInt(s string) (int, error) {
 	_, err = fmt.Sscanf(s, "%d", &v)
 	return v, err
 }
+
+// getOnOff from the value of a boolean attribute or of a toggle element, which are on without value
+func getOnOff(s string) (int, error) {
+	switch s {
+	case "", "true", "on":
+		return 1, nil
+	case "false", "off":
+		return 0, nil
+	}
+	return GetInt(s)
+}
diff --git a/structdrawing.go b/structdrawing.go
index dc845e2..20640b1 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -449,7 +449,7 @@ func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				if v == "" {
 					continue
 				}
-				w.Locks.NoChangeAspect, err = GetInt(v)
+				w.Locks.NoChangeAspect, err = getOnOff(v)
 				if err != nil {
 					return err
 				}
@@ -738,7 +738,7 @@ func (p *PicCNvPicPr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if v == "" {
 					continue
 				}
-				value.NoChangeAspect, err = GetInt(v)
+				value.NoChangeAspect, err = getOnOff(v)
 				if err != nil {
 					return err
 				}
@@ -988,9 +988,9 @@ func (a *AXfrm) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 		case "rot":
 			a.Rot, err = GetInt64(attr.Value)
 		case "flipH":
-			a.FlipH, err = GetInt(attr.Value)
+			a.FlipH, err = getOnOff(attr.Value)
 		case "flipV":
-			a.FlipV, err = GetInt(attr.Value)
+			a.FlipV, err = getOnOff(attr.Value)
 		default:
 			// ignore other attributes
 		}
@@ -1235,17 +1235,17 @@ func (r *WPAnchor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 		case "distR":
 			r.DistR, err = GetInt64(tt.Value)
 		case "simplePos":
-			r.SimplePos, err = GetInt(tt.Value)
+			r.SimplePos, err = getOnOff(tt.Value)
 		case "relativeHeight":
 			r.RelativeHeight, err = GetInt(tt.Value)
 		case "behindDoc":
-			r.BehindDoc, err = GetInt(tt.Value)
+			r.BehindDoc, err = getOnOff(tt.Value)
 		case "locked":
-			r.Locked, err = GetInt(tt.Value)
+			r.Locked, err = getOnOff(tt.Value)
 		case "layoutInCell":
-			r.LayoutInCell, err = GetInt(tt.Value)
+			r.LayoutInCell, err = getOnOff(tt.Value)
 		case "allowOverlap":
-			r.AllowOverlap, err = GetInt(tt.Value)
+			r.AllowOverlap, err = getOnOff(tt.Value)
 		}
 		if err != nil {
 			return err
diff --git a/structpara.go b/structpara.go
index bca6704..476210c 100644
--- a/structpara.go
+++ b/structpara.go
@@ -120,44 +120,28 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				p.TextAlignment = &TextAlignment{Val: getAtt(tt.Attr, "val")}
 			case "adjustRightInd":
 				var value AdjustRightInd
-				v := getAtt(tt.Attr, "val")
-				if v == "" {
-					continue
-				}
-				value.Val, err = GetInt(v)
+				value.Val, err = getOnOff(getAtt(tt.Attr, "val"))
 				if err != nil {
 					return err
 				}
 				p.AdjustRightInd = &value
 			case "snapToGrid":
 				var value SnapToGrid
-				v := getAtt(tt.Attr, "val")
-				if v == "" {
-					continue
-				}
-				value.Val, err = GetInt(v)
+				value.Val, err = getOnOff(getAtt(tt.Attr, "val"))
 				if err != nil {
 					return err
 				}
 				p.SnapToGrid = &value
 			case "kinsoku":
 				var value Kinsoku
-				v := getAtt(tt.Attr, "val")
-				if v == "" {
-					continue
-				}
-				value.Val, err = GetInt(v)
+				value.Val, err = getOnOff(getAtt(tt.Attr, "val"))
 				if err != nil {
 					return err
 				}
 				p.Kinsoku = &value
 			case "overflowPunct":
 				var value OverflowPunct
-				v := getAtt(tt.Attr, "val")
-				if v == "" {
-					continue
-				}
-				value.Val, err = GetInt(v)
+				value.Val, err = getOnOff(getAtt(tt.Attr, "val"))
 				if err != nil {
 					return err
 				}
diff --git a/structshape.go b/structshape.go
index 283f433..2cb0072 100644
--- a/structshape.go
+++ b/structshape.go
@@ -166,7 +166,7 @@ func (w *WPSCNvSpPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err e
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "txBox":
-			w.TxBox, err = GetInt(attr.Value)
+			w.TxBox, err = getOnOff(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -215,7 +215,7 @@ func (l *ASPLocks) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "noChangeArrowheads":
-			l.NoChangeArrowheads, err = GetInt(attr.Value)
+			l.NoChangeArrowheads, err = getOnOff(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -248,7 +248,7 @@ func (r *ABlipFill) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err er
 				return err
 			}
 		case "rotWithShape":
-			r.RotWithShape, err = GetInt(attr.Value)
+			r.RotWithShape, err = getOnOff(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -661,9 +661,9 @@ func (r *WPSBodyPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		case "anchor":
 			r.Anchor = attr.Value
 		case "anchorCtr":
-			r.AnchorCtr, _ = GetInt(attr.Value)
+			r.AnchorCtr, _ = getOnOff(attr.Value)
 		case "upright":
-			r.Upright, _ = GetInt(attr.Value)
+			r.Upright, _ = getOnOff(attr.Value)
 		default:
 			// ignore other attributes
 		}
diff --git a/structtable.go b/structtable.go
index 9ac0ca5..1438e7e 100644
--- a/structtable.go
+++ b/structtable.go
@@ -301,7 +301,7 @@ type WTableLook struct {
 }
 
 // UnmarshalXML ...
-func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
 	for _, attr := range start.Attr {
 		if attr.Value == "" {
 			continue
@@ -310,20 +310,23 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 		case "val":
 			t.Val = attr.Value
 		case "firstRow":
-			t.FirstRow = int(attr.Value[0] - '0')
+			t.FirstRow, err = getOnOff(attr.Value)
 		case "lastRow":
-			t.LastRow = int(attr.Value[0] - '0')
+			t.LastRow, err = getOnOff(attr.Value)
 		case "firstColumn":
-			t.FirstCol = int(attr.Value[0] - '0')
+			t.FirstCol, err = getOnOff(attr.Value)
 		case "lastColumn":
-			t.LastCol = int(attr.Value[0] - '0')
+			t.LastCol, err = getOnOff(attr.Value)
 		case "noHBand":
-			t.NoHBand = int(attr.Value[0] - '0')
+			t.NoHBand, err = getOnOff(attr.Value)
 		case "noVBand":
-			t.NoVBand = int(attr.Value[0] - '0')
+			t.NoVBand, err = getOnOff(attr.Value)
 		default:
 			// ignore other attributes
 		}
+		if err != nil {
+			return err
+		}
 	}
 	// Consume everything up to the end element
 	return d.Skip()
-- 
2.43.0


From b261e3b700c27f5d2105f7b9df1201a1c7b18917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 28/55] fix: list the content types of all pictures

A GIF, or a picture of a format the parsed or appended-to document had not
used before, had no content type, which makes word processors reject the
file.
---
 pack.go      | 75 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 structrel.go |  1 +
 2 files changed, 76 insertions(+)

diff --git a/pack.go b/pack.go
index 68bc135..ec6909b 100644
--- a/pack.go
+++ b/pack.go
@@ -25,7 +25,10 @@ import (
 	"bytes"
 	"encoding/xml"
 	"io"
+	"mime"
 	"os"
+	"path"
+	"strings"
 )
 
 // pack receives a zip file writer (word documents are a zip with multiple xml inside)
@@ -47,6 +50,14 @@ func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 		files[name] = file
 	}
 
+	if r, ok := files[contentTypes]; ok && len(f.media) > 0 {
+		data, err := io.ReadAll(r)
+		if err != nil {
+			return err
+		}
+		files[contentTypes] = bytes.NewReader(f.addContentTypes(data))
+	}
+
 	files["word/_rels/document.xml.rels"] = marshaller{data: &f.docRelation}
 	files["word/document.xml"] = marshaller{data: &f.Document}
 
@@ -69,6 +80,70 @@ func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 	return
 }
 
+// contentTypes is the file which lists the types of all others
+const contentTypes = "[Content_Types].xml"
+
+// addContentTypes adds the types of the media that have none to the list
+func (f *Docx) addContentTypes(data []byte) []byte {
+	var types struct {
+		Default []struct {
+			Extension string `xml:",attr"`
+		}
+		Override []struct {
+			PartName string `xml:",attr"`
+		}
+	}
+	if xml.Unmarshal(data, &types) != nil {
+		return data
+	}
+	known := make(map[string]bool, 64)
+	for _, d := range types.Default {
+		known["."+strings.ToLower(d.Extension)] = true
+	}
+	for _, o := range types.Override {
+		known[strings.ToLower(o.PartName)] = true
+	}
+	sb := strings.Builder{}
+	for _, m := range f.media {
+		ext := strings.ToLower(path.Ext(m.Name))
+		if len(ext) <= 1 || known[ext] || known[strings.ToLower("/"+m.String())] {
+			continue
+		}
+		known[ext] = true
+		typ := mime.TypeByExtension(ext)
+		switch ext {
+		case ".jpg":
+			typ = "image/jpeg"
+		case ".jpeg", ".png", ".gif", ".webp", ".bmp", ".tiff":
+			typ = "image/" + ext[1:]
+		case ".emf", ".wmf":
+			typ = "image/x-" + ext[1:]
+		}
+		if typ == "" {
+			typ = "application/octet-stream"
+		}
+		sb.WriteString(`<Default xmlns="` + XMLNS_TYPES + `" Extension="`)
+		_ = xml.EscapeText(&sb, []byte(ext[1:]))
+		sb.WriteString(`" ContentType="`)
+		_ = xml.EscapeText(&sb, []byte(typ))
+		sb.WriteString(`"/>`)
+	}
+	if sb.Len() == 0 {
+		return data
+	}
+	dec := xml.NewDecoder(bytes.NewReader(data))
+	for { // insert behind the start tag of the root
+		t, err := dec.RawToken()
+		if err != nil {
+			return data
+		}
+		if _, ok := t.(xml.StartElement); ok {
+			i := dec.InputOffset()
+			return []byte(string(data[:i]) + sb.String() + string(data[i:]))
+		}
+	}
+}
+
 type marshaller struct {
 	data interface{}
 	io.Reader
diff --git a/structrel.go b/structrel.go
index 547e63d..c44ded5 100644
--- a/structrel.go
+++ b/structrel.go
@@ -23,6 +23,7 @@ package docx
 //nolint:revive,stylecheck
 const (
 	XMLNS_REL     = `http://schemas.openxmlformats.org/package/2006/relationships`
+	XMLNS_TYPES   = `http://schemas.openxmlformats.org/package/2006/content-types`
 	REL_HYPERLINK = `http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink`
 	REL_IMAGE     = `http://schemas.openxmlformats.org/officeDocument/2006/relationships/image`
 
-- 
2.43.0


From 8a5d1d67a997cd28d005fd1d9ec58206567eb6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 29/55] fix: formatting of parsed runs, rows and cells without
 properties

---
 apirun.go   | 30 +++++++++++++++++++-----------
 apitable.go |  9 +++++++++
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/apirun.go b/apirun.go
index f5d2b83..1d57c02 100644
--- a/apirun.go
+++ b/apirun.go
@@ -20,9 +20,17 @@
 
 package docx
 
+// properties of the run, which a parsed one may not have yet
+func (r *Run) properties() *RunProperties {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
+	return r.RunProperties
+}
+
 // Color allows to set run color
 func (r *Run) Color(color string) *Run {
-	r.RunProperties.Color = &Color{
+	r.properties().Color = &Color{
 		Val: color,
 	}
 	return r
@@ -30,7 +38,7 @@ func (r *Run) Color(color string) *Run {
 
 // Size allows to set run size
 func (r *Run) Size(size string) *Run {
-	r.RunProperties.Size = &Size{
+	r.properties().Size = &Size{
 		Val: size,
 	}
 	return r
@@ -38,7 +46,7 @@ func (r *Run) Size(size string) *Run {
 
 // SizeCs allows to set run sizecs
 func (r *Run) SizeCs(size string) *Run {
-	r.RunProperties.SizeCs = &SizeCs{
+	r.properties().SizeCs = &SizeCs{
 		Val: size,
 	}
 	return r
@@ -46,7 +54,7 @@ func (r *Run) SizeCs(size string) *Run {
 
 // Shade allows to set run shade
 func (r *Run) Shade(val, color, fill string) *Run {
-	r.RunProperties.Shade = &Shade{
+	r.properties().Shade = &Shade{
 		Val:   val,
 		Color: color,
 		Fill:  fill,
@@ -56,7 +64,7 @@ func (r *Run) Shade(val, color, fill string) *Run {
 
 // Spacing allows to set run spacing
 func (r *Run) Spacing(line int) *Run {
-	r.RunProperties.Spacing = &Spacing{
+	r.properties().Spacing = &Spacing{
 		Line: line,
 	}
 	return r
@@ -64,13 +72,13 @@ func (r *Run) Spacing(line int) *Run {
 
 // Bold ...
 func (r *Run) Bold() *Run {
-	r.RunProperties.Bold = &Bold{}
+	r.properties().Bold = &Bold{}
 	return r
 }
 
 // Italic ...
 func (r *Run) Italic() *Run {
-	r.RunProperties.Italic = &Italic{}
+	r.properties().Italic = &Italic{}
 	return r
 }
 
@@ -89,13 +97,13 @@ func (r *Run) Italic() *Run {
 //	dashLong: Specifies a long dash underline.
 //	wavyDouble: Specifies a double wavy underline.
 func (r *Run) Underline(val string) *Run {
-	r.RunProperties.Underline = &Underline{Val: val}
+	r.properties().Underline = &Underline{Val: val}
 	return r
 }
 
 // Highlight ...
 func (r *Run) Highlight(val string) *Run {
-	r.RunProperties.Highlight = &Highlight{Val: val}
+	r.properties().Highlight = &Highlight{Val: val}
 	return r
 }
 
@@ -105,7 +113,7 @@ func (r *Run) Strike(val bool) *Run {
 	if val {
 		trueFalseStr = "true"
 	}
-	r.RunProperties.Strike = &Strike{Val: trueFalseStr}
+	r.properties().Strike = &Strike{Val: trueFalseStr}
 	return r
 }
 
@@ -117,7 +125,7 @@ func (r *Run) AddTab() *Run {
 
 // Font sets the font of the run
 func (r *Run) Font(ascii, eastAsia, hansi, hint string) *Run {
-	r.RunProperties.Fonts = &RunFonts{
+	r.properties().Fonts = &RunFonts{
 		ASCII:    ascii,
 		EastAsia: eastAsia,
 		HAnsi:    hansi,
diff --git a/apitable.go b/apitable.go
index afe1ed1..4e4c321 100644
--- a/apitable.go
+++ b/apitable.go
@@ -166,6 +166,9 @@ func (f *Docx) AddTableTwips(
 //		both：两端对齐。
 //		distribute：分散对齐。
 func (t *Table) Justification(val string) *Table {
+	if t.TableProperties == nil {
+		t.TableProperties = &WTableProperties{}
+	}
 	if t.TableProperties.Justification == nil {
 		t.TableProperties.Justification = &Justification{Val: val}
 		return t
@@ -183,6 +186,9 @@ func (t *Table) Justification(val string) *Table {
 //		both：两端对齐。
 //		distribute：分散对齐。
 func (w *WTableRow) Justification(val string) *WTableRow {
+	if w.TableRowProperties == nil {
+		w.TableRowProperties = &WTableRowProperties{}
+	}
 	if w.TableRowProperties.Justification == nil {
 		w.TableRowProperties.Justification = &Justification{Val: val}
 		return w
@@ -193,6 +199,9 @@ func (w *WTableRow) Justification(val string) *WTableRow {
 
 // Shade allows to set cell's shade
 func (c *WTableCell) Shade(val, color, fill string) *WTableCell {
+	if c.TableCellProperties == nil {
+		c.TableCellProperties = &WTableCellProperties{}
+	}
 	c.TableCellProperties.Shade = &Shade{
 		Val:   val,
 		Color: color,
-- 
2.43.0


From 7b3d36e4e4fb21936f59810b8b46071d73419e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 30/55] fix: refuse texts like NaN and infinity as numbers

---
 helper.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helper.go b/helper.go
index a16197c..09eb49e 100644
--- a/helper.go
+++ b/helper.go
@@ -48,7 +48,7 @@ func GetInt64(s string) (int64, error) {
 		return v, nil
 	}
 	v2, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && v2-v2 == 0 { // neither infinite nor NaN
 		return int64(v2), nil
 	}
 	_, err = fmt.Sscanf(s, "%d", &v)
@@ -62,7 +62,7 @@ func GetInt(s string) (int, error) {
 		return v, nil
 	}
 	v2, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && v2-v2 == 0 { // neither infinite nor NaN
 		return int(v2), nil
 	}
 	_, err = fmt.Sscanf(s, "%d", &v)
-- 
2.43.0


From 5cd40d0008d4497544ee317ea1007a5d5b2d7a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 31/55] fix: write the spacing of a run as its character
 spacing

---
 apirun.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apirun.go b/apirun.go
index 1d57c02..e1bdd31 100644
--- a/apirun.go
+++ b/apirun.go
@@ -65,7 +65,7 @@ func (r *Run) Shade(val, color, fill string) *Run {
 // Spacing allows to set run spacing
 func (r *Run) Spacing(line int) *Run {
 	r.properties().Spacing = &Spacing{
-		Line: line,
+		Val: line, // the spacing of a run has no other attribute
 	}
 	return r
 }
-- 
2.43.0


From c8734b92fed0c1bc25e46ed8a2538f991c62a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 32/55] fix: keep groups inside other groups

---
 structgroup.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/structgroup.go b/structgroup.go
index 1dc9d43..19088a9 100644
--- a/structgroup.go
+++ b/structgroup.go
@@ -224,6 +224,14 @@ func (w *WPGGroupShape) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 					return err
 				}
 				w.Elems = append(w.Elems, &value)
+			case "grpSp":
+				var value WPGGroupShape
+				value.file = w.file
+				err = d.DecodeElement(&value, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
+				w.Elems = append(w.Elems, &value)
 			default:
 				err = d.Skip() // skip unsupported tags
 				if err != nil {
-- 
2.43.0


From cebe7b7f3696ed84b09417faefc426ff1d5d7fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 33/55] fix: read the default insets of shapes

---
 structshape.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structshape.go b/structshape.go
index 2cb0072..1eb4a1e 100644
--- a/structshape.go
+++ b/structshape.go
@@ -642,6 +642,8 @@ type WPSBodyPr struct {
 
 // UnmarshalXML ...
 func (r *WPSBodyPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	// the insets if they are not given
+	r.LIns, r.TIns, r.RIns, r.BIns = 91440, 45720, 91440, 45720
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "rot":
-- 
2.43.0


From b6c749b9b8e3b22b231e48a519cb2b5ab3b490e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:51 +0000
Subject: [PATCH 34/55] fix: do not write a transformation of zero size for
 none

---
 structdrawing.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/structdrawing.go b/structdrawing.go
index 20640b1..853a8aa 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -981,6 +981,15 @@ type AXfrm struct {
 	ChExt   *AExt    `xml:"a:chExt,omitempty"`
 }
 
+// MarshalXML leaves out an empty transformation, which is what an element without one has
+func (a AXfrm) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	if a == (AXfrm{XMLName: a.XMLName}) {
+		return nil
+	}
+	type axfrm AXfrm
+	return e.EncodeElement(axfrm(a), start)
+}
+
 // UnmarshalXML ...
 func (a *AXfrm) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
 	for _, attr := range start.Attr {
-- 
2.43.0


From 37f9600abcc2346c5547899a3bcb5ed56d810d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 35/55] fix: read the flags of a table look that has only a
 value

---
 structtable.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structtable.go b/structtable.go
index 1438e7e..fdd21c9 100644
--- a/structtable.go
+++ b/structtable.go
@@ -23,6 +23,7 @@ package docx
 import (
 	"encoding/xml"
 	"io"
+	"strconv"
 	"strings"
 )
 
@@ -302,6 +303,12 @@ type WTableLook struct {
 
 // UnmarshalXML ...
 func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
+	// val has a bit for each of the others, which counts for those not given
+	if v, err := strconv.ParseUint(getAtt(start.Attr, "val"), 16, 16); err == nil {
+		for i, f := range []*int{&t.FirstRow, &t.LastRow, &t.FirstCol, &t.LastCol, &t.NoHBand, &t.NoVBand} {
+			*f = int(v >> (5 + i) & 1)
+		}
+	}
 	for _, attr := range start.Attr {
 		if attr.Value == "" {
 			continue
-- 
2.43.0


From fbeb8d8feaf3593ca874d4d6954d1e85646096ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 36/55] fix: do not take namespace declarations for attributes

---
 unpack.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 72ec04d..4100139 100644
--- a/unpack.go
+++ b/unpack.go
@@ -100,7 +100,7 @@ func (f *Docx) parseDocument(file *zip.File) error {
 	f.Document.Body.file = f
 	//TODO: find last docID
 	f.docID = 100000
-	err = xml.NewDecoder(zf).Decode(&f.Document)
+	err = xml.NewTokenDecoder(declSkipper{xml.NewDecoder(zf)}).Decode(&f.Document)
 	if err != nil {
 		return err
 	}
@@ -108,6 +108,28 @@ func (f *Docx) parseDocument(file *zip.File) error {
 	return err
 }
 
+// declSkipper leaves out namespace declarations, which are not to be
+// taken for attributes named like the prefix (xmlns:w is no w:w)
+type declSkipper struct {
+	d *xml.Decoder
+}
+
+// Token implements xml.TokenReader
+func (s declSkipper) Token() (xml.Token, error) {
+	t, err := s.d.Token()
+	if tt, ok := t.(xml.StartElement); ok {
+		attr := tt.Attr[:0]
+		for _, a := range tt.Attr {
+			if a.Name.Space != "xmlns" && (a.Name.Space != "" || a.Name.Local != "xmlns") {
+				attr = append(attr, a)
+			}
+		}
+		tt.Attr = attr
+		t = tt
+	}
+	return t, err
+}
+
 // parseDocRelation processes one of the relevant files, the one with the relationships
 func (f *Docx) parseDocRelation(file *zip.File) error {
 	zf, err := file.Open()
-- 
2.43.0


From 961afce1fd049c1d5ff2514b82f2810a2ceb2881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:42 +0000
Subject: [PATCH 37/55] fix: save the relationships in their namespace

---
 unpack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 4100139..944efde 100644
--- a/unpack.go
+++ b/unpack.go
@@ -41,6 +41,7 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx = new(Docx)
 	docx.mediaNameIdx = make(map[string]int, 64)
 	docx.slowIDs = make(map[string]uintptr, 64)
+	docx.docRelation.Xmlns = XMLNS_REL
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
 	for _, f := range zipReader.File {
@@ -138,11 +139,11 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	}
 	defer zf.Close()
 
-	f.docRelation.Xmlns = XMLNS_R
 	err = xml.NewDecoder(zf).Decode(&f.docRelation)
 	if err != nil {
 		return err
 	}
+	f.docRelation.Xmlns = XMLNS_REL // may have been declared with a prefix
 	_, err = io.Copy(io.Discard, zf) // the checksum is verified at the end
 	if err != nil {
 		return err
-- 
2.43.0


From 7f2e9c5ca4db887324fd467304af2db0e101f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:44 +0000
Subject: [PATCH 38/55] fix: refuse packages without main document

---
 unpack.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/unpack.go b/unpack.go
index 944efde..58ffb13 100644
--- a/unpack.go
+++ b/unpack.go
@@ -29,6 +29,9 @@ import (
 	"strings"
 )
 
+// ErrNoDocument is returned for packages without a main document
+var ErrNoDocument = errors.New("no word/document.xml")
+
 // unpack receives a zip file (word documents are a zip with multiple xml inside)
 // and parses the files that are relevant for us:
 //
@@ -44,6 +47,7 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx.docRelation.Xmlns = XMLNS_REL
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
+	hasDocument := false
 	for _, f := range zipReader.File {
 		if f.Name == "word/_rels/document.xml.rels" {
 			err = docx.parseDocRelation(f)
@@ -57,6 +61,7 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 			if err != nil {
 				return
 			}
+			hasDocument = true
 			continue
 		}
 		if strings.HasSuffix(f.Name, "/") {
@@ -72,6 +77,9 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 		// fill remaining files into tmpfslst
 		docx.tmpfslst = append(docx.tmpfslst, f.Name)
 	}
+	if !hasDocument {
+		return nil, ErrNoDocument
+	}
 	//TODO: find last imageID
 	docx.imageID = 100000
 	return
-- 
2.43.0


From 91f046951cbf4ba5ee462b5c85017f03eba07d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:38 +0000
Subject: [PATCH 39/55] fix: do not name a picture like a media that differs in
 case

---
 image.go |  2 +-
 media.go | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/image.go b/image.go
index a7ddf3a..75f1cc7 100644
--- a/image.go
+++ b/image.go
@@ -28,7 +28,7 @@ import (
 // addImage add image to docx and return its rId
 func (f *Docx) addImage(format string, data []byte) string {
 	name := ""
-	for name == "" || f.Media(name) != nil { // never take the name of an existing media
+	for name == "" || f.hasMedia(name) { // never take the name of an existing media
 		name = "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format
 	}
 	m := Media{Name: name, Data: data}
diff --git a/media.go b/media.go
index 01acb24..46e73df 100644
--- a/media.go
+++ b/media.go
@@ -20,6 +20,8 @@
 
 package docx
 
+import "strings"
+
 //nolint:revive,stylecheck
 const MEDIA_FOLDER = `word/media/`
 
@@ -43,6 +45,20 @@ func (f *Docx) Media(name string) *Media {
 	return &f.media[i]
 }
 
+// hasMedia is whether there is a media of that name, names of parts being
+// equal if they differ only in case
+func (f *Docx) hasMedia(name string) bool {
+	if f.Media(name) != nil {
+		return true
+	}
+	for i := range f.media {
+		if strings.EqualFold(f.media[i].Name, name) {
+			return true
+		}
+	}
+	return false
+}
+
 // addMedia append the media to docx's media list
 func (f *Docx) addMedia(m Media) {
 	f.mediaNameIdx[m.Name] = len(f.media)
-- 
2.43.0


From 5fc229bda17c4321f165c2129191f95f2620c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:43 +0000
Subject: [PATCH 40/55] fix: do not reuse relationship ids after very large
 ones

---
 link.go   | 22 ++++++++++++++++++++--
 unpack.go |  2 +-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/link.go b/link.go
index 2c1d3e5..4e025cd 100644
--- a/link.go
+++ b/link.go
@@ -35,12 +35,30 @@ var (
 	ErrRefTargetNotFound = errors.New("ref target not found")
 )
 
+// maxRelID bounds the counted relationship ids: larger ones in parsed
+// packages are not counted, as the next id would overflow
+const maxRelID = 1 << 62
+
+// newRelID gives a relationship id that is not used yet
+func (f *Docx) newRelID() string {
+	for {
+		n := atomic.AddUintptr(&f.rID, 1)
+		id := "rId" + strconv.Itoa(int(n))
+		if uint64(n) < maxRelID {
+			return id
+		}
+		if _, err := f.ReferTarget(id); err != nil {
+			return id
+		}
+	}
+}
+
 // when adding an hyperlink we need to store a reference in the relationship field
 //
 //	this func is not thread-safe
 func (f *Docx) addLinkRelation(link string) string {
 	rel := Relationship{
-		ID:         "rId" + strconv.Itoa(int(atomic.AddUintptr(&f.rID, 1))),
+		ID:         f.newRelID(),
 		Type:       REL_HYPERLINK,
 		Target:     link,
 		TargetMode: REL_TARGETMODE,
@@ -56,7 +74,7 @@ func (f *Docx) addLinkRelation(link string) string {
 //	this func is not thread-safe
 func (f *Docx) addImageRelation(m Media) string {
 	rel := Relationship{
-		ID:     "rId" + strconv.Itoa(int(atomic.AddUintptr(&f.rID, 1))),
+		ID:     f.newRelID(),
 		Type:   REL_IMAGE,
 		Target: "media/" + m.Name,
 	}
diff --git a/unpack.go b/unpack.go
index 58ffb13..83f7fb6 100644
--- a/unpack.go
+++ b/unpack.go
@@ -164,7 +164,7 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 		if err != nil {
 			return err
 		}
-		if f.rID < uintptr(id) {
+		if id < maxRelID && f.rID < uintptr(id) {
 			f.rID = uintptr(id)
 		}
 	}
-- 
2.43.0


From a18ae9998f60da3ab499826908b55e9e75bba205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:51 +0000
Subject: [PATCH 41/55] fix: compare runs without properties like runs with
 empty ones

---
 structtext.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/structtext.go b/structtext.go
index defeb91..2cab271 100644
--- a/structtext.go
+++ b/structtext.go
@@ -149,6 +149,14 @@ func MergeAllRuns(_, _ *Run) bool {
 	return true
 }
 
+// propsValue of a run, which has no property set if it has no properties
+func (r *Run) propsValue() reflect.Value {
+	if r.RunProperties == nil {
+		return reflect.ValueOf(RunProperties{})
+	}
+	return reflect.ValueOf(r.RunProperties).Elem()
+}
+
 // MergeSamePropRuns merges runs with the same properties
 func MergeSamePropRuns(r1, r2 *Run) bool {
 	if r1 == nil || r2 == nil {
@@ -157,14 +165,8 @@ func MergeSamePropRuns(r1, r2 *Run) bool {
 	if r1.RunProperties == r2.RunProperties {
 		return true
 	}
-	if r1.RunProperties == nil && r2.RunProperties != nil {
-		return false
-	}
-	if r1.RunProperties != nil && r2.RunProperties == nil {
-		return false
-	}
-	rr1 := reflect.ValueOf(r1.RunProperties).Elem()
-	rr2 := reflect.ValueOf(r2.RunProperties).Elem()
+	rr1 := r1.propsValue()
+	rr2 := r2.propsValue()
 	for i := 1; i < rr1.NumField(); i++ {
 		x1 := rr1.Field(i)
 		x2 := rr2.Field(i)
@@ -200,14 +202,8 @@ func MergeSamePropRunsOf(name ...string) RunMergeRule {
 		if r1.RunProperties == r2.RunProperties {
 			return true
 		}
-		if r1.RunProperties == nil && r2.RunProperties != nil {
-			return false
-		}
-		if r1.RunProperties != nil && r2.RunProperties == nil {
-			return false
-		}
-		rr1 := reflect.ValueOf(r1.RunProperties).Elem()
-		rr2 := reflect.ValueOf(r2.RunProperties).Elem()
+		rr1 := r1.propsValue()
+		rr2 := r2.propsValue()
 		for _, n := range name {
 			x1 := rr1.FieldByName(n)
 			x2 := rr2.FieldByName(n)
-- 
2.43.0


From e8da29642346512d5204387adadb6fe8c4653809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:29 +0000
Subject: [PATCH 42/55] fix: drop the drawings inside links, too

---
 structpara.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/structpara.go b/structpara.go
index 476210c..ee63cdb 100644
--- a/structpara.go
+++ b/structpara.go
@@ -299,10 +299,21 @@ func (p *Paragraph) KeepElements(name ...string) {
 	p.Children = items
 }
 
+// runOf a child of a paragraph, which may be a link
+func runOf(child interface{}) *Run {
+	switch o := child.(type) {
+	case *Run:
+		return o
+	case *Hyperlink:
+		return &o.Run
+	}
+	return nil
+}
+
 // DropCanvas drops all canvases in paragraph
 func (p *Paragraph) DropCanvas() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r := runOf(pc); r != nil {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -327,7 +338,7 @@ func (p *Paragraph) DropCanvas() {
 // DropShape drops all shapes in paragraph
 func (p *Paragraph) DropShape() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r := runOf(pc); r != nil {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -352,7 +363,7 @@ func (p *Paragraph) DropShape() {
 // DropGroup drops all groups in paragraph
 func (p *Paragraph) DropGroup() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r := runOf(pc); r != nil {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -377,7 +388,7 @@ func (p *Paragraph) DropGroup() {
 // DropShapeAndCanvas drops all shapes and canvases in paragraph
 func (p *Paragraph) DropShapeAndCanvas() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r := runOf(pc); r != nil {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -402,7 +413,7 @@ func (p *Paragraph) DropShapeAndCanvas() {
 // DropShapeAndCanvasAndGroup drops all shapes, canvases and groups in paragraph
 func (p *Paragraph) DropShapeAndCanvasAndGroup() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r := runOf(pc); r != nil {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
@@ -427,7 +438,7 @@ func (p *Paragraph) DropShapeAndCanvasAndGroup() {
 // DropNilPicture drops all drawings with nil picture in paragraph
 func (p *Paragraph) DropNilPicture() {
 	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
+		if r := runOf(pc); r != nil {
 			nrc := make([]interface{}, 0, len(r.Children))
 			for _, rc := range r.Children {
 				if d, ok := rc.(*Drawing); ok {
-- 
2.43.0


From eed6210654c40e7617d1a10ba4365d504fa78a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:58 +0000
Subject: [PATCH 43/55] fix: resize shapes like pictures

---
 apidrawing.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apidrawing.go b/apidrawing.go
index 6ff198d..7a1a39d 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -139,6 +139,10 @@ func (r *WPInline) Size(w, h int64) {
 		r.Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CX = w
 		r.Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CY = h
 	}
+	if r.Graphic != nil && r.Graphic.GraphicData != nil && r.Graphic.GraphicData.Shape != nil && r.Graphic.GraphicData.Shape.SpPr != nil {
+		r.Graphic.GraphicData.Shape.SpPr.Xfrm.Ext.CX = w
+		r.Graphic.GraphicData.Shape.SpPr.Xfrm.Ext.CY = h
+	}
 }
 
 // AddAnchorDrawing adds inline drawing to paragraph
@@ -256,4 +260,8 @@ func (r *WPAnchor) Size(w, h int64) {
 		r.Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CX = w
 		r.Graphic.GraphicData.Pic.SpPr.Xfrm.Ext.CY = h
 	}
+	if r.Graphic != nil && r.Graphic.GraphicData != nil && r.Graphic.GraphicData.Shape != nil && r.Graphic.GraphicData.Shape.SpPr != nil {
+		r.Graphic.GraphicData.Shape.SpPr.Xfrm.Ext.CX = w
+		r.Graphic.GraphicData.Shape.SpPr.Xfrm.Ext.CY = h
+	}
 }
-- 
2.43.0


From bcbc15be1a9cd19213a4d822eefb4842811a6807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 44/55] fix: extend empty lists of content types

---
 pack.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pack.go b/pack.go
index ec6909b..7deff4c 100644
--- a/pack.go
+++ b/pack.go
@@ -137,8 +137,15 @@ func (f *Docx) addContentTypes(data []byte) []byte {
 		if err != nil {
 			return data
 		}
-		if _, ok := t.(xml.StartElement); ok {
+		if root, ok := t.(xml.StartElement); ok {
 			i := dec.InputOffset()
+			if bytes.HasSuffix(data[:i], []byte("/>")) { // the list is empty
+				name := root.Name.Local
+				if root.Name.Space != "" {
+					name = root.Name.Space + ":" + name
+				}
+				return []byte(string(data[:i-2]) + ">" + sb.String() + "</" + name + ">" + string(data[i:]))
+			}
 			return []byte(string(data[:i]) + sb.String() + string(data[i:]))
 		}
 	}
-- 
2.43.0


From 88a370ff3847476c45e9c91a67ee5802c3b8b614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:09 +0000
Subject: [PATCH 45/55] fix: split files without extension on the command line

---
 cmd/main/main.go | 3 +++
 unpack.go        | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/main/main.go b/cmd/main/main.go
index 98db9d6..5676692 100644
--- a/cmd/main/main.go
+++ b/cmd/main/main.go
@@ -229,6 +229,9 @@ func main() {
 	if *splitre != "" {
 		a := strings.LastIndex(*fileLocation, "/")
 		b := strings.LastIndex(*fileLocation, ".")
+		if b <= a { // the name has no extension
+			b = len(*fileLocation)
+		}
 		for i, splitteddoc := range doc.SplitByParagraph(docx.SplitDocxByPlainTextRegex(regexp.MustCompile(*splitre))) {
 			name := (*fileLocation)[:a+1] + "unmarshal_" + (*fileLocation)[a+1:b] + "_split" + strconv.Itoa(i) + (*fileLocation)[b:]
 			f, err := os.Create(name)
diff --git a/unpack.go b/unpack.go
index 83f7fb6..b26214e 100644
--- a/unpack.go
+++ b/unpack.go
@@ -151,7 +151,7 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	if err != nil {
 		return err
 	}
-	f.docRelation.Xmlns = XMLNS_REL // may have been declared with a prefix
+	f.docRelation.Xmlns = XMLNS_REL  // may have been declared with a prefix
 	_, err = io.Copy(io.Discard, zf) // the checksum is verified at the end
 	if err != nil {
 		return err
-- 
2.43.0


From 2306244a2e56b96ae6f6a6d84422e395c76c71e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:53 +0000
Subject: [PATCH 46/55] fix: refuse numbers out of range

Converting a float beyond the range of the integer gives whatever the
machine makes of it.
---
 helper.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/helper.go b/helper.go
index 09eb49e..2c72a9f 100644
--- a/helper.go
+++ b/helper.go
@@ -21,6 +21,7 @@
 package docx
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 	"unsafe"
@@ -48,9 +49,12 @@ func GetInt64(s string) (int64, error) {
 		return v, nil
 	}
 	v2, err := strconv.ParseFloat(s, 64)
-	if err == nil && v2-v2 == 0 { // neither infinite nor NaN
+	if err == nil && v2 >= -1<<(64-1) && v2 < 1<<(64-1) { // neither infinite nor NaN
 		return int64(v2), nil
 	}
+	if err == nil || errors.Is(err, strconv.ErrRange) {
+		return 0, &strconv.NumError{Func: "GetInt64", Num: s, Err: strconv.ErrRange}
+	}
 	_, err = fmt.Sscanf(s, "%d", &v)
 	return v, err
 }
@@ -62,9 +66,12 @@ func GetInt(s string) (int, error) {
 		return v, nil
 	}
 	v2, err := strconv.ParseFloat(s, 64)
-	if err == nil && v2-v2 == 0 { // neither infinite nor NaN
+	if err == nil && v2 >= -1<<(strconv.IntSize-1) && v2 < 1<<(strconv.IntSize-1) { // neither infinite nor NaN
 		return int(v2), nil
 	}
+	if err == nil || errors.Is(err, strconv.ErrRange) {
+		return 0, &strconv.NumError{Func: "GetInt", Num: s, Err: strconv.ErrRange}
+	}
 	_, err = fmt.Sscanf(s, "%d", &v)
 	return v, err
 }
-- 
2.43.0


From df1419841bb3e16b6685f75ee2b208e021678c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:49 +0000
Subject: [PATCH 47/55] fix: do not write behind the given items and media

---
 docx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx.go b/docx.go
index b6ff527..182f4dc 100644
--- a/docx.go
+++ b/docx.go
@@ -113,7 +113,7 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 			XMLWPS: XMLNS_WPS,
 			XMLWPC: XMLNS_WPC,
 			XMLWPG: XMLNS_WPG,
-			Body:   Body{Items: items},
+			Body:   Body{Items: items[:len(items):len(items)]}, // do not append into the array of the caller
 		},
 		docRelation: Relationships{
 			Xmlns: XMLNS_REL,
@@ -135,7 +135,7 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 				},
 			},
 		},
-		media:        media,
+		media:        media[:len(media):len(media)],
 		mediaNameIdx: make(map[string]int, 64),
 		rID:          3,
 		slowIDs:      make(map[string]uintptr, 64),
-- 
2.43.0


From f59d1f74df8b19f57b89555de486de90fa42a43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:46 +0000
Subject: [PATCH 48/55] fix: report the number of bytes a document was saved
 with

---
 docx.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/docx.go b/docx.go
index 182f4dc..5fdf97e 100644
--- a/docx.go
+++ b/docx.go
@@ -148,15 +148,29 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 	return doc
 }
 
+// countWriter counts the bytes written
+type countWriter struct {
+	w io.Writer
+	n int64
+}
+
+func (c *countWriter) Write(p []byte) (n int, err error) {
+	n, err = c.w.Write(p)
+	c.n += int64(n)
+	return
+}
+
 // WriteTo allows to save a docx to a writer
 func (f *Docx) WriteTo(writer io.Writer) (_ int64, err error) {
-	zipWriter := zip.NewWriter(writer)
+	counter := &countWriter{w: writer}
+	zipWriter := zip.NewWriter(counter)
 
 	err = f.pack(zipWriter)
 	if err != nil {
-		return 0, err
+		return counter.n, err
 	}
-	return 0, zipWriter.Close()
+	err = zipWriter.Close()
+	return counter.n, err
 }
 
 // Read is a fake function and cannot be used
-- 
2.43.0


From c5b11b792f9c0c8007f5ff90ed686021b3ffbede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:47 +0000
Subject: [PATCH 49/55] fix: write the properties in the order of the file
 format

---
 structnum.go   |  2 +-
 structpara.go  | 16 ++++++++--------
 structrun.go   | 16 ++++++++--------
 structtable.go |  4 ++--
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/structnum.go b/structnum.go
index 0e239a7..fc6f816 100644
--- a/structnum.go
+++ b/structnum.go
@@ -25,8 +25,8 @@ import (
 // NumProperties show the number properties
 type NumProperties struct {
 	XMLName xml.Name `xml:"w:numPr,omitempty"`
-	NumID   *NumID
 	Ilvl    *Ilevel
+	NumID   *NumID
 }
 
 // NumID show the number id
diff --git a/structpara.go b/structpara.go
index ee63cdb..2a6021c 100644
--- a/structpara.go
+++ b/structpara.go
@@ -30,19 +30,19 @@ import (
 // ParagraphProperties <w:pPr>
 type ParagraphProperties struct {
 	XMLName        xml.Name `xml:"w:pPr,omitempty"`
+	Style          *Style
+	NumProperties  *NumProperties
+	Shade          *Shade
 	Tabs           *Tabs
+	Kinsoku        *Kinsoku
+	OverflowPunct  *OverflowPunct
+	AdjustRightInd *AdjustRightInd
+	SnapToGrid     *SnapToGrid
 	Spacing        *Spacing
-	NumProperties  *NumProperties
 	Ind            *Ind
 	Justification  *Justification
-	Shade          *Shade
-	Kern           *Kern
-	Style          *Style
 	TextAlignment  *TextAlignment
-	AdjustRightInd *AdjustRightInd
-	SnapToGrid     *SnapToGrid
-	Kinsoku        *Kinsoku
-	OverflowPunct  *OverflowPunct
+	Kern           *Kern
 
 	RunProperties *RunProperties
 }
diff --git a/structrun.go b/structrun.go
index ffc39cc..ec5d0a4 100644
--- a/structrun.go
+++ b/structrun.go
@@ -228,22 +228,22 @@ func (r *Run) KeepElements(name ...string) {
 // RunProperties encapsulates visual properties of a run
 type RunProperties struct {
 	XMLName   xml.Name `xml:"w:rPr,omitempty"`
+	RunStyle  *RunStyle
+	Style     *Style
 	Fonts     *RunFonts
 	Bold      *Bold
-	ICs       *struct{} `xml:"w:iCs,omitempty"`
 	Italic    *Italic
-	Highlight *Highlight
+	ICs       *struct{} `xml:"w:iCs,omitempty"`
+	Strike    *Strike
 	Color     *Color
-	Size      *Size
-	SizeCs    *SizeCs
 	Spacing   *Spacing
-	RunStyle  *RunStyle
-	Style     *Style
-	Shade     *Shade
 	Kern      *Kern
+	Size      *Size
+	SizeCs    *SizeCs
+	Highlight *Highlight
 	Underline *Underline
+	Shade     *Shade
 	VertAlign *VertAlign
-	Strike    *Strike
 }
 
 // UnmarshalXML ...
diff --git a/structtable.go b/structtable.go
index fdd21c9..3a0bb5b 100644
--- a/structtable.go
+++ b/structtable.go
@@ -108,8 +108,8 @@ func (t *Table) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 // WTableProperties is an element that represents the properties of a table in Word document.
 type WTableProperties struct {
 	XMLName       xml.Name `xml:"w:tblPr,omitempty"`
-	Position      *WTablePositioningProperties
 	Style         *WTableStyle
+	Position      *WTablePositioningProperties
 	Width         *WTableWidth
 	Justification *Justification `xml:"w:jc,omitempty"`
 	TableBorders  *WTableBorders `xml:"w:tblBorders"`
@@ -589,8 +589,8 @@ func (c *WTableCell) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 type WTableCellProperties struct {
 	XMLName        xml.Name `xml:"w:tcPr,omitempty"`
 	TableCellWidth *WTableCellWidth
-	VMerge         *WvMerge
 	GridSpan       *WGridSpan
+	VMerge         *WvMerge
 	TableBorders   *WTableBorders `xml:"w:tcBorders"`
 	Shade          *Shade
 	VAlign         *WVerticalAlignment
-- 
2.43.0


From ffe55f0fac07ccd4837484d74a5eb7d708347e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:39 +0000
Subject: [PATCH 50/55] fix: give pictures without extension a content type

---
 image.go |  5 ++++-
 pack.go  | 23 +++++++++++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/image.go b/image.go
index 75f1cc7..cad1f21 100644
--- a/image.go
+++ b/image.go
@@ -29,7 +29,10 @@ import (
 func (f *Docx) addImage(format string, data []byte) string {
 	name := ""
 	for name == "" || f.hasMedia(name) { // never take the name of an existing media
-		name = "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format
+		name = "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1)))
+		if format != "" {
+			name += "." + format
+		}
 	}
 	m := Media{Name: name, Data: data}
 	f.addMedia(m)
diff --git a/pack.go b/pack.go
index 7deff4c..dae23bf 100644
--- a/pack.go
+++ b/pack.go
@@ -29,6 +29,8 @@ import (
 	"os"
 	"path"
 	"strings"
+
+	"github.com/fumiama/imgsz"
 )
 
 // pack receives a zip file writer (word documents are a zip with multiple xml inside)
@@ -106,10 +108,18 @@ func (f *Docx) addContentTypes(data []byte) []byte {
 	sb := strings.Builder{}
 	for _, m := range f.media {
 		ext := strings.ToLower(path.Ext(m.Name))
-		if len(ext) <= 1 || known[ext] || known[strings.ToLower("/"+m.String())] {
+		part := strings.ToLower("/" + m.String())
+		if (len(ext) > 1 && known[ext]) || known[part] {
 			continue
 		}
-		known[ext] = true
+		noext := len(ext) <= 1 // has a type of its own
+		if noext {
+			known[part] = true
+			_, format, _ := imgsz.DecodeSize(bytes.NewReader(m.Data))
+			ext = "." + format
+		} else {
+			known[ext] = true
+		}
 		typ := mime.TypeByExtension(ext)
 		switch ext {
 		case ".jpg":
@@ -122,8 +132,13 @@ func (f *Docx) addContentTypes(data []byte) []byte {
 		if typ == "" {
 			typ = "application/octet-stream"
 		}
-		sb.WriteString(`<Default xmlns="` + XMLNS_TYPES + `" Extension="`)
-		_ = xml.EscapeText(&sb, []byte(ext[1:]))
+		if noext {
+			sb.WriteString(`<Override xmlns="` + XMLNS_TYPES + `" PartName="`)
+			_ = xml.EscapeText(&sb, []byte("/"+m.String()))
+		} else {
+			sb.WriteString(`<Default xmlns="` + XMLNS_TYPES + `" Extension="`)
+			_ = xml.EscapeText(&sb, []byte(ext[1:]))
+		}
 		sb.WriteString(`" ContentType="`)
 		_ = xml.EscapeText(&sb, []byte(typ))
 		sb.WriteString(`"/>`)
-- 
2.43.0


From 64429ca97e816400c64572eb56783d92a7be2e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:28 +0000
Subject: [PATCH 51/55] fix: find pictures that are not in the media folder

---
 link.go  |  3 +++
 theme.go | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/link.go b/link.go
index 4e025cd..dabbf6b 100644
--- a/link.go
+++ b/link.go
@@ -112,6 +112,9 @@ func (f *Docx) referMedia(id string) (*Media, error) {
 			return m, nil
 		}
 	}
+	if data, err := f.templateFile(tgt[1:]); err == nil { // not in the media folder
+		return &Media{Name: path.Base(tgt), Data: data}, nil
+	}
 	return nil, ErrRefTargetNotFound
 }
 
diff --git a/theme.go b/theme.go
index c3f1bb0..7d69319 100644
--- a/theme.go
+++ b/theme.go
@@ -32,6 +32,19 @@ func (f *Docx) UseTemplate(template string, tmpfslst []string, tmplfs fs.FS) *Do
 	return f
 }
 
+// templateFile reads a file of the template
+func (f *Docx) templateFile(name string) ([]byte, error) {
+	for _, file := range f.tmpfslst {
+		if file == name {
+			if f.template != "" {
+				file = "xml/" + f.template + "/" + file
+			}
+			return fs.ReadFile(f.tmplfs, file)
+		}
+	}
+	return nil, fs.ErrNotExist
+}
+
 // WithDefaultTheme use default theme embeded
 func (f *Docx) WithDefaultTheme() *Docx {
 	return f.UseTemplate("default", DefaultTemplateFilesList, TemplateXMLFS)
-- 
2.43.0


From 8bcc5c776d05b46232153fe476933a3b276bc15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:29 +0000
Subject: [PATCH 52/55] fix: do not take the names of pictures of the template

---
 media.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/media.go b/media.go
index 46e73df..7fbd1b5 100644
--- a/media.go
+++ b/media.go
@@ -56,6 +56,11 @@ func (f *Docx) hasMedia(name string) bool {
 			return true
 		}
 	}
+	for _, file := range f.tmpfslst { // those of the template
+		if strings.EqualFold(file, MEDIA_FOLDER+name) {
+			return true
+		}
+	}
 	return false
 }
 
-- 
2.43.0


From 4752e66ad0204213ef6c295521e798b4a65118a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:30 +0000
Subject: [PATCH 53/55] fix: keep the pictures of headers in the pieces of a
 split document

---
 media.go     | 33 ++++++++++++++++++++++++++++++++-
 structdoc.go |  4 ++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/media.go b/media.go
index 7fbd1b5..f48396c 100644
--- a/media.go
+++ b/media.go
@@ -20,7 +20,11 @@
 
 package docx
 
-import "strings"
+import (
+	"encoding/xml"
+	"path"
+	"strings"
+)
 
 //nolint:revive,stylecheck
 const MEDIA_FOLDER = `word/media/`
@@ -45,6 +49,33 @@ func (f *Docx) Media(name string) *Media {
 	return &f.media[i]
 }
 
+// partMedia is the media that other parts than the document refer to, such as headers
+func (f *Docx) partMedia() (media []Media) {
+	seen := make(map[string]bool, 64)
+	for _, name := range f.tmpfslst {
+		if !strings.HasSuffix(name, ".rels") || name == "word/_rels/document.xml.rels" {
+			continue
+		}
+		var rels Relationships
+		data, err := f.templateFile(name)
+		if err != nil || xml.Unmarshal(data, &rels) != nil {
+			continue
+		}
+		for _, r := range rels.Relationship {
+			tgt := r.Target
+			if !path.IsAbs(tgt) { // relative to the part, which is in the parent folder
+				tgt = path.Join("/", path.Dir(path.Dir(name)), tgt)
+			}
+			tgt = strings.TrimPrefix(path.Clean(tgt), "/"+MEDIA_FOLDER)
+			if m := f.Media(tgt); m != nil && r.TargetMode != REL_TARGETMODE && !seen[tgt] {
+				seen[tgt] = true
+				media = append(media, *m)
+			}
+		}
+	}
+	return
+}
+
 // hasMedia is whether there is a media of that name, names of parts being
 // equal if they differ only in case
 func (f *Docx) hasMedia(name string) bool {
diff --git a/structdoc.go b/structdoc.go
index 3b0e863..2d36122 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -217,6 +217,7 @@ func SplitDocxByPlainTextRegex(re *regexp.Regexp) ParagraphSplitRule {
 // The separator will be placed to the first doc item
 func (f *Docx) SplitByParagraph(separator ParagraphSplitRule) (docs []*Docx) {
 	items := f.Document.Body.Items
+	media := f.partMedia()
 newdoclop:
 	for len(items) > 0 {
 		ndoc := new(Docx)
@@ -227,6 +228,9 @@ newdoclop:
 		ndoc.template = f.template
 		ndoc.tmplfs = f.tmplfs
 		ndoc.tmpfslst = f.tmpfslst
+		for _, m := range media {
+			ndoc.addMedia(m)
+		}
 
 		ndoc.Document.XMLW = XMLNS_W
 		ndoc.Document.XMLR = XMLNS_R
-- 
2.43.0


From 96e3ada18d03c64a2704fe5e1c1739158996d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:56 +0000
Subject: [PATCH 54/55] fix: keep the relationship of a link whose bookmark is
 named like it

---
 structdoc.go  |  5 ++++-
 structlink.go | 20 +++++++++++++++++---
 structpara.go |  3 ++-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index 2d36122..c5203c9 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -306,7 +306,8 @@ func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 		}
 		if h, ok := pc.(*Hyperlink); ok {
 			rid := h.ID
-			if h.Anchor == "" || h.ID != h.Anchor { // not a bookmark of the document
+			internal := h.toBookmark(p.file)
+			if !internal {
 				tgt, err := p.file.ReferTarget(h.ID)
 				if err != nil {
 					continue
@@ -317,6 +318,8 @@ func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 				ID:     rid,
 				Anchor: h.Anchor,
 				Run:    *h.Run.copymedia(to),
+
+				internal: internal,
 			})
 			continue
 		}
diff --git a/structlink.go b/structlink.go
index f1d4d01..66c018b 100644
--- a/structlink.go
+++ b/structlink.go
@@ -32,13 +32,27 @@ type Hyperlink struct {
 	ID      string   `xml:"r:id,attr"`
 	Anchor  string   `xml:"w:anchor,attr,omitempty"` // Anchor is a bookmark in the target or, without ID, in this document
 	Run     Run
+
+	internal bool // internal is whether it has been read without a relationship
 }
 
-// MarshalXML leaves out the ID of a link to a bookmark in this document,
-// since it is the name of the bookmark but not a relationship then
+// toBookmark is whether the link leads to a bookmark in this document, the ID
+// being the name of the bookmark but not a relationship then
+func (r *Hyperlink) toBookmark(f *Docx) bool {
+	if r.Anchor == "" || r.ID != r.Anchor {
+		return false
+	}
+	if r.internal || f == nil {
+		return true
+	}
+	_, err := f.ReferTarget(r.ID)
+	return err != nil
+}
+
+// MarshalXML leaves out the ID of a link to a bookmark in this document
 func (r *Hyperlink) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 	start.Name = xml.Name{Local: "w:hyperlink"}
-	if r.Anchor == "" || r.ID != r.Anchor {
+	if !r.toBookmark(r.Run.file) {
 		type hyperlink Hyperlink
 		return e.EncodeElement((*hyperlink)(r), start)
 	}
diff --git a/structpara.go b/structpara.go
index 2a6021c..35a390b 100644
--- a/structpara.go
+++ b/structpara.go
@@ -184,7 +184,7 @@ func (p *Paragraph) String() string {
 			sb.WriteString("[")
 			sb.WriteString(text)
 			sb.WriteString("](")
-			if err != nil {
+			if err != nil || o.toBookmark(p.file) {
 				sb.WriteString(id)
 			} else {
 				sb.WriteString(link)
@@ -242,6 +242,7 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				value.Anchor = anchor
 				if id == "" {
 					value.ID = anchor
+					value.internal = true
 				}
 				elem = &value
 			case "r":
-- 
2.43.0


From 907803353357da408e592deeeffd57f54e7d7718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:47 +0000
Subject: [PATCH 55/55] fix: do not read tabs inside unknown elements of a tab
 list

Tabs.UnmarshalXML went on with the children of elements it does not know,
so a tab inside such an element became one of the list.
---
 structtext.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structtext.go b/structtext.go
index 2cab271..d124f32 100644
--- a/structtext.go
+++ b/structtext.go
@@ -52,6 +52,11 @@ func (tb *Tabs) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 					return err
 				}
 				tb.Tabs = append(tb.Tabs, &value)
+				continue
+			}
+			err = d.Skip() // skip unsupported tags
+			if err != nil {
+				return err
 			}
 		}
 	}
-- 
2.43.0

