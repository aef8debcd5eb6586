#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
NOPARSE="The six unit tests never call Parse or WriteTo; they unmarshal or marshal a few fixed structures"

p("C01","A document built through the API survives save and reopen",
 "For every program of building calls (paragraphs, text, tabs, page breaks, links, run and paragraph styling, numbering, tables, pictures, shapes, page size), saving the document and parsing the saved bytes yields a document with the same body items in the same order, holding the same text, links, pictures, tables, properties and styling. Saving the reopened document gives the same content again, and building can continue on the reopened document with the same guarantees.",
 ["programs","inputs"],"all sequences of public building calls with all arguments, saved and reopened any number of times",
 NOPARSE+", so no build-save-reopen program is ever exercised.",
 ["docx.go","empty.go","pack.go","unpack.go","apipara.go","apirun.go","apitext.go","apilink.go","apitable.go","apidrawing.go","apishape.go","theme.go","structdoc.go","structpara.go","structrun.go","structtable.go"],
 [("marshal by struct tags, unmarshal by hand-written UnmarshalXML","struct*.go"),("zip pack/unpack","pack.go, unpack.go")],
 [("body items","ordered paragraphs, tables, section properties","Document.Body.Items")],["bytes written by WriteTo","document returned by Parse"])

p("C02","Parse then save preserves all supported markup",
 "For every package whose main document uses only elements and attributes the library models, parsing and saving produces a main document with the same content elements in the same order and the same property elements, attribute values and text. Parsing and saving the result again changes nothing further.",
 ["inputs"],"all main documents over the modelled vocabulary (text, fonts, numbering, tabs, indents, tables, borders, section properties, inline and anchored pictures, shapes, text boxes, canvases, groups) with all attribute values",
 "Four tests round-trip one hand-written sample of drawing, shape, table and relationships each; most of the modelled vocabulary (43% statement coverage) is never unmarshalled.",
 ["structdoc.go","structpara.go","structrun.go","structtext.go","structtable.go","structsect.go","structnum.go","structeffects.go","structdrawing.go","structshape.go","structcanvas.go","structgroup.go","structlink.go"],
 [("per-element UnmarshalXML paired with struct tags","struct*.go")],[],["word/document.xml of the saved package"])

p("C03","Parts the library does not edit pass through unchanged",
 "After parsing a package and saving it, with or without edits to the body in between, every part other than the main document, its relationships part and (when pictures were added) the content-type list is present byte for byte under the same name, media included, and no other part is added except newly added pictures. Every relationship of the original keeps its identifier, type, target and target mode.",
 ["inputs","histories"],"all packages with arbitrary extra parts, media and relationships, and all edit sequences between parse and save",
 NOPARSE+", so pass-through of unmodelled parts is not tested at all.",
 ["unpack.go","pack.go","structrel.go","media.go"],
 [("list of template files kept on parse and copied on save","unpack.go unpack, pack.go pack")],
 [("template file list","names of parts copied through","Docx.tmpfslst")],["zip entries of the saved package"])

p("C04","Every saved package is well formed and self-consistent",
 "For every document the library can hold after building, parsing and editing (with a template that supplies the fixed parts), the saved bytes are a zip with unique part names whose generated XML parts are well formed with every namespace prefix declared. Relationship identifiers are unique, every relationship identifier used by the main document is defined and of the right kind, every internal target the library creates names a part in the package, every picture part has a content type, which is that of its format where the library adds it, and drawing identifiers given out by the library are unique.",
 ["programs","inputs","histories"],"all documents reachable by building, parsing, appending, splitting, filtering and merging",
 "No test writes a package, and the marshalling tests compare one sample by eye/length without checking prefixes, identifiers or package structure.",
 ["pack.go","link.go","image.go","media.go","id.go","structrel.go","structdrawing.go","structgroup.go","structcanvas.go","xml/default/[Content_Types].xml"],
 [("relationship id counter","link.go addLinkRelation/addImageRelation"),("fixed namespace declarations on root and graphics","structdoc.go, structdrawing.go")],
 [("relationship counter","last rId number used","Docx.rID"),("image counter","last image number used","Docx.imageID")],["saved zip"])

p("C05","Text is kept exactly",
 "For every string of characters legal in XML, adding it to a paragraph makes the paragraph's plain text grow by exactly that string, line feeds becoming line breaks and tabs becoming tab marks. The same holds after any number of save and reopen steps, and an independent reader that follows the XML whitespace rules for text elements sees the same characters in the saved file.",
 ["inputs"],"all strings of legal XML characters, in any number of runs, paragraphs, cells and link captions",
 "Tests contain a handful of fixed texts that are never saved; markup characters, leading or trailing blanks, line feeds, tabs, carriage returns and supplementary characters are not covered.",
 ["apitext.go","apilink.go","structtext.go","structrun.go","structpara.go"],
 [("splitting on newline and tab","apitext.go AddText"),("character data collection","structtext.go Text.UnmarshalXML")],[],["Paragraph.String","w:t elements of the saved package"])

p("C06","No input makes the library panic",
 "For every byte sequence offered as a package and every package whose parts contain arbitrary or damaged XML, the parser returns a document or an error without panicking or hanging. Every document it returns can be rendered to plain text, filtered, merged, split, appended to another document and saved, each of which finishes, possibly with an error, but never panics; the same holds for adding arbitrary bytes as a picture.",
 ["inputs"],"all byte strings, all zip packages with arbitrary parts, all mutations of valid documents, all picture byte strings",
 "Tests only feed well-formed fixed samples, while the package documentation says Parse may be called on uploads from a web form.",
 ["unpack.go","structdoc.go","structdrawing.go","structpara.go","structtable.go","structshape.go","apidrawing.go","helper.go"],
 [("nil and length checks before following references","structdrawing.go String/copymedia"),("error returns of UnmarshalXML","struct*.go")],[],["return values, recovered panics"])

p("C07","Markup that carries no content does not change what is read",
 "Adding comments, processing instructions, whitespace between elements, elements or attributes with names the library does not know, character references or CDATA sections for text, other namespace prefixes or other places for namespace declarations, or expanding empty-element tags, does not change the document the library reads or what it saves. Wrapping a drawing in a markup-compatibility choice the library supports reads the same drawing.",
 ["inputs"],"all supported documents and all insertions of meaning-free markup at all positions",
 "Tests feed one spelling of each sample; the same document spelled differently is never compared.",
 ["structdoc.go","structpara.go","structrun.go","structtext.go","structtable.go","structdrawing.go","structeffects.go","structshape.go","structsect.go"],
 [("token loops that skip unknown elements","UnmarshalXML methods"),("AlternateContent handling","structrun.go Run.parse")],[],["saved main document, plain text"])

p("C08","Damaged packages are reported, never read as something else",
 "When a package is cut short, when its main document or relationships XML ends early, when stored bytes of a part it reads are altered, or when the underlying reader fails, parsing or the later save returns an error; it never quietly yields a document with missing or different content. If no error is returned, the content equals that of the undamaged package.",
 ["fault_sequences","inputs"],"all cut positions, all altered bytes of part payloads, all positions of read failures",
 "No test uses the zip layer, injects a fault or offers a truncated part.",
 ["unpack.go","pack.go","docx.go","structdoc.go"],
 [("error returns of zip and XML readers passed on","unpack.go parseDocument/parseDocRelation/parseMedia")],[],["error of Parse and WriteTo"])

p("C09","A failed save is reported and can be retried",
 "If any write to the destination fails or data is cut short, or a template part cannot be opened or read, saving returns an error; saving returns no error only if the destination received a complete package that reopens with the same content, and then it reports the number of bytes the destination received. A failed save leaves the document unchanged, so saving it again to a good destination gives a complete and equal package.",
 ["fault_sequences"],"all documents, all failing byte positions and call numbers of the destination and of the template file system",
 "No test saves to a writer, let alone a failing one; the failure position is a quantifier tests cannot enumerate.",
 ["docx.go","pack.go","theme.go"],
 [("error propagation from zip writer, including its closing step","docx.go WriteTo, pack.go pack")],[],["error of WriteTo, bytes received"])

p("C10","Every picture keeps its own bytes over any history",
 "Through any history of adding pictures, saving and reopening, appending documents, splitting and merging, every picture placed in a document still shows exactly the bytes it was added with: no picture is lost, swapped, overwritten by another or left without its data, and distinct pictures never share a part name. A picture that is refused with an error leaves the document as it was.",
 ["histories"],"all operation histories over several documents, with pictures of all supported formats, duplicates, and names already used by a parsed package",
 "No test adds a picture; collisions need several save and reopen cycles or particular part names.",
 ["image.go","media.go","apidrawing.go","structdoc.go","structdrawing.go","unpack.go","pack.go","link.go"],
 [("numbering of image parts","image.go addImage"),("name to index map","media.go addMedia"),("media copying on append and split","structdrawing.go copymedia")],
 [("media list","part name and bytes","Docx.media, Docx.mediaNameIdx")],["media parts and relationship targets of the saved package"])

p("C11","Every link keeps its own target over any history",
 "Through any history of adding links, saving and reopening, appending and splitting, every hyperlink in a document keeps its caption and leads to exactly the address (and bookmark) it was created with. Looking up the target of a relationship identifier and the identifier of a target agree with the saved relationships part, unknown ones are reported as not found, and iterating relationships visits each once in order and stops at the first error.",
 ["histories","inputs"],"all operation histories over several documents, all addresses including repeated ones, parsed packages with arbitrary numeric relationship identifiers",
 "One test round-trips a fixed relationships list; identifier allocation after parsing, appending and splitting is untested.",
 ["link.go","apilink.go","apirel.go","structlink.go","structrel.go","structdoc.go","unpack.go"],
 [("identifier counter continued after the largest parsed one","unpack.go parseDocRelation, link.go"),("link copying on append and split","structdoc.go Paragraph.copymedia")],
 [("relationship list","id, type, target, mode","Docx.docRelation")],["hyperlink elements with the relationships part of the saved package"])

p("C12","Appending a document concatenates contents",
 "After appending document B to document A, A's content is A's former content followed by all of B's, in order, with B's text, links, pictures, tables, drawings and styling intact (references, drawing identifiers and picture names may be given anew) and B itself unchanged. This holds for built and parsed documents, for appending several documents or the same one repeatedly, and for a document appended to itself.",
 ["inputs","histories"],"all pairs and sequences of documents",
 "AppendFile has no test.",
 ["structdoc.go","structdrawing.go","link.go","image.go"],
 [("copying body items with re-registered references","structdoc.go AppendFile, copymedia")],[],["content of the saved result compared with the saved inputs"])

p("C13","Splitting a document partitions its contents",
 "Splitting by a separator rule yields documents whose contents, concatenated in order, are the original's content with text, links, pictures, tables, drawings and styling intact (references, drawing identifiers and picture names may be given anew) and the original unchanged. Each resulting document is non-empty, every one except possibly the first begins with a paragraph matching the rule, no other position of any result holds a matching paragraph, and a regular-expression rule matches exactly the paragraph's plain text.",
 ["inputs"],"all documents and all separator rules",
 "SplitByParagraph has no test.",
 ["structdoc.go","structdrawing.go","link.go","image.go"],
 [("restart at matching paragraph","structdoc.go SplitByParagraph")],[],["content of the saved pieces compared with the saved original"])

p("C14","Merging run text keeps text, order and other content",
 "For every paragraph and every merge rule, the merged paragraph has the same plain text, and the same sequence of text, tabs, breaks, drawings and links, as the original; only adjacent runs for which the rule holds are joined, a run joined to an earlier one takes the earlier one's properties, and no two adjacent runs remain for which the rule holds (runs with field instructions are never joined to an earlier one). The original paragraph is not modified.",
 ["inputs"],"all paragraphs (runs with text, tabs, breaks and drawings interleaved with links) and all merge rules",
 "One fixed paragraph whose runs hold only text is merged; mixed runs, links between runs and empty runs are not.",
 ["structtext.go"],[("merge loop","structtext.go Paragraph.MergeText")],[],["merged paragraph, original paragraph"])

p("C15","Merge rules compare run properties exactly",
 "The same-properties rule accepts two runs exactly when all their run properties are equal, and the named-properties rule exactly when each named property is equal (both absent, or present with equal attributes). Both rules are reflexive and symmetric, depend on values and not on pointers, and change nothing.",
 ["inputs"],"all pairs of runs with all combinations of properties and all lists of property names",
 "The sample paragraph differs in fonts, bold, size and underline only, in one combination each.",
 ["structtext.go"],[("reflective field comparison","structtext.go MergeSamePropRuns, MergeSamePropRunsOf")],[],["boolean results"])

p("C16","Filters remove exactly what they name",
 "Keeping named kinds of elements in a body, paragraph or run leaves exactly the elements of those kinds, in their original order, and dropping drawings of a kind from a paragraph or a whole body (tables included) removes exactly the drawings of that kind and nothing else. Filters are idempotent, filters for several kinds equal applying the single-kind ones, and unknown names drop nothing.",
 ["inputs"],"all documents, all kind lists, all drawing kinds (picture, shape, canvas, group, none; inline and anchored)",
 "KeepElements, DropDrawingOf and the Drop methods have no test.",
 ["structdoc.go","structpara.go","structrun.go"],[("type-name filters","KeepElements"),("Drop methods","structpara.go")],[],["remaining elements"])

p("C17","Each formatting call sets exactly its own property",
 "Every formatting call on runs, paragraphs, tables, rows and cells, and every page-size call, sets the one property it names to the given value and leaves all others as they were, in any order and repetition; the last call wins. In the saved file the property appears as the WordprocessingML element and attribute defined for it, with exactly that value.",
 ["programs","inputs"],"all sequences of formatting calls with all values",
 "No test calls a formatting method or checks the markup it produces.",
 ["apirun.go","apipara.go","apitable.go","theme.go","structeffects.go","structrun.go","structpara.go","structnum.go"],
 [("setters and struct tags","apirun.go, apipara.go, apitable.go, struct*.go")],[],["property elements in the saved main document, read by an independent reader"])

p("C18","Tables have the requested shape and keep their cells",
 "A table created with given rows, columns, widths, heights and border colours has exactly that many rows and cells, exactly those positive measures and exactly those colours (default black for omitted ones), in the saved file and after reopening. Content put into one cell appears in that cell only, at the same row and column, also in the plain-text grid.",
 ["inputs","programs"],"all table dimensions, measures, colours and cell contents",
 "One marshalling sample with fixed dimensions; reading tables back, heights, widths and colours are untested.",
 ["apitable.go","structtable.go"],[("table constructors","apitable.go AddTable, AddTableTwips"),("grid rendering","structtable.go Table.String")],[],["w:tbl in the saved main document, Table.String"])

p("C19","Pictures and shapes get the right geometry and identity",
 "A picture added inline or anchored gets the picture's own width-to-height ratio, never wider than the text width of A4 and never zero-sized for pictures with sides up to 65535 pixels, and later resizing of a picture or shape sets exactly the given size everywhere the size is recorded. A shape gets exactly the given size, name prefix, preset and line. Each drawing gets a new identifier within the document, and numbering per name counts up by one.",
 ["inputs","programs"],"all picture dimensions and formats, all shape parameters, all sequences of additions",
 "One drawing sample with one size; ratio, extreme dimensions, formats and numbering are untested.",
 ["apidrawing.go","apishape.go","structdrawing.go","id.go"],[("size computation","apidrawing.go"),("id counters","id.go")],[],["wp:extent, a:ext, wp:docPr in the saved main document"])

p("C20","Saving uses exactly the template and is repeatable",
 "A saved package contains exactly the listed template files, byte for byte from the given file system and template folder (the content-type list extended by the picture formats it lacks), plus the generated main document, its relationships and the document's pictures, generated parts taking precedence over template files of the same name; pictures added once the template is set never take the name of one of its files. Saving does not change the document: saving again, also after rendering or querying it in between, gives a package with equal parts, and every template file opened is closed again, also when saving fails.",
 ["inputs","configurations"],"all templates, file lists, file systems and documents, saved any number of times",
 "No test sets a template or saves.",
 ["theme.go","pack.go","fs.go"],[("template lookup","pack.go pack"),("embedded default","fs.go")],[],["parts of the saved package, open/close calls on the file system"])

p("C21","Identifier counters and documents are safe under concurrency",
 "Under any interleaving of concurrent requests, the per-name identifier counter hands out each value from one upward exactly once per name. Different documents can be built, saved, parsed and merged at the same time with the same results as one after the other, and one document can be rendered and saved by several goroutines at once.",
 ["schedules"],"all interleavings of goroutines requesting identifiers or working on different documents, or reading one",
 "Tests are single-threaded.",
 ["id.go","docx.go","pack.go","fs.go"],[("mutex around the counter map","id.go IncreaseID"),("no shared mutable package state","all files")],
 [("counter map","last value per name","Docx.slowIDs")],["values returned, race detector reports"])

p("C22","Plain-text rendering is complete and ordered",
 "The plain text of a paragraph is, in document order, all run text with tabs and line breaks, each link as its caption with its address (the bare relationship identifier where it is unknown), each picture with its name and the MD5 of its bytes, and each shape with its name and preset. The text of a table shows, row by row, the first paragraph of every cell. This holds equally for built, parsed, appended and split documents.",
 ["inputs"],"all paragraphs and tables of all documents",
 "No test calls String on a paragraph, table or drawing.",
 ["structpara.go","structtable.go","structdrawing.go"],[("String methods","structpara.go, structtable.go, structdrawing.go")],[],["String results compared with an independent reader of the saved file"])

p("C23","A document rebuilt from body items and media keeps them",
 "A document created from a list of body items and a list of media files holds exactly those items in order and those media under their names with their bytes, and saves them with a template. Adding further content to it never overwrites or renames the given media nor writes into the lists of the caller, and new relationship identifiers never clash.",
 ["inputs","histories"],"all item lists, media lists and following edits",
 "LoadBodyItems has no test.",
 ["docx.go","media.go","image.go"],[("construction from items","docx.go LoadBodyItems")],[],["saved package"])

p("C24","The command-line tool does what its flags say",
 "On any document file, in any folder, analyzing prints the plain text of every paragraph and table in order; the unmarshal, split and duplicate flags write files holding, respectively, the same content, the pieces of the split, and the given number (two or more) of copies; the clean flag removes exactly the drawings without a picture and the property flag exactly the paragraph properties. An input that is missing or no document, an expression that is no regular expression, and an output that cannot be written make the tool exit with an error. The input file is never changed in analyze mode.",
 ["inputs","configurations"],"all documents, file locations and flag combinations",
 "cmd/main has no test files.",
 ["cmd/main/main.go"],[("flag handling","cmd/main/main.go main")],[],["stdout and files written"])

p("C25","Number and string helpers convert faithfully",
 "Parsing the decimal text of any integer of the target type returns that integer, a decimal fraction (within the precision of a double) is truncated toward zero, a number followed by a unit returns the leading integer, text that does not start with a number and numbers out of range return an error, and both integer widths agree. Converting between strings and byte slices returns the same bytes and round-trips.",
 ["inputs"],"all integers, decimal fractions, numbers with units, and arbitrary strings",
 "The helpers are only used indirectly on a few small literals.",
 ["helper.go","slice.go"],[("fallback chain integer, float, prefix","helper.go GetInt, GetInt64")],[],["return values"])
p("C26","Structures put together by hand survive saving and reopening",
 "A document assembled directly from the exported structures (paragraphs, runs, links, texts, tabs, breaks, drawings with pictures, shapes, canvases and groups, tables, section properties, and all their property structures, nested), as far as the file format can express it, is read back after saving with the same items in the same order and the same value in every exported field: nothing is lost, added, moved or swapped, and a property which was not set is not set afterwards. The same holds after saving and reopening once more.",
 ["inputs"],"all combinations of fields set and not set, and their values, over the whole tree of structures",
 "About ninety structures with some three hundred fields are each written by tags and read by hand-written code; tests look at a few samples and never at the fields of what was read.",
 ["structpara.go","structrun.go","structtext.go","structlink.go","structdrawing.go","structshape.go","structcanvas.go","structgroup.go","structeffects.go","structtable.go","structsect.go","structnum.go"],[("tags for writing, UnmarshalXML for reading, of each structure","struct*.go")],[],["exported fields of the reopened document"])
p("C27","Saved documents follow the order and structure of the file format",
 "In the main document of every saved file the children of every element the library writes come in the order the file format (ISO/IEC 29500 and its shape extensions) prescribes: properties before content, the property elements of paragraphs, runs, numbering, tables, cells, borders and sections in their sequence, the parts of drawings in theirs; an element allowed once is there at most once. What the building calls create also has the children and attributes the format requires, with values it allows where the library chooses them, and nothing the format does not allow in that place. This is independent of the order in which the properties were set or read. (Where the caller puts section properties, and cells without paragraphs, are outside of this.)",
 ["programs","inputs","histories"],"all building programs, all parsed documents, all histories of appending, splitting and merging",
 "Other programs refuse or repair files with elements out of order; go-docx itself reads them in any order, so no round trip shows it, and the tests do not validate what is saved.",
 ["structpara.go","structrun.go","structnum.go","structtable.go","structsect.go","structdrawing.go","structshape.go","structcanvas.go","structgroup.go","apidrawing.go","apishape.go","apitable.go"],[("order of the fields of the structures decides the order of the elements","struct*.go")],[],["word/document.xml of the saved package"])
p("C28","Whatever is accepted is read again after saving",
 "For every package the library accepts, however unusual, misplaced, repeated, contradictory or partly damaged its markup, a save that succeeds gives a package whose generated parts are well formed and which is accepted again, holding the same items in the same order with the same value in every exported field and the same plain text; saving it once more gives the same parts with the same content. (A preset geometry without the name of the preset, which the format requires, is not kept.)",
 ["inputs","histories"],"all packages the library accepts",
 "What is read from markup nobody wrote on purpose, and whether the writer can express it, is not looked at by any test.",
 ["unpack.go","pack.go","structdoc.go","structpara.go","structrun.go","structtext.go","structlink.go","structdrawing.go","structshape.go","structcanvas.go","structgroup.go","structeffects.go","structtable.go","structsect.go","structnum.go","helper.go"],[("tolerant reading by local names and number prefixes","UnmarshalXML of each structure, helper.go GetInt, getOnOff"),("writing by tags","struct*.go")],[],["reopened document, saved parts"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
